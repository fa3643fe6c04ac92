//! Parts of a case: what is left of a schema which the compiler refuses although it is valid.

use crate::ast::*;
use crate::space::Case;
use std::collections::BTreeSet;

/// (unit, kind, index): kinds are imports, enums, structures, unions and messages.
pub type Decl = (usize, u8, usize);

pub fn decls(p: &Proto, k: usize) -> Vec<Decl> {
    let n = [p.imports.len(), p.enums.len(), p.structs.len(), p.unions.len(), p.messages.len()];
    (0..5u8).flat_map(|t| (0..n[t as usize]).map(move |i| (k, t, i))).collect()
}

fn pick<T: Clone>(v: &[T], k: usize, t: u8, keep: &BTreeSet<Decl>) -> Vec<T> {
    v.iter().enumerate().filter(|(i, _)| keep.contains(&(k, t, *i))).map(|(_, x)| x.clone()).collect()
}

pub fn part(p: &Proto, k: usize, keep: &BTreeSet<Decl>) -> Proto {
    Proto {
        name: p.name.clone(), endian: p.endian,
        imports: pick(&p.imports, k, 0, keep), enums: pick(&p.enums, k, 1, keep), structs: pick(&p.structs, k, 2, keep), unions: pick(&p.unions, k, 3, keep), messages: pick(&p.messages, k, 4, keep),
    }
}

/// Everything of unit `k` that the declaration needs, itself included.
pub fn closure(p: &Proto, k: usize, d: Decl) -> BTreeSet<Decl> {
    let mut out = BTreeSet::from([d]);
    let mut todo = vec![d];
    while let Some((_, t, i)) = todo.pop() {
        let mut names: Vec<&str> = Vec::new();
        match t {
            2 => for f in &p.structs[i].fields {
                if let STy::Struct(n) = &f.ty { names.push(n); }
                if let Some(View::Enum(n)) = &f.view { names.push(n); }
            },
            3 => {
                names.push(p.unions[i].disc.split('.').next().unwrap_or(""));
                names.extend(p.unions[i].cases.iter().filter_map(|c| c.item.as_deref()));
            }
            4 => for f in &p.messages[i].fields {
                match &f.ty { MTy::Item(n) | MTy::List { item: n, .. } | MTy::Union { item: n, .. } => names.push(n), _ => () }
            },
            _ => (),
        }
        for n in names {
            let hit: Vec<Decl> = p.imports.iter().enumerate().filter(|(_, x)| x.1 == n).map(|(i, _)| (k, 0, i))
                .chain(p.enums.iter().enumerate().filter(|(_, x)| x.name == n).map(|(i, _)| (k, 1, i)))
                .chain(p.structs.iter().enumerate().filter(|(_, x)| x.name == n).map(|(i, _)| (k, 2, i)))
                .chain(p.unions.iter().enumerate().filter(|(_, x)| x.name == n).map(|(i, _)| (k, 3, i)))
                .chain(p.messages.iter().enumerate().filter(|(_, x)| x.name == n).map(|(i, _)| (k, 4, i))).collect();
            for h in hit { if out.insert(h) { todo.push(h); } }
        }
    }
    out
}

/// The largest part found that `ok` accepts (given the number of a unit, and the units up to it).
pub fn reduce(c: &Case, ok: &mut dyn FnMut(usize, &[Proto]) -> bool) -> Option<BTreeSet<Decl>> {
    let mut kept: BTreeSet<Decl> = BTreeSet::new();
    let mut units: Vec<Proto> = Vec::new();
    for (k, p) in c.units.iter().enumerate() {
        let mut with = |ok: &mut dyn FnMut(usize, &[Proto]) -> bool, keep: &BTreeSet<Decl>| {
            let mut v = units.clone();
            v.push(part(p, k, keep));
            ok(k, &v)
        };
        let all = decls(p, k);
        let mut mine: BTreeSet<Decl> = all.iter().copied().collect();
        if !with(ok, &mine) {
            mine.clear();
            for d in &all {
                let mut more = mine.clone();
                more.extend(closure(p, k, *d));
                if more.len() > mine.len() && with(ok, &more) { mine = more; }
            }
        }
        units.push(part(p, k, &mine));
        kept.extend(mine);
    }
    if kept.is_empty() { None } else { Some(kept) }
}

pub fn apply(c: &Case, keep: &BTreeSet<Decl>) -> Case {
    Case { id: c.id, label: c.label.clone(), units: c.units.iter().enumerate().map(|(k, p)| part(p, k, keep)).collect(), expect: c.expect }
}

pub fn to_text(id: usize, keep: &BTreeSet<Decl>) -> String {
    keep.iter().map(|(k, t, i)| format!("{} {} {} {}\n", id, k, t, i)).collect()
}

pub fn apply_text(all: &mut [Case], text: &str) {
    let mut by: std::collections::BTreeMap<usize, BTreeSet<Decl>> = Default::default();
    for l in text.lines() {
        let v: Vec<usize> = l.split(' ').map(|x| x.parse().unwrap()).collect();
        by.entry(v[0]).or_default().insert((v[1], v[2] as u8, v[3]));
    }
    for c in all { if let Some(k) = by.get(&c.id) { *c = apply(c, k); } }
}
