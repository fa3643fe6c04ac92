//! Renaming every declaration of a case by a scheme which relates the names of one scope to each
//! other: code which looks names up by anything less than equality resolves to something else.

use crate::ast::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Scheme {
    /// Earlier names start with the later ones.
    LongFirst,
    /// Later names start with the earlier ones.
    ShortFirst,
    /// Earlier names end with the later ones.
    Suffix,
    /// Field and variant names of one scope differ in letter case only.
    Case,
    /// The same names in every scope.
    Shared,
    /// Long names with digits and underscores.
    Long,
}

pub const SCHEMES: &[Scheme] = &[Scheme::LongFirst, Scheme::ShortFirst, Scheme::Suffix, Scheme::Case, Scheme::Shared, Scheme::Long];

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class { Proto, Type, Field, Case, Variant }

fn name(s: Scheme, c: Class, i: usize, n: usize) -> String {
    let up = matches!(c, Class::Type | Class::Case | Class::Variant);
    let stem = match (s, c) { (Scheme::Shared, Class::Proto) => "q", (Scheme::Shared, _) => "a", (_, Class::Proto) => "pr", (_, Class::Type) => "ty", (_, Class::Field) => "fd", (_, Class::Case) => "cs", (_, Class::Variant) => "va" };
    let o = match s {
        Scheme::Case if matches!(c, Class::Field | Class::Variant) => "abcdefgh".chars().enumerate().map(|(k, x)| if k > 0 && i >> (k - 1) & 1 == 1 { x.to_ascii_uppercase() } else { x }).collect(),
        Scheme::LongFirst | Scheme::Case => format!("{}{}", stem, "x".repeat(n - i)),
        Scheme::ShortFirst => format!("{}{}", stem, "x".repeat(i + 1)),
        Scheme::Suffix => format!("{}{}", "x".repeat(n - i), stem),
        Scheme::Shared => format!("{}{}", stem, (b'a' + (i / 26) as u8) as char).to_string() + &((b'a' + (i % 26) as u8) as char).to_string(),
        Scheme::Long => format!("{}{}A{}", stem, "0Longname1".repeat(6), i),
    };
    if up { let mut k = o.chars(); k.next().unwrap().to_ascii_uppercase().to_string() + k.as_str() } else { o }
}

type Names = HashMap<String, String>;

fn scope<'a>(s: Scheme, c: Class, it: impl Iterator<Item = &'a String>) -> Names {
    let v: Vec<&String> = it.collect();
    v.iter().enumerate().map(|(i, x)| (x.to_string(), name(s, c, i, v.len()))).collect()
}

fn to(m: &Names, x: &str) -> String { m.get(x).cloned().unwrap_or_else(|| x.to_string()) }

/// The unit and declaration a type name of unit `k` stands for.
fn owner(units: &[Proto], k: usize, t: &str) -> usize {
    match units[k].imports.iter().find(|i| i.1 == t) {
        Some((p, t)) => match units[..k].iter().rposition(|u| u.name == *p) { Some(j) => owner(units, j, t), None => k },
        None => k,
    }
}

pub fn rename(units: &[Proto], s: Scheme) -> Vec<Proto> {
    let n = units.len();
    let protos: Names = scope(s, Class::Proto, units.iter().map(|u| &u.name));
    // type names are distinct over all units, so that importing everything stays possible
    let mut all: Vec<(usize, String)> = Vec::new();
    for (k, u) in units.iter().enumerate() {
        for t in u.enums.iter().map(|x| &x.name).chain(u.structs.iter().map(|x| &x.name)).chain(u.unions.iter().map(|x| &x.name)).chain(u.messages.iter().map(|x| &x.name)) { all.push((k, t.clone())); }
    }
    let total = all.len();
    let types: HashMap<(usize, String), String> = all.into_iter().enumerate().map(|(i, x)| (x, name(s, Class::Type, i, total))).collect();
    let ty = |k: usize, t: &str| types.get(&(owner(units, k, t), t.to_string())).cloned().unwrap_or_else(|| t.to_string());
    let find_s = |k: usize, t: &str| { let o = owner(units, k, t); units[o].structs.iter().find(|x| x.name == t).map(|x| (o, x)) };
    let find_e = |k: usize, t: &str| { let o = owner(units, k, t); units[o].enums.iter().find(|x| x.name == t) };
    let fields = |d: &StructD| scope(s, Class::Field, d.fields.iter().map(|f| &f.name));
    let variants = |d: &EnumD| scope(s, Class::Variant, d.variants.iter().map(|f| &f.0));
    let mut out = Vec::new();
    for k in 0..n {
        let mut p = units[k].clone();
        p.name = to(&protos, &p.name);
        for (q, t) in &mut p.imports { *t = ty(k, t); *q = to(&protos, q); }
        for e in &mut p.enums { let m = variants(e); e.name = ty(k, &e.name); for v in &mut e.variants { v.0 = to(&m, &v.0); } }
        for d in &mut p.structs {
            let m = fields(d);
            d.name = ty(k, &d.name);
            for f in &mut d.fields {
                f.name = to(&m, &f.name);
                if let STy::Struct(t) = &mut f.ty { *t = ty(k, t); }
                if let Some(View::Enum(t)) = &mut f.view { *t = ty(k, t); }
            }
        }
        for u in &mut p.unions {
            let mut path = Vec::new();
            let mut cur = None;
            let mut en = None;
            for (i, x) in u.disc.split('.').enumerate() {
                if i == 0 { path.push(ty(k, x)); cur = find_s(k, x); continue; }
                let Some((o, d)) = cur else { path.push(x.to_string()); continue };
                path.push(to(&fields(d), x));
                let f = d.fields.iter().find(|f| f.name == x);
                cur = None;
                match f.map(|f| (&f.ty, &f.view)) {
                    Some((STy::Struct(t), _)) => cur = find_s(o, t),
                    Some((_, Some(View::Enum(t)))) => en = find_e(o, t),
                    _ => (),
                }
            }
            u.name = ty(k, &u.name);
            u.disc = path.join(".");
            let m = scope(s, Class::Case, u.cases.iter().map(|c| &c.name));
            let vm = en.map(|e| variants(e)).unwrap_or_default();
            for c in &mut u.cases {
                c.name = to(&m, &c.name);
                c.case = to(&vm, &c.case);
                if let Some(t) = &mut c.item { *t = ty(k, t); }
            }
        }
        for d in &mut p.messages {
            let m = scope(s, Class::Field, d.fields.iter().map(|f| &f.name));
            d.name = ty(k, &d.name);
            for f in &mut d.fields {
                f.name = to(&m, &f.name);
                match &mut f.ty {
                    MTy::Item(t) | MTy::List { item: t, .. } => *t = ty(k, t),
                    MTy::Union { on, item } => { *on = to(&m, on); *item = ty(k, item); }
                    _ => (),
                }
            }
        }
        out.push(p);
    }
    out
}
