//! Base schemas and their mutations: single edits of one site, and pairs of edits.

use crate::ast::*;
use crate::model::RProto;
use crate::space::{Case, Expect, Tier};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

type Edit = Box<dyn Fn(&mut Vec<Proto>) + Send + Sync>;
pub struct Mutation { pub label: String, pub site: String, pub apply: Edit }

const WIDTHS: &[u64] = &[0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 128, 1 << 31, 1 << 32, 1 << 52];
const FWIDTHS: &[u64] = &[0, 1, 8, 16, 31, 32, 33, 63, 64, 65, 80];

fn stys(names: &[String]) -> Vec<STy> {
    let mut v = Vec::new();
    for w in WIDTHS { v.push(STy::Unsigned(*w)); v.push(STy::Signed(*w)); }
    for w in [0, 1, 3, 8, 9, 16, 64, 65] { v.push(STy::Bool(w)); }
    for w in FWIDTHS { v.push(STy::Float(*w)); }
    for n in names { v.push(STy::Struct(n.clone())); }
    v
}

fn views(names: &[String]) -> Vec<Option<View>> {
    let mut v = vec![None, Some(View::Range(0.0, 1.0)), Some(View::Range(-2.5, 7.0)), Some(View::Range(1.0, 1.0)), Some(View::Range(2.0, 1.0)),
        Some(View::Range(f64::NAN, 1.0)), Some(View::Mult(0.5)), Some(View::Mult(0.0)), Some(View::Mult(-3.0)), Some(View::Mult(1e-320)), Some(View::Range(-1e308, 1e308))];
    for n in names { v.push(Some(View::Enum(n.clone()))); }
    v
}

fn mtys(names: &[String], fields: &[String]) -> Vec<MTy> {
    let mut v = vec![MTy::Payload, MTy::Str(None)];
    for m in [0, 1, 255, 256, 65535, 65536, 0xFFFF_FFFF, 0x1_0000_0000, 1 << 53] { v.push(MTy::Str(Some(m))); }
    for n in names {
        v.push(MTy::Item(n.clone()));
        for m in [0, 255, 256, 1 << 40] { v.push(MTy::List { max: m, item: n.clone() }); }
    }
    for f in fields { for n in names { v.push(MTy::Union { on: f.clone(), item: n.clone() }); } }
    v
}

/// Every name anything could be referred to by, plus wrong ones.
fn all_names(ps: &[Proto], k: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for p in ps {
        v.extend(p.enums.iter().map(|x| x.name.clone()));
        v.extend(p.structs.iter().map(|x| x.name.clone()));
        v.extend(p.unions.iter().map(|x| x.name.clone()));
        v.extend(p.messages.iter().map(|x| x.name.clone()));
    }
    let _ = k;
    let near: Vec<String> = v.iter().flat_map(|n| {
        let mut w = vec![format!("{}x", n), n.to_lowercase(), n.to_uppercase(), format!(" {}", n)];
        if n.len() > 1 { w.push(n[..n.len() - 1].into()); w.push(n[1..].into()); }
        w
    }).collect();
    v.extend(near);
    v.push("Nope".into());
    v.push(String::new());
    v.sort();
    v.dedup();
    v
}

/// All single mutations of unit `k`.
pub fn mutations(base: &[Proto], k: usize) -> Vec<Mutation> {
    let names = all_names(base, k);
    let p = &base[k];
    let mut out: Vec<Mutation> = Vec::new();
    let mut add = |label: String, site: String, f: Edit| out.push(Mutation { label, site, apply: f });
    macro_rules! edit { ($site: expr, $label: expr, |$ps: ident| $b: expr) => { add($label, $site, Box::new(move |v: &mut Vec<Proto>| { if let Some($ps) = v.get_mut(k) { $b } })) } }

    for e in [None, Some(End::Little), Some(End::Big)] { edit!("proto".into(), format!("endian={:?}", e), |p| p.endian = e); }
    // structures
    for (i, s) in p.structs.iter().enumerate() {
        edit!(format!("s{}", i), format!("struct {} removed", s.name), |p| if i < p.structs.len() { p.structs.remove(i); });
        edit!(format!("s{}", i), format!("struct {} renamed", s.name), |p| if let Some(s) = p.structs.get_mut(i) { s.name = "Renamed".into(); });
        if i > 0 { edit!(format!("s{}", i), format!("struct {} moved up", s.name), |p| if i < p.structs.len() { p.structs.swap(i, i - 1); }); }
        edit!(format!("s{}", i), format!("struct {} last", s.name), |p| if i < p.structs.len() { let x = p.structs.remove(i); p.structs.push(x); });
        for n in names.iter().cloned() { let nn = n.clone(); edit!(format!("s{}", i), format!("struct {} renamed {}", s.name, nn), |p| if let Some(s) = p.structs.get_mut(i) { s.name = n.clone(); }); }
        for (j, f) in s.fields.iter().enumerate() {
            let site = format!("s{}.{}", i, j);
            let at = format!("{}.{}", s.name, f.name);
            edit!(site.clone(), format!("{} removed", at), |p| if let Some(s) = p.structs.get_mut(i) { if j < s.fields.len() { s.fields.remove(j); } });
            if j > 0 { edit!(site.clone(), format!("{} moved up", at), |p| if let Some(s) = p.structs.get_mut(i) { if j < s.fields.len() { s.fields.swap(j, j - 1); } }); }
            edit!(site.clone(), format!("{} renamed", at), |p| if let Some(f) = p.structs.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.name = "renamed".into(); });
            for t in stys(&names) { let tt = format!("{:?}", t); edit!(site.clone(), format!("{} type {}", at, tt), |p| if let Some(f) = p.structs.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.ty = t.clone(); }); }
            for t in views(&names) { let tt = format!("{:?}", t); edit!(site.clone(), format!("{} view {}", at, tt), |p| if let Some(f) = p.structs.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.view = t.clone(); }); }
            for t in [None, Some(0), Some(1), Some(2), Some(3), Some(1000), Some(1 << 40), Some(1 << 58), Some(1 << 62)] {
                edit!(site.clone(), format!("{} array_len {:?}", at, t), |p| if let Some(f) = p.structs.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.array_len = t; });
            }
            for w in [1u64, 7, 8] {
                edit!(site.clone(), format!("{} preceded by {} bits", at, w), |p| if let Some(s) = p.structs.get_mut(i) { if j <= s.fields.len() { s.fields.insert(j, sf(format!("ins{}", w), STy::Unsigned(w))); } });
            }
        }
    }
    // enums
    for (i, e) in p.enums.iter().enumerate() {
        edit!(format!("e{}", i), format!("enum {} removed", e.name), |p| if i < p.enums.len() { p.enums.remove(i); });
        edit!(format!("e{}", i), format!("enum {} emptied", e.name), |p| if let Some(e) = p.enums.get_mut(i) { e.variants.clear(); });
        for (j, v) in e.variants.iter().enumerate() {
            let vals: Vec<u64> = [0, 1, 2, 3, 6, 7, 8, 31, 32, 127, 128, 255, 256, 65535, 65536, 1 << 32, 1 << 52].into();
            for x in vals { edit!(format!("e{}", i), format!("{}.{} = {}", e.name, v.0, x), |p| if let Some(v) = p.enums.get_mut(i).and_then(|e| e.variants.get_mut(j)) { v.1 = x; }); }
            edit!(format!("e{}", i), format!("{}.{} removed", e.name, v.0), |p| if let Some(e) = p.enums.get_mut(i) { if j < e.variants.len() { e.variants.remove(j); } });
        }
    }
    // unions
    for (i, u) in p.unions.iter().enumerate() {
        let site = format!("u{}", i);
        let mut paths: Vec<String> = vec!["".into(), ".".into(), "Nope".into(), "Nope.k".into()];
        for s in base.iter().flat_map(|b| b.structs.iter()) {
            paths.push(s.name.clone());
            paths.push(format!("{}.nope", s.name));
            paths.push(format!("{}.", s.name));
            for f in &s.fields {
                paths.push(format!("{}.{}", s.name, f.name));
                paths.push(format!("{}.{}x", s.name, f.name));
                paths.push(format!("{}.{}", s.name, f.name.to_uppercase()));
                paths.push(format!("{}x.{}", s.name, f.name));
                paths.push(format!("{}.{}.x", s.name, f.name));
                if let STy::Struct(n) = &f.ty {
                    for g in base.iter().flat_map(|b| b.structs.iter()).filter(|t| t.name == *n).flat_map(|t| t.fields.iter()) {
                        paths.push(format!("{}.{}.{}", s.name, f.name, g.name));
                        paths.push(format!("{}.{}.{}.{}", s.name, f.name, g.name, g.name));
                    }
                }
            }
        }
        for d in paths { let dd = d.clone(); edit!(site.clone(), format!("{} discriminant {:?}", u.name, dd), |p| if let Some(u) = p.unions.get_mut(i) { u.disc = d.clone(); }); }
        edit!(site.clone(), format!("{} emptied", u.name), |p| if let Some(u) = p.unions.get_mut(i) { u.cases.clear(); });
        edit!(site.clone(), format!("{} removed", u.name), |p| if i < p.unions.len() { p.unions.remove(i); });
        if i > 0 { edit!(site.clone(), format!("{} moved up", u.name), |p| if i < p.unions.len() { p.unions.swap(i, i - 1); }); }
        for (j, c) in u.cases.iter().enumerate() {
            let site = format!("u{}.{}", i, j);
            let at = format!("{}.{}", u.name, c.name);
            edit!(site.clone(), format!("{} removed", at), |p| if let Some(u) = p.unions.get_mut(i) { if j < u.cases.len() { u.cases.remove(j); } });
            edit!(site.clone(), format!("{} repeated", at), |p| if let Some(u) = p.unions.get_mut(i) { if j < u.cases.len() { let mut c = u.cases[j].clone(); c.name = "Again".into(); u.cases.push(c); } });
            for x in ["K0", "K1", "K2", "k0", "Nope", "", "0", "1", "2", "3", "4", "7", "8", "15", "16", "127", "128", "255", "256", "-1", "-2", "-128", "-129", "65536", "1.5", "x1", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809"] {
                edit!(site.clone(), format!("{} case {:?}", at, x), |p| if let Some(c) = p.unions.get_mut(i).and_then(|u| u.cases.get_mut(j)) { c.case = x.into(); });
            }
            for it in std::iter::once(None).chain(names.iter().map(|n| Some(n.clone()))) {
                let t = format!("{:?}", it);
                edit!(site.clone(), format!("{} item {}", at, t), |p| if let Some(c) = p.unions.get_mut(i).and_then(|u| u.cases.get_mut(j)) { c.item = it.clone(); });
            }
        }
    }
    // messages
    for (i, m) in p.messages.iter().enumerate() {
        edit!(format!("m{}", i), format!("message {} removed", m.name), |p| if i < p.messages.len() { p.messages.remove(i); });
        if i > 0 { edit!(format!("m{}", i), format!("message {} moved up", m.name), |p| if i < p.messages.len() { p.messages.swap(i, i - 1); }); }
        edit!(format!("m{}", i), format!("message {} last", m.name), |p| if i < p.messages.len() { let x = p.messages.remove(i); p.messages.push(x); });
        let fnames: Vec<String> = m.fields.iter().flat_map(|f| [f.name.clone(), format!("{}x", f.name), f.name.to_uppercase(), f.name[..f.name.len() - 1].to_string()]).chain(["nope".to_string()]).collect();
        for (j, f) in m.fields.iter().enumerate() {
            let site = format!("m{}.{}", i, j);
            let at = format!("{}.{}", m.name, f.name);
            edit!(site.clone(), format!("{} removed", at), |p| if let Some(s) = p.messages.get_mut(i) { if j < s.fields.len() { s.fields.remove(j); } });
            edit!(site.clone(), format!("{} repeated", at), |p| if let Some(s) = p.messages.get_mut(i) { if j < s.fields.len() { let mut c = s.fields[j].clone(); c.name = "again".into(); s.fields.push(c); } });
            if j > 0 { edit!(site.clone(), format!("{} moved up", at), |p| if let Some(s) = p.messages.get_mut(i) { if j < s.fields.len() { s.fields.swap(j, j - 1); } }); }
            edit!(site.clone(), format!("{} optional toggled", at), |p| if let Some(f) = p.messages.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.optional = !f.optional; });
            for t in mtys(&names, &fnames) { let tt = format!("{:?}", t); edit!(site.clone(), format!("{} type {}", at, tt), |p| if let Some(f) = p.messages.get_mut(i).and_then(|s| s.fields.get_mut(j)) { f.ty = t.clone(); }); }
        }
    }
    // imports
    for (i, _) in p.imports.iter().enumerate() {
        edit!("imports".into(), format!("import {} removed", i), |p| if i < p.imports.len() { p.imports.remove(i); });
        edit!("imports".into(), format!("import {} repeated", i), |p| if i < p.imports.len() { let x = p.imports[i].clone(); p.imports.push(x); });
        for n in names.iter().cloned() { let nn = n.clone(); edit!("imports".into(), format!("import {} of {:?}", i, nn), |p| if i < p.imports.len() { p.imports[i].1 = n.clone(); }); }
        for n in ["", "p", "q", "zz", "Q", "q "] { edit!("imports".into(), format!("import {} from {:?}", i, n), |p| if i < p.imports.len() { p.imports[i].0 = n.into(); }); }
    }
    out
}

/// The domain on which acceptance is predicted; outside it only the absence of panics is.
pub fn ordinary(units: &[Proto]) -> bool {
    units.iter().all(|p| {
        let mut types: HashSet<&str> = HashSet::new();
        let mut ok = true;
        for n in p.imports.iter().map(|i| &i.1).chain(p.enums.iter().map(|x| &x.name)).chain(p.structs.iter().map(|x| &x.name)).chain(p.unions.iter().map(|x| &x.name)).chain(p.messages.iter().map(|x| &x.name)) {
            ok &= !n.is_empty() && types.insert(n);
        }
        let distinct = |v: Vec<&str>| { let n = v.len(); n > 0 && v.iter().all(|x| !x.is_empty()) && v.into_iter().collect::<HashSet<_>>().len() == n };
        for s in &p.structs {
            ok &= distinct(s.fields.iter().map(|f| &*f.name).collect());
            for f in &s.fields {
                ok &= f.array_len.unwrap_or(1) < (1 << 31);
                // an array length on a nested structure, or a view on array items, has no stated meaning
                ok &= !(f.array_len.unwrap_or(1) != 1 && (matches!(f.ty, STy::Struct(_)) || f.view.is_some()));
                ok &= match &f.view {
                    Some(View::Range(a, b)) => a.is_finite() && b.is_finite() && a < b && b - a < 1e30,
                    Some(View::Mult(m)) => m.is_finite() && *m > 1e-30 && *m < 1e30,
                    _ => true,
                };
            }
        }
        for m in &p.messages { ok &= distinct(m.fields.iter().map(|f| &*f.name).collect()); }
        for u in &p.unions { ok &= u.cases.is_empty() || distinct(u.cases.iter().map(|c| &*c.name).collect()); }
        for e in &p.enums { ok &= e.variants.is_empty() || distinct(e.variants.iter().map(|c| &*c.0).collect()); }
        ok
    })
}

fn base_structs() -> Vec<Proto> {
    let mut p = proto("p");
    p.enums.push(en("E", &[("X", 1), ("Y", 6)]));
    p.structs.push(st("A", vec![sf("a", STy::Unsigned(5)), sf("b", STy::Signed(11))]));
    p.structs.push(st("S", vec![
        sf("u", STy::Unsigned(8)), sf("i", STy::Signed(16)), sf("t", STy::Bool(1)), sf("g", STy::Unsigned(7)), sf("f", STy::Float(32)),
        sfv("e", STy::Unsigned(3), View::Enum("E".into())), sfv("r", STy::Float(9), View::Range(0.0, 4.0)), sfv("m", STy::Float(12), View::Mult(0.25)),
        sfa("v", STy::Unsigned(16), 3), sf("n", STy::Struct("A".into())), sf("z", STy::Unsigned(3)),
    ]));
    p.structs.push(st("B", vec![sf("n", STy::Struct("S".into())), sf("w", STy::Signed(33))]));
    p.messages.push(ms("M", vec![mf("s", item("S")), mf("b", item("B"))]));
    vec![p]
}

fn base_messages() -> Vec<Proto> {
    let mut p = proto("p");
    p.endian = Some(End::Big);
    p.enums.push(en("Ek", &[("K0", 1), ("K1", 2), ("K2", 5)]));
    p.structs.push(st("V", vec![sf("v", STy::Unsigned(16))]));
    p.structs.push(st("Hd", vec![sf("pad", STy::Signed(3)), sfv("k", STy::Unsigned(5), View::Enum("Ek".into())), sf("w", STy::Unsigned(8)), sfa("ar", STy::Unsigned(8), 2)]));
    p.structs.push(st("Hn", vec![sf("h", STy::Struct("Hd".into())), sf("q", STy::Bool(2)), sfv("fl", STy::Float(6), View::Mult(2.0))]));
    p.unions.push(un("Us", "Hd.k", &[("A", "K0", Some("V")), ("B", "K1", None)]));
    p.unions.push(un("Uw", "Hn.h.w", &[("A", "0", Some("Hd")), ("B", "255", None)]));
    p.unions.push(un("Up", "Hd.pad", &[("A", "-1", None), ("B", "3", Some("V"))]));
    p.messages.push(ms("Ms", vec![mf("a", item("V"))]));
    p.messages.push(ms("Md", vec![mf("s", MTy::Str(Some(10))), mo("o", item("Ms"))]));
    p.messages.push(ms("M1", vec![mf("h", item("Hd")), mf("u", uni("h", "Us")), mf("n", item("Hn")), mf("w", uni("n", "Uw"))]));
    p.messages.push(ms("M2", vec![mf("s", MTy::Str(None)), mf("l", list(300, "V")), mo("d", item("Md")), mf("q", list(9, "Md"))]));
    p.messages.push(ms("M3", vec![mf("v", item("V")), mf("p", MTy::Payload)]));
    vec![p]
}

fn base_imports() -> Vec<Proto> {
    let mut q = proto("q");
    q.enums.push(en("Ek", &[("K0", 1), ("K1", 2)]));
    q.structs.push(st("Hd", vec![sfv("k", STy::Unsigned(5), View::Enum("Ek".into())), sf("w", STy::Unsigned(3))]));
    q.messages.push(ms("Mi", vec![mf("h", item("Hd")), mf("s", MTy::Str(None))]));
    q.messages.push(ms("Mp", vec![mf("h", item("Hd")), mf("p", MTy::Payload)]));
    q.unions.push(un("Us", "Hd.k", &[("A", "K0", Some("Hd")), ("B", "K1", None)]));
    let mut p = proto("p");
    for t in ["Ek", "Hd", "Mi", "Mp", "Us"] { p.imports.push(("q".into(), t.into())); }
    p.structs.push(st("L", vec![sfv("e", STy::Unsigned(8), View::Enum("Ek".into())), sf("n", STy::Struct("Hd".into()))]));
    p.unions.push(un("Um", "Hd.k", &[("A", "K0", Some("Mi")), ("B", "K1", Some("Mp"))]));
    p.messages.push(ms("M", vec![mf("h", item("Hd")), mf("u", uni("h", "Us")), mf("l", list(9, "Mi"))]));
    p.messages.push(ms("N", vec![mf("h", item("Hd")), mf("u", uni("h", "Um"))]));
    vec![q, p]
}

fn base_small() -> Vec<Proto> {
    let mut p = proto("p");
    p.enums.push(en("E", &[("K0", 1), ("K1", 3)]));
    p.structs.push(st("H", vec![sfv("k", STy::Unsigned(2), View::Enum("E".into())), sf("w", STy::Unsigned(6))]));
    p.unions.push(un("U", "H.k", &[("A", "K0", Some("H")), ("B", "K1", None)]));
    p.messages.push(ms("M", vec![mf("h", item("H")), mf("u", uni("h", "U"))]));
    vec![p]
}

/// Two protocols with types of the same names, where only some are imported.
fn base_homonyms() -> Vec<Proto> {
    let mut q = proto("q");
    q.enums.push(en("E", &[("K0", 1), ("K1", 2)]));
    q.structs.push(st("Hd", vec![sfv("k", STy::Unsigned(5), View::Enum("E".into())), sf("w", STy::Unsigned(3))]));
    q.structs.push(st("In", vec![sf("hd", STy::Struct("Hd".into())), sf("x", STy::Unsigned(8))]));
    q.unions.push(un("Us", "Hd.k", &[("A", "K0", None), ("B", "K1", Some("Hd"))]));
    q.unions.push(un("Un", "In.hd.w", &[("A", "0", Some("Hd")), ("B", "7", None)]));
    q.messages.push(ms("Mi", vec![mf("h", item("Hd")), mf("u", uni("h", "Us")), mf("s", MTy::Str(None))]));
    let mut p = proto("p");
    for t in ["In", "Us", "Un"] { p.imports.push(("q".into(), t.into())); }
    p.enums.push(en("E", &[("K0", 3), ("K2", 4)]));
    p.structs.push(st("Hd", vec![sfv("k", STy::Unsigned(5), View::Enum("E".into())), sf("w", STy::Unsigned(3))]));
    p.unions.push(un("Ul", "Hd.k", &[("A", "K0", None), ("B", "K2", Some("In"))]));
    p.unions.push(un("Uj", "In.hd.k", &[("A", "K0", Some("Hd")), ("B", "K1", None)]));
    p.messages.push(ms("Mi", vec![mf("h", item("Hd")), mf("u", uni("h", "Ul"))]));
    p.messages.push(ms("M", vec![mf("i", item("In")), mf("u", uni("i", "Un")), mf("v", uni("i", "Uj")), mf("l", list(9, "Mi"))]));
    vec![q, p]
}

/// Messages made of every sequence of field kinds: which of them may be followed by what.
fn tails(tier: Tier, case: &mut dyn FnMut(&mut dyn FnMut() -> (String, Vec<Proto>))) {
    let mut q = proto("q");
    q.enums.push(en("Ek", &[("K0", 1), ("K1", 2), ("K2", 3)]));
    q.structs.push(st("St", vec![sf("v", STy::Unsigned(16))]));
    q.structs.push(st("Hd", vec![sfv("k", STy::Unsigned(5), View::Enum("Ek".into())), sf("w", STy::Unsigned(3))]));
    q.messages.push(ms("Fx", vec![mf("a", item("St"))]));
    q.messages.push(ms("Dy", vec![mf("s", MTy::Str(None))]));
    q.messages.push(ms("Dv", vec![mf("s", MTy::Str(Some(9)))]));
    q.messages.push(ms("Li", vec![mf("l", list(9, "St"))]));
    q.messages.push(ms("Ll", vec![mf("l", list(9, "Dv"))]));
    q.messages.push(ms("Op", vec![mf("p", MTy::Payload)]));
    q.messages.push(ms("Oi", vec![mf("a", item("St")), mf("p", item("Op"))]));
    let types = ["Fx", "Dy", "Dv", "Li", "Ll", "Op", "Oi"];
    let mut p = proto("p");
    for t in ["St", "Hd"].iter().chain(&types) { p.imports.push(("q".into(), t.to_string())); }
    let mut kinds: Vec<(String, MField)> = vec![("struct".into(), mf("x", item("St"))), ("ostruct".into(), mo("x", item("St"))), ("payload".into(), mf("x", MTy::Payload)), ("opayload".into(), mo("x", MTy::Payload)),
        ("str".into(), mf("x", MTy::Str(None))), ("ostr".into(), mo("x", MTy::Str(None))), ("vstr".into(), mf("x", MTy::Str(Some(300)))), ("array".into(), mf("x", list(9, "St"))), ("oarray".into(), mo("x", list(9, "St")))];
    for t in types {
        kinds.push((t.into(), mf("x", item(t))));
        kinds.push((format!("o{}", t), mo("x", item(t))));
        kinds.push((format!("l{}", t), mf("x", list(9, t))));
        kinds.push((format!("ol{}", t), mo("x", list(9, t))));
    }
    // unions of every pair of cases, and of some triples
    let cs: Vec<Option<&str>> = [None, Some("St")].into_iter().chain(types.iter().map(|t| Some(*t))).collect();
    for (i, a) in cs.iter().enumerate() {
        for (j, b) in cs.iter().enumerate() {
            let n = format!("U{}{}", i, j);
            p.unions.push(un(n.clone(), "Hd.k", &[("A", "K0", *a), ("B", "K1", *b)]));
            kinds.push((format!("union({:?},{:?})", a, b), mf("x", uni("h", &n))));
        }
    }
    for (i, t) in [[None, Some("St"), Some("Op")], [Some("Dy"), Some("Fx"), Some("Li")], [Some("Fx"), Some("Op"), Some("Fx")], [Some("St"), Some("Fx"), Some("Dv")]].iter().enumerate() {
        let n = format!("T{}", i);
        p.unions.push(un(n.clone(), "Hd.w", &[("A", "0", t[0]), ("B", "1", t[1]), ("C", "2", t[2])]));
        kinds.push((format!("union{:?}", t), mf("x", uni("h", &n))));
    }
    let k = kinds.len();
    let one = |seq: &[usize]| {
        let mut p = p.clone();
        // only what is used, so that nothing else decides
        let mut fields = vec![mf("h", item("Hd"))];
        let mut label = String::from("tails:");
        for (n, i) in seq.iter().enumerate() {
            let mut f = kinds[*i].1.clone();
            f.name = format!("x{}", n);
            label += &format!(" {}", kinds[*i].0);
            fields.push(f);
        }
        p.unions.retain(|u| fields.iter().any(|f| matches!(&f.ty, MTy::Union { item, .. } if *item == u.name)));
        p.messages.push(MsgD { name: "M".into(), fields });
        (label, vec![q.clone(), p])
    };
    for a in 0..k { case(&mut || one(&[a])); }
    for a in 0..k { for b in 0..k { case(&mut || one(&[a, b])); } }
    // longer sequences of one kind of each class
    let at = |n: &str| kinds.iter().position(|x| x.0 == n).unwrap();
    let few: Vec<usize> = ["struct", "payload", "str", "array", "lDv", "Dy", "Op", "opayload", "Fx", "oarray", "lFx", "Ll", "union(None,Some(\"St\"))", "union(Some(\"St\"),Some(\"Dy\"))", "union(Some(\"Fx\"),Some(\"Op\"))", "oDv"].iter().map(|n| at(n)).collect();
    if tier == Tier::Quick { for a in &few { for b in &few { for c in &few { case(&mut || one(&[*a, *b, *c])); } } } }
    let d = if tier == Tier::Quick { 6 } else { few.len() };
    for a in &few[..d] { for b in &few[..d] { for c in &few[..d] { for e in &few[..d] { case(&mut || one(&[*a, *b, *c, *e])); } } } }
    if tier == Tier::Quick { return; }
    for a in 0..k { for b in 0..k { for c in 0..k { case(&mut || one(&[a, b, c])); } } }
}

pub fn bases() -> Vec<(&'static str, Vec<Proto>)> {
    vec![("structs", base_structs()), ("messages", base_messages()), ("imports", base_imports()), ("small", base_small()), ("homonyms", base_homonyms())]
}

/// The schemas of property C19, enumerated: `want` selects numbers, `f` gets those cases (without
/// repetitions among them). The number of all candidates.
pub fn each(tier: Tier, want: &dyn Fn(usize) -> bool, f: &mut dyn FnMut(Case)) -> usize {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut id = 0;
    let mut case = |make: &mut dyn FnMut() -> (String, Vec<Proto>)| {
        id += 1;
        if !want(id - 1) { return; }
        let (label, units) = make();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for u in &units { u.json().hash(&mut h); }
        if !seen.insert(h.finish()) { return; }
        let expect = if ordinary(&units) { Expect::Model } else { Expect::Any };
        f(Case { id: id - 1, label, units, expect });
    };
    for (bn, base) in bases() {
        case(&mut || (format!("base {}", bn), base.clone()));
        for k in 0..base.len() {
            let ms = mutations(&base, k);
            for m in &ms {
                case(&mut || { let mut u = base.clone(); (m.apply)(&mut u); (format!("{}/{}: {}", bn, k, m.label), u) });
            }
            // pairs: two sites (the second edit acts on the result of the first)
            let small = bn == "small";
            if !small && tier == Tier::Quick { continue; }
            for (x, a) in ms.iter().enumerate() {
                for b in ms.iter().skip(x + 1) {
                    if a.site == b.site { continue; }
                    let near = a.site.split('.').next() == b.site.split('.').next();
                    if !small && !near { continue; }
                    case(&mut || { let mut u = base.clone(); (a.apply)(&mut u); (b.apply)(&mut u); (format!("{}/{}: {}; {}", bn, k, a.label, b.label), u) });
                }
            }
        }
    }
    tails(tier, &mut case);
    id
}

pub fn predicted(c: &Case) -> Result<(), String> {
    let mut r: Vec<RProto> = Vec::new();
    for u in &c.units { let p = RProto::resolve(u, &r)?; r.push(p); }
    Ok(())
}
