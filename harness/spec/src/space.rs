//! The schema spaces, enumerated deterministically.

use crate::ast::*;
use crate::rename::{rename, SCHEMES};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Expect { Accept, Reject, Model, Any }

#[derive(Clone, Debug)]
pub struct Case {
    pub id: usize,
    pub label: String,
    /// Compiled one after the other; unit k imports every earlier unit.
    pub units: Vec<Proto>,
    pub expect: Expect,
}

struct B { out: Vec<Case>, tier: Tier }

impl B {
    fn add(&mut self, label: impl Into<String>, units: Vec<Proto>, expect: Expect) {
        let id = self.out.len();
        self.out.push(Case { id, label: label.into(), units, expect });
    }
    fn one(&mut self, label: impl Into<String>, end: Option<End>, f: impl FnOnce(&mut Proto)) {
        let mut p = proto("p");
        p.endian = end;
        f(&mut p);
        self.add(label, vec![p], Expect::Model);
    }
    fn quick(&self) -> bool { self.tier == Tier::Quick }
}

const LE: Option<End> = Some(End::Little);
const BE: Option<End> = Some(End::Big);

fn en_name(e: Option<End>) -> &'static str { match e { None => "def", Some(End::Little) => "le", Some(End::Big) => "be" } }

fn ty(kind: usize, w: u64) -> STy {
    match kind % 3 { 0 => STy::Unsigned(w), 1 => STy::Signed(w), _ => STy::Bool(w) }
}

/// Eulerian circuit over bit offsets: every (offset, width) pair exactly once.
fn chain() -> Vec<(u64, u64)> {
    let mut next: Vec<Vec<u64>> = (0..8).map(|o: u64| (1..=64).map(|w| if o % 2 == 0 { 65 - w } else { w }).collect()).collect();
    let (mut stack, mut path): (Vec<(u64, u64)>, Vec<(u64, u64)>) = (vec![(0, 0)], vec![]);
    // entries are (node reached, width used to reach it)
    while let Some(&(o, w)) = stack.last() {
        match next[o as usize].pop() {
            Some(w1) => stack.push(((o + w1) % 8, w1)),
            None => { path.push((o, w)); stack.pop(); }
        }
    }
    path.reverse();
    path.windows(2).map(|p| (p[0].0, p[1].1)).collect()
}

fn bits(b: &mut B, ends: &[Option<End>], kinds: &[usize]) {
    let ch = chain();
    assert_eq!(ch.len(), 512);
    for e in ends {
        for k0 in kinds {
            let mut i = 0;
            while i < ch.len() {
                let mut fields = Vec::new();
                if ch[i].0 > 0 { fields.push(sf("pad", STy::Unsigned(ch[i].0))); }
                let mut n = 0;
                let mut total = 0;
                while i < ch.len() && n < 9 && total < 280 {
                    fields.push(sf(format!("f{}", n), ty(k0 + i, ch[i].1)));
                    total += ch[i].1;
                    n += 1;
                    i += 1;
                }
                b.one(format!("bits-{}-k{}-{}", en_name(*e), k0, i), *e, |p| p.structs.push(st("S", fields)));
            }
        }
    }
}

/// Every structure of 1..=3 fields over a width alphabet.
fn small(b: &mut B, ends: &[Option<End>], widths: &[u64], n: usize, kinds: usize) {
    for e in ends {
        let mut structs = Vec::new();
        let total = widths.len().pow(n as u32);
        for c in 0..total {
            let mut fields = Vec::new();
            let mut x = c;
            for k in 0..n { fields.push(sf(format!("f{}", k), ty(kinds + c + k, widths[x % widths.len()]))); x /= widths.len(); }
            structs.push(st(format!("S{}", c), fields));
        }
        for ch in structs.chunks(12) {
            b.one(format!("small{}-{}-{}", n, en_name(*e), ch[0].name), *e, |p| p.structs = ch.to_vec());
        }
    }
}

fn far(b: &mut B) {
    for e in [LE, BE] {
        b.one(format!("far-{}", en_name(e)), e, |p| {
            p.structs.push(st("S", vec![sfa("gap", STy::Unsigned(8), 300), sf("a", STy::Unsigned(12)), sf("b", STy::Signed(20)), sfa("c", STy::Unsigned(32), 3), sf("d", STy::Unsigned(13)), sf("e", STy::Bool(1))]));
        });
    }
}

fn arrays(b: &mut B) {
    let tys: Vec<STy> = vec![STy::Unsigned(8), STy::Signed(8), STy::Unsigned(16), STy::Signed(16), STy::Unsigned(24), STy::Signed(24),
        STy::Unsigned(32), STy::Signed(32), STy::Unsigned(40), STy::Signed(40), STy::Unsigned(48), STy::Signed(48), STy::Unsigned(56), STy::Signed(56),
        STy::Unsigned(64), STy::Signed(64), STy::Float(32), STy::Float(64), STy::Bool(8)];
    let lens: &[(u64, u64)] = if b.quick() { &[(2, 3)] } else { &[(2, 3), (4, 9), (7, 16)] };
    for e in [LE, BE] {
        for (i, t) in tys.iter().enumerate() {
            for (n, m) in lens {
                b.one(format!("arr-{}-{}-{}", en_name(e), i, n), e, |p| {
                    p.structs.push(st("S", vec![sf("pre", STy::Unsigned(8)), sfa("x", t.clone(), *n), sf("m0", STy::Unsigned(3)), sf("m1", STy::Unsigned(13)),
                        sfa("y", t.clone(), *m), sf("post", STy::Signed(5))]));
                    p.structs.push(st("Alone", vec![sfa("x", t.clone(), *n)]));
                });
            }
        }
        b.one(format!("arr-{}-adjacent", en_name(e)), e, |p| {
            p.structs.push(st("S", vec![sfa("x", STy::Unsigned(8), 3), sfa("y", STy::Signed(24), 2), sfa("z", STy::Unsigned(16), 2), sfa("w", STy::Bool(8), 2)]));
        });
        b.one(format!("arr-{}-long", en_name(e)), e, |p| {
            p.structs.push(st("S", vec![sf("pre", STy::Unsigned(16)), sfa("x", STy::Unsigned(8), 260), sfa("y", STy::Unsigned(16), 300), sf("post", STy::Unsigned(7))]));
        });
        b.one(format!("arr-{}-one", en_name(e)), e, |p| {
            p.structs.push(st("S", vec![sfa("x", STy::Unsigned(12), 1), sf("y", STy::Unsigned(4))]));
        });
    }
}

fn nested(b: &mut B) {
    let inner = |e: Option<End>| vec![
        st("A", vec![sf("a", STy::Unsigned(8))]),
        st("B", vec![sf("a", STy::Unsigned(5)), sf("b", STy::Signed(11))]),
        st("C", vec![sf("a", STy::Unsigned(3)), sf("b", STy::Signed(9))]),
        st("D", vec![sf("a", STy::Float(32)), sfa("b", STy::Unsigned(16), 2), sf("c", STy::Bool(1)), sfv("d", STy::Unsigned(7), View::Enum("E".into()))]),
        st("F", vec![sf("a", STy::Unsigned(33)), sf("b", STy::Bool(7)), sf("c", STy::Signed(24))]),
        st("G", vec![sf("z", if e == BE { STy::Unsigned(64) } else { STy::Signed(64) })]),
    ];
    let names = ["A", "B", "C", "D", "F", "G"];
    for e in [LE, BE] {
        let enums = vec![en("E", &[("X", 1), ("Y", 4), ("Z", 100)])];
        // depth 1: every inner structure at every position with neighbours
        for n in names {
            b.one(format!("nest1-{}-{}", en_name(e), n), e, |p| {
                p.enums = enums.clone();
                p.structs = inner(e);
                p.structs.push(st("P0", vec![sf("n", STy::Struct(n.into()))]));
                p.structs.push(st("P1", vec![sf("l", STy::Unsigned(8)), sf("n", STy::Struct(n.into())), sf("r", STy::Unsigned(9))]));
                p.structs.push(st("P2", vec![sf("l0", STy::Unsigned(3)), sf("l1", STy::Signed(13)), sf("n", STy::Struct(n.into()))]));
                if n != "C" { p.structs.push(st("P3", vec![sf("n", STy::Struct(n.into())), sf("m", STy::Struct(n.into())), sf("r", STy::Bool(1))])); }
            });
        }
        // depth 2 and 3
        for n in names {
            if b.quick() && n == "A" { continue; }
            b.one(format!("nest3-{}-{}", en_name(e), n), e, |p| {
                p.enums = enums.clone();
                p.structs = inner(e);
                p.structs.push(st("Q1", vec![sf("l", STy::Unsigned(16)), sf("n", STy::Struct(n.into()))]));
                p.structs.push(st("Q2", vec![sf("l", STy::Unsigned(8)), sf("q", STy::Struct("Q1".into())), sf("t", STy::Unsigned(4))]));
                p.structs.push(st("Q3", vec![sf("b", STy::Struct("B".into())), sf("q", STy::Struct("Q2".into())), sf("t", STy::Unsigned(3))]));
            });
        }
        // pairs of nested structures
        for n in names {
            for m in names {
                if n == "C" || (b.quick() && (n == m || n == "A")) { continue; }
                b.one(format!("nest2-{}-{}{}", en_name(e), n, m), e, |p| {
                    p.enums = enums.clone();
                    p.structs = inner(e);
                    p.structs.push(st("P", vec![sf("n", STy::Struct(n.into())), sf("x", STy::Unsigned(8)), sf("m", STy::Struct(m.into())), sf("r", STy::Unsigned(2))]));
                });
            }
        }
    }
}

fn enums(b: &mut B) {
    let sets: Vec<Vec<u64>> = vec![vec![0], vec![1], vec![0, 1], vec![1, 0], vec![2, 5], vec![0, 3], vec![5, 2, 7], vec![0, 1, 2, 3], vec![255, 0, 128],
        vec![127, 128, 129], vec![254], vec![1, 2, 4, 8, 16, 32, 64, 128], vec![256, 1], vec![0, 65535], vec![65536, 3], vec![0xFFFF_FFFF, 7], vec![0x1_0000_0000, 0],
        vec![1 << 53, 1], vec![4, 6, 7], vec![3, 2, 1]];
    let widths: Vec<u64> = if b.quick() { vec![1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 48, 63, 64] } else { (1..=64).collect() };
    for e in [LE, BE] {
        for (si, s) in sets.iter().enumerate() {
            let max = *s.iter().max().unwrap();
            let names = ["Gamma", "Alpha", "Delta", "Beta", "Zeta", "Eta", "Theta", "Iota"];
            let e_decl = EnumD { name: "E".into(), variants: s.iter().enumerate().map(|(i, v)| (names[i].to_string(), *v)).collect() };
            let fits = |w: u64| max <= crate::model::ones(w);
            let ok: Vec<u64> = widths.iter().copied().filter(|w| fits(*w)).collect();
            for ch in ok.chunks(5) {
                let mut fields = Vec::new();
                for (i, w) in ch.iter().enumerate() {
                    fields.push(sfv(format!("e{}", i), STy::Unsigned(*w), View::Enum("E".into())));
                    fields.push(sf(format!("g{}", i), STy::Unsigned(1 + (i as u64 * 3 + si as u64) % 7)));
                }
                let ed = e_decl.clone();
                b.one(format!("enum-{}-{}-w{}", en_name(e), si, ch[0]), e, |p| { p.enums.push(ed); p.structs.push(st("S", fields)); });
            }
            for w in widths.iter().copied().filter(|w| !fits(*w)) {
                if e == BE && b.quick() { continue; }
                let mut p = proto("p");
                p.endian = e;
                p.enums.push(e_decl.clone());
                p.structs.push(st("S", vec![sf("a", STy::Unsigned(3)), sfv("e", STy::Unsigned(w), View::Enum("E".into()))]));
                b.add(format!("enum-toolarge-{}-{}-w{}", en_name(e), si, w), vec![p], Expect::Reject);
            }
        }
    }
}

fn floats(b: &mut B) {
    let ranges: &[(f64, f64)] = &[(0.0, 1.0), (-1.0, 1.0), (-5.0, -2.0), (10.0, 20.0), (-100.0, 0.0), (0.0, 255.0), (-0.125, 4096.0), (0.1, 0.3),
        (-180.0, 180.0), (0.0, 0.001), (-1e6, 1e6), (7.0, 7.5)];
    let mut mults = vec![1.0, 0.5, 0.01, 100.0, 0.1, 3.0, 0.3, 0.75, 1.5, 2.54, 1e-3, 1e6, 1.0 / 3.0, 0.7, -0.5, -3.0];
    if !b.quick() { for k in 2..10 { for s in [0.01, 0.1, 1.0, 10.0, 0.0625] { mults.push(k as f64 * s); mults.push(-(k as f64) * s); } } }
    let widths: Vec<u64> = if b.quick() { vec![1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 20, 24, 28, 31, 32, 33, 40, 48, 53, 63, 64] } else { (1..=64).collect() };
    for (n, e) in [LE, BE].into_iter().enumerate() {
        for (wi, w) in widths.iter().enumerate() {
            if b.quick() && wi % 2 != n { continue; }
            let mut fields = Vec::new();
            for (i, (lo, hi)) in ranges.iter().enumerate() {
                if i % 3 == 1 { fields.push(sf(format!("g{}", i), STy::Unsigned(1 + (i as u64 + w) % 7))); }
                fields.push(sfv(format!("r{}", i), STy::Float(*w), View::Range(*lo, *hi)));
            }
            let mut mf = Vec::new();
            for (i, m) in mults.iter().enumerate() { mf.push(sfv(format!("m{}", i), STy::Float(*w), View::Mult(*m))); }
            b.one(format!("float-{}-w{}", en_name(e), w), e, |p| { p.structs.push(st("R", fields)); p.structs.push(st("M", mf)); });
        }
        b.one(format!("float-{}-plain", en_name(e)), e, |p| {
            p.structs.push(st("S", vec![sf("a", STy::Float(32)), sf("x", STy::Unsigned(3)), sf("b", STy::Float(32)), sf("c", STy::Float(64)), sf("y", STy::Unsigned(5)), sf("d", STy::Float(64))]));
        });
    }
}

// ---- messages -----------------------------------------------------------------------------

/// Declarations shared by all message protocols.
pub fn commons(p: &mut Proto) {
    p.enums.push(en("Ek", &[("K0", 1), ("K1", 2), ("K2", 5), ("K3", 9)]));
    p.structs.push(st("P1", vec![sf("v", STy::Unsigned(8))]));
    p.structs.push(st("P2", vec![sf("v", STy::Unsigned(16))]));
    p.structs.push(st("Pi4", vec![sf("v", STy::Signed(32))]));
    p.structs.push(st("Pu8", vec![sf("v", STy::Unsigned(64))]));
    p.structs.push(st("Pf4", vec![sf("v", STy::Float(32))]));
    p.structs.push(st("Pf8", vec![sf("v", STy::Float(64))]));
    p.structs.push(st("Pb", vec![sf("v", STy::Bool(8))]));
    p.structs.push(st("Odd", vec![sf("v", STy::Unsigned(24))]));
    p.structs.push(st("St", vec![sf("x", STy::Unsigned(5)), sf("y", STy::Signed(11)), sf("z", STy::Unsigned(8))]));
    p.structs.push(st("Hd", vec![sf("pad", STy::Unsigned(3)), sfv("k", STy::Unsigned(5), View::Enum("Ek".into())), sf("w", STy::Unsigned(8))]));
    p.messages.push(ms("Ms", vec![mf("a", item("P2"))]));
    p.messages.push(ms("Md", vec![mf("s", MTy::Str(Some(10)))]));
    p.messages.push(ms("Mo", vec![mo("o", item("P2")), mf("s", MTy::Str(None))]));
    p.messages.push(ms("Ml", vec![mf("n", item("P1")), mf("l", list(200, "Ms"))]));
    p.messages.push(ms("Mp", vec![mf("a", item("P1")), mf("p", MTy::Payload)]));
}

/// Unions reference messages, which are resolved after unions: only structures are possible as
/// cases within one protocol, messages come from an imported one.
pub fn common_unions(p: &mut Proto) {
    p.unions.push(un("Us", "Hd.k", &[("A", "K0", Some("St")), ("B", "K1", Some("P2")), ("C", "K2", None)]));
    p.unions.push(un("Un", "Hd.k", &[("A", "K0", None), ("B", "K1", None)]));
}

pub struct MK { pub name: &'static str, pub f: fn(usize) -> Vec<MField> }

fn n(i: usize, s: &str) -> String { format!("{}{}", s, i) }

pub const MKINDS: &[MK] = &[
    MK { name: "u8", f: |i| vec![mf(n(i, "a"), item("P1"))] },
    MK { name: "u16", f: |i| vec![mf(n(i, "a"), item("P2"))] },
    MK { name: "i32", f: |i| vec![mf(n(i, "a"), item("Pi4"))] },
    MK { name: "u64", f: |i| vec![mf(n(i, "a"), item("Pu8"))] },
    MK { name: "f32", f: |i| vec![mf(n(i, "a"), item("Pf4"))] },
    MK { name: "f64", f: |i| vec![mf(n(i, "a"), item("Pf8"))] },
    MK { name: "bool", f: |i| vec![mf(n(i, "a"), item("Pb"))] },
    MK { name: "odd", f: |i| vec![mf(n(i, "a"), item("Odd"))] },
    MK { name: "struct", f: |i| vec![mf(n(i, "a"), item("St"))] },
    MK { name: "opt-u16", f: |i| vec![mo(n(i, "a"), item("P2"))] },
    MK { name: "opt-bool", f: |i| vec![mo(n(i, "a"), item("Pb"))] },
    MK { name: "opt-struct", f: |i| vec![mo(n(i, "a"), item("St"))] },
    MK { name: "strz", f: |i| vec![mf(n(i, "a"), MTy::Str(None))] },
    MK { name: "str1", f: |i| vec![mf(n(i, "a"), MTy::Str(Some(10)))] },
    MK { name: "str2", f: |i| vec![mf(n(i, "a"), MTy::Str(Some(300)))] },
    MK { name: "str4", f: |i| vec![mf(n(i, "a"), MTy::Str(Some(70000)))] },
    MK { name: "str8", f: |i| vec![mf(n(i, "a"), MTy::Str(Some(1 << 32)))] },
    MK { name: "opt-strz", f: |i| vec![mo(n(i, "a"), MTy::Str(None))] },
    MK { name: "opt-str1", f: |i| vec![mo(n(i, "a"), MTy::Str(Some(10)))] },
    MK { name: "arr1", f: |i| vec![mf(n(i, "a"), list(200, "St"))] },
    MK { name: "arr2", f: |i| vec![mf(n(i, "a"), list(300, "P2"))] },
    MK { name: "opt-arr", f: |i| vec![mo(n(i, "a"), list(200, "St"))] },
    MK { name: "msg", f: |i| vec![mf(n(i, "a"), item("Ms"))] },
    MK { name: "opt-msg", f: |i| vec![mo(n(i, "a"), item("Ms"))] },
    MK { name: "dmsg", f: |i| vec![mf(n(i, "a"), item("Md"))] },
    MK { name: "opt-dmsg", f: |i| vec![mo(n(i, "a"), item("Md"))] },
    MK { name: "omsg", f: |i| vec![mf(n(i, "a"), item("Mo"))] },
    MK { name: "list1", f: |i| vec![mf(n(i, "a"), list(200, "Ms"))] },
    MK { name: "list2", f: |i| vec![mf(n(i, "a"), list(300, "Md"))] },
    MK { name: "list4", f: |i| vec![mf(n(i, "a"), list(70000, "Mo"))] },
    MK { name: "opt-list", f: |i| vec![mo(n(i, "a"), list(200, "Md"))] },
    MK { name: "lmsg", f: |i| vec![mf(n(i, "a"), item("Ml"))] },
    MK { name: "opt-lmsg", f: |i| vec![mo(n(i, "a"), item("Ml"))] },
    MK { name: "union", f: |i| vec![mf(n(i, "h"), item("Hd")), mf(n(i, "a"), uni(&n(i, "h"), "Us"))] },
    MK { name: "nunion", f: |i| vec![mf(n(i, "h"), item("Hd")), mf(n(i, "a"), uni(&n(i, "h"), "Un"))] },
    MK { name: "payload", f: |i| vec![mf(n(i, "a"), MTy::Payload)] },
    MK { name: "opt-payload", f: |i| vec![mo(n(i, "a"), MTy::Payload)] },
    MK { name: "pmsg", f: |i| vec![mf(n(i, "a"), item("Mp"))] },
];

const QUICK_KINDS: &[&str] = &["u16", "bool", "struct", "opt-u16", "opt-struct", "strz", "str1", "str2", "opt-str1", "arr1", "opt-arr", "msg", "opt-msg", "dmsg",
    "list1", "opt-list", "lmsg", "union", "payload", "opt-payload"];
const TRIPLE_KINDS: &[&str] = &["u16", "opt-struct", "strz", "str2", "arr1", "opt-msg", "dmsg", "list1", "union", "payload"];

/// Messages with union fields whose cases are messages (imported from a first unit).
fn umsgs(b: &mut B) {
    for (k, e) in [LE, BE].into_iter().enumerate() {
        let mut a = proto("a");
        a.endian = e;
        commons(&mut a);
        let mut p = proto("p");
        p.endian = if k == 0 { BE } else { LE };
        for t in ["St", "P2", "Hd", "Ms", "Md", "Mo", "Mp"] { p.imports.push(("a".into(), t.into())); }
        p.unions.push(un("Um", "Hd.k", &[("A", "K0", Some("Ms")), ("B", "K1", Some("St")), ("C", "K2", None), ("D", "K3", Some("Mo"))]));
        p.unions.push(un("Ud", "Hd.w", &[("X", "0", Some("Md")), ("Y", "255", Some("P2"))]));
        p.unions.push(un("Up", "Hd.w", &[("X", "1", Some("Mp")), ("Y", "2", None)]));
        p.messages.push(ms("W1", vec![mf("h", item("Hd")), mf("u", uni("h", "Um")), mf("t", item("P2"))]));
        p.messages.push(ms("W2", vec![mf("h", item("Hd")), mf("u", uni("h", "Ud")), mf("t", MTy::Str(None))]));
        p.messages.push(ms("W3", vec![mf("h", item("Hd")), mf("x", MTy::Str(Some(5))), mf("u", uni("h", "Up"))]));
        p.messages.push(ms("W4", vec![mf("h", item("Hd")), mf("u", uni("h", "Um")), mf("v", uni("h", "Um"))]));
        p.messages.push(ms("W5", vec![mf("l", list(9, "W1")), mf("t", item("P2"))]));
        p.messages.push(ms("W6", vec![mo("o", item("W1")), mf("r", item("W2"))]));
        b.add(format!("umsg-{}", en_name(e)), vec![a, p], Expect::Model);
    }
}

fn messages(b: &mut B, triples: bool) {
    let all: Vec<usize> = (0..MKINDS.len()).collect();
    let by = |names: &[&str]| -> Vec<usize> { names.iter().map(|x| MKINDS.iter().position(|k| k.name == *x).unwrap()).collect() };
    let mut sets: Vec<(Vec<usize>, Option<End>)> = Vec::new();
    for e in [LE, BE] { for k in &all { sets.push((vec![*k], e)); } }
    let pk = if b.quick() { by(QUICK_KINDS) } else { all.clone() };
    for (x, i) in pk.iter().enumerate() {
        for (y, j) in pk.iter().enumerate() {
            if b.quick() { sets.push((vec![*i, *j], if (x + y) % 2 == 0 { LE } else { BE })); }
            else { for e in [LE, BE] { sets.push((vec![*i, *j], e)); } }
        }
    }
    if triples {
        let tk = by(TRIPLE_KINDS);
        for (x, i) in tk.iter().enumerate() { for (y, j) in tk.iter().enumerate() { for (z, k) in tk.iter().enumerate() {
            sets.push((vec![*i, *j, *k], if (x + y + z) % 2 == 0 { LE } else { BE }));
        } } }
    }
    for e in [LE, BE] {
        let mut decls = Vec::new();
        for (ks, _) in sets.iter().filter(|s| s.1 == e) {
            let fields: Vec<MField> = ks.iter().enumerate().flat_map(|(i, k)| (MKINDS[*k].f)(i)).collect();
            decls.push(ms(format!("T{}", ks.iter().map(|k| k.to_string()).collect::<Vec<_>>().join("x")), fields));
        }
        // keep only what the schema rules allow and what can be read back
        let mut ok = Vec::new();
        for d in decls {
            let mut p = proto("p");
            commons(&mut p);
            common_unions(&mut p);
            p.messages.push(d.clone());
            if let Ok(r) = crate::model::RProto::resolve(&p, &[]) {
                if r.messages.last().unwrap().decodable() { ok.push(d); }
            }
        }
        for (n, ch) in ok.chunks(24).enumerate() {
            b.one(format!("msg-{}-{}", en_name(e), n), e, |p| {
                commons(p);
                common_unions(p);
                p.messages.extend(ch.to_vec());
            });
        }
    }
    umsgs(b);
}

/// Known finding: a payload followed by a fixed-size field is accepted but can never be read.
fn kf_payload(b: &mut B) {
    let mut a = proto("a");
    commons(&mut a);
    a.messages.push(ms("PayloadThenScalar", vec![mf("p", MTy::Payload), mf("t", item("P1"))]));
    a.messages.push(ms("PayloadMessageThenScalar", vec![mf("p", item("Mp")), mf("t", item("P1"))]));
    a.messages.push(ms("ListOfPayloadMessages", vec![mf("l", list(9, "Mp"))]));
    b.add("kf-payload", vec![a], Expect::Model);
}

// ---- embedding ----------------------------------------------------------------------------

fn embeds(b: &mut B) {
    let depth = if b.quick() { 2 } else { 3 };
    for e in [LE, BE] {
        let xs: Vec<(&str, Vec<MField>)> = vec![
            ("X0", vec![mf("a", item("P2"))]),
            ("X1", vec![mf("s", MTy::Str(Some(10)))]),
            ("X2", vec![mo("o", item("St")), mf("s", MTy::Str(None))]),
            ("X3", vec![mf("n", item("P1")), mf("l", list(200, "Ms"))]),
            ("X4", vec![mf("l", list(200, "Md")), mf("n", item("P1"))]),
            ("X5", vec![mf("h", item("Hd")), mf("u", uni("h", "Us"))]),
            ("X6", vec![mf("v", list(300, "St"))]),
            ("X7", vec![mo("l", list(200, "Mo"))]),
            ("X8", vec![mf("m", item("Ml"))]),
            ("X9", vec![mo("o", MTy::Str(None)), mo("q", list(7, "P2"))]),
        ];
        for (xn, xf) in &xs {
            if b.quick() && e == BE && (*xn == "X0" || *xn == "X2" || *xn == "X9") { continue; }
            // one protocol per root context, the contexts nest to the given depth
            let mut p = proto("p");
            p.endian = e;
            commons(&mut p);
            common_unions(&mut p);
            p.messages.push(ms(*xn, xf.clone()));
            let mut level = vec![xn.to_string()];
            for d in 0..depth {
                let mut next = Vec::new();
                for base in &level {
                    for (c, ctx) in ["R", "O", "L"].iter().enumerate() {
                        if b.quick() && d == 1 && (c + base.len()) % 2 == 1 && *xn != "X3" && *xn != "X7" { continue; }
                        let name = format!("{}{}", ctx, base);
                        let f = match c { 0 => mf("x", item(base)), 1 => mo("x", item(base)), _ => mf("x", list(200, base)) };
                        p.messages.push(ms(name.clone(), vec![mf("h", item("P1")), f, mf("t", item("P2"))]));
                        next.push(name);
                    }
                }
                level = next;
            }
            b.add(format!("embed-{}-{}", en_name(e), xn), vec![p], Expect::Model);
        }
        // two separate embeddings of the same message, and self-delimiting content followed by open tails
        b.one(format!("embed-{}-multi", en_name(e)), e, |p| {
            commons(p);
            common_unions(p);
            p.messages.push(ms("L1", vec![mf("l", list(200, "Ml"))]));
            p.messages.push(ms("Two", vec![mf("a", item("Mo")), mf("b", item("Mo")), mf("c", item("Md"))]));
            p.messages.push(ms("Tail", vec![mf("a", item("Mo")), mf("l", list(200, "L1"))]));
            p.messages.push(ms("Pay", vec![mf("a", item("Md")), mf("p", item("Mp"))]));
            p.messages.push(ms("PayO", vec![mf("a", item("Md")), mo("p", item("Mp"))]));
            p.messages.push(ms("Mix", vec![mo("o", item("Two")), mf("l", list(200, "Two")), mf("t", item("St"))]));
        });
        // union cases: messages come from another protocol, embedded there as well
        let mut a = proto("a");
        a.endian = e;
        commons(&mut a);
        a.messages.push(ms("X3", vec![mf("n", item("P1")), mf("l", list(200, "Ms"))]));
        a.messages.push(ms("X7", vec![mo("l", list(200, "Mo"))]));
        a.messages.push(ms("Use", vec![mf("x", item("X3")), mf("t", item("P1"))]));
        a.messages.push(ms("Use7", vec![mf("x", item("X7")), mf("t", item("P1"))]));
        let mut p = proto("p");
        p.endian = e;
        for t in ["St", "P1", "P2", "Hd", "Ms", "Md", "Mo", "Ml", "X3", "X7"] { p.imports.push(("a".into(), t.into())); }
        p.unions.push(un("U1", "Hd.w", &[("A", "0", Some("X3")), ("B", "1", Some("Md")), ("C", "2", None)]));
        p.unions.push(un("U2", "Hd.w", &[("A", "3", Some("X7")), ("B", "9", Some("St"))]));
        p.messages.push(ms("V1", vec![mf("h", item("Hd")), mf("u", uni("h", "U1")), mf("t", item("P2"))]));
        p.messages.push(ms("V2", vec![mf("h", item("Hd")), mf("u", uni("h", "U2")), mf("t", item("P2"))]));
        p.messages.push(ms("V3", vec![mf("l", list(200, "V1")), mf("t", item("P1"))]));
        p.messages.push(ms("V4", vec![mo("l", item("V2")), mf("t", item("P1"))]));
        b.add(format!("embed-{}-union", en_name(e)), vec![a, p], Expect::Model);
    }
}

// ---- unions -------------------------------------------------------------------------------

fn unions(b: &mut B) {
    let discs: Vec<(&str, STy, Option<View>, Vec<&str>)> = vec![
        ("u8", STy::Unsigned(8), None, vec!["0", "1", "200", "255"]),
        ("u3", STy::Unsigned(3), None, vec!["0", "7", "4", "2"]),
        ("u1", STy::Unsigned(1), None, vec!["1", "0"]),
        ("u12", STy::Unsigned(12), None, vec!["4095", "0", "256", "77"]),
        ("u16", STy::Unsigned(16), None, vec!["65535", "1", "256"]),
        ("u32", STy::Unsigned(32), None, vec!["4294967295", "0", "65536"]),
        ("u33", STy::Unsigned(33), None, vec!["8589934591", "4294967296", "1"]),
        ("u64", STy::Unsigned(64), None, vec!["18446744073709551615", "0", "9223372036854775808"]),
        ("s8", STy::Signed(8), None, vec!["-1", "-128", "127", "0"]),
        ("s5", STy::Signed(5), None, vec!["-16", "-1", "15", "3"]),
        ("s16", STy::Signed(16), None, vec!["-32768", "-1", "32767"]),
        ("s64", STy::Signed(64), None, vec!["-9223372036854775808", "-1", "1"]),
        ("b1", STy::Bool(1), None, vec!["0", "1"]),
        ("b8", STy::Bool(8), None, vec!["1", "0", "255"]),
        ("e8", STy::Unsigned(8), Some(View::Enum("E".into())), vec!["Aa", "Cc", "Bb"]),
        ("e4", STy::Unsigned(4), Some(View::Enum("E".into())), vec!["Bb", "Aa", "Cc"]),
        ("e16", STy::Unsigned(16), Some(View::Enum("E".into())), vec!["Cc", "Aa"]),
    ];
    for e in [LE, BE] {
        for (name, t, view, vals) in &discs {
            let lead = SField { name: "k".into(), ty: t.clone(), view: view.clone(), array_len: None };
            let mut a = proto("a");
            a.endian = e;
            a.enums.push(en("E", &[("Bb", 3), ("Aa", 9), ("Cc", 0)]));
            a.structs.push(st("P2", vec![sf("v", STy::Unsigned(16))]));
            a.structs.push(st("St", vec![sf("x", STy::Unsigned(5)), sf("y", STy::Signed(11))]));
            a.structs.push(st("H1", vec![lead.clone(), sf("t", STy::Unsigned(9))]));
            a.structs.push(st("H2", vec![sf("p", STy::Unsigned(5)), lead.clone(), sf("t", STy::Unsigned(3))]));
            a.structs.push(st("H3", vec![sf("p", STy::Unsigned(16)), sf("in", STy::Struct("H2".into())), sf("q", STy::Unsigned(5))]));
            a.structs.push(st("H4", vec![sf("o", STy::Struct("H3".into())), sf("q", STy::Unsigned(2))]));
            a.messages.push(ms("Ms", vec![mf("a", item("P2"))]));
            a.messages.push(ms("Md", vec![mf("s", MTy::Str(Some(10))), mo("o", item("P2"))]));
            let mut p = proto("p");
            p.endian = e;
            for t in ["P2", "St", "H1", "H2", "H3", "H4", "Ms", "Md"] { p.imports.push(("a".into(), t.into())); }
            for (hn, path) in [("H1", "H1.k"), ("H2", "H2.k"), ("H3", "H3.in.k"), ("H4", "H4.o.in.k")] {
                for (vn, items) in [("N", [None, None, None, None]), ("S", [Some("P2"), Some("St"), Some("P2"), Some("St")]),
                    ("M", [Some("Ms"), Some("Md"), Some("Ms"), Some("Md")]), ("X", [Some("St"), None, Some("Md"), None]), ("Y", [None, Some("Ms"), None, Some("P2")])] {
                    if b.quick() && (hn == "H3" || hn == "H4") && (vn == "S" || vn == "M") { continue; }
                    let cases = vals.iter().enumerate().map(|(i, v)| UCase { name: format!("C{}", i), case: v.to_string(), item: items[i].map(String::from) }).collect();
                    let uname = format!("U{}{}", vn, hn);
                    p.unions.push(UnionD { name: uname.clone(), disc: path.into(), cases });
                    p.messages.push(ms(format!("W{}{}", vn, hn), vec![mf("h", item(hn)), mf("u", uni("h", &uname)), mf("t", item("P2"))]));
                }
            }
            b.add(format!("union-{}-{}", en_name(e), name), vec![a, p], Expect::Model);
        }
    }
    // an instance of each kind of case value which must not be accepted
    let bad: &[(&str, STy, Option<View>, &str)] = &[
        ("range-u3", STy::Unsigned(3), None, "8"), ("range-u8", STy::Unsigned(8), None, "256"), ("neg-u8", STy::Unsigned(8), None, "-1"),
        ("range-s8", STy::Signed(8), None, "-129"), ("range-s5", STy::Signed(5), None, "-17"), ("range-s5p", STy::Signed(5), None, "32"),
        ("b1", STy::Bool(1), None, "2"), ("float", STy::Float(32), None, "1"), ("text", STy::Unsigned(8), None, "x"), ("empty", STy::Unsigned(8), None, ""),
        ("enum", STy::Unsigned(8), Some(View::Enum("E".into())), "Nope"), ("enumnum", STy::Unsigned(8), Some(View::Enum("E".into())), "3"),
    ];
    for (n, t, v, c) in bad {
        let mut p = proto("p");
        p.enums.push(en("E", &[("Bb", 3), ("Aa", 9)]));
        p.structs.push(st("H", vec![SField { name: "k".into(), ty: t.clone(), view: v.clone(), array_len: None }, sf("t", STy::Unsigned(8))]));
        p.unions.push(un("U", "H.k", &[("A", c, None)]));
        b.add(format!("union-bad-{}", n), vec![p], Expect::Reject);
    }
}

// ---- lists --------------------------------------------------------------------------------

fn lists(b: &mut B) {
    for e in [LE, BE] {
        for (k, max) in [200u64, 300, 70000, 1 << 33].into_iter().enumerate() {
            if b.quick() && k >= 2 && e == BE { continue; }
            b.one(format!("lists-{}-{}", en_name(e), max), e, |p| {
                commons(p);
                common_unions(p);
                p.messages.push(ms("Mu", vec![mf("h", item("Hd")), mf("u", uni("h", "Us"))]));
                p.messages.push(ms("Txt", vec![mf("s", item("St")), mo("o", item("Mo"))]));
                p.messages.push(ms("LA", vec![mf("a", list(max, "St"))]));
                p.messages.push(ms("LB", vec![mf("a", list(max, "P2")), mf("b", list(max, "Odd"))]));
                p.messages.push(ms("LC", vec![mf("a", list(max, "Ms"))]));
                p.messages.push(ms("LD", vec![mf("a", list(max, "Md"))]));
                p.messages.push(ms("LE", vec![mf("a", list(max, "Mo"))]));
                p.messages.push(ms("LF", vec![mf("a", list(max, "Mu"))]));
                p.messages.push(ms("LG", vec![mf("a", list(max, "Txt")), mf("t", item("P1"))]));
                p.messages.push(ms("LH", vec![mf("a", list(max, "Ml"))]));
            });
        }
    }
}

fn lengths(b: &mut B) {
    for e in [LE, BE] {
        b.one(format!("len-{}", en_name(e)), e, |p| {
            commons(p);
            p.messages.push(ms("Tiny", vec![]));
            for (i, m) in [0u64, 1, 10, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 0xFFFF_FFFE, 0xFFFF_FFFF, 1 << 32, (1 << 32) + 1].into_iter().enumerate() {
                p.messages.push(ms(format!("S{}", i), vec![mf("s", MTy::Str(Some(m))), mf("t", item("P1"))]));
                p.messages.push(ms(format!("A{}", i), vec![mf("s", list(m, "P1")), mf("t", item("P1"))]));
                p.messages.push(ms(format!("L{}", i), vec![mf("s", list(m, "Ms")), mf("t", item("P1"))]));
                p.messages.push(ms(format!("O{}", i), vec![mo("s", MTy::Str(Some(m))), mo("l", list(m, "Ms"))]));
            }
            p.messages.push(ms("Z", vec![mf("s", MTy::Str(None)), mf("t", item("P1"))]));
            p.messages.push(ms("Zo", vec![mo("s", MTy::Str(None)), mf("t", item("P1"))]));
            p.messages.push(ms("Zm", vec![mf("m", item("Mo")), mf("l", list(9, "Mo")), mf("t", item("P1"))]));
        });
    }
}

/// Long contents in every position where they can occur.
fn longs(b: &mut B) {
    for e in [LE, BE] {
        let mut a = proto("a");
        a.endian = e;
        commons(&mut a);
        let mut p = proto("p");
        p.endian = e;
        for t in ["P1", "P2", "Odd", "St", "Hd", "Ms", "Md", "Mo", "Mp"] { p.imports.push(("a".into(), t.into())); }
        a.messages.push(ms("Mt", vec![mf("n", item("P1")), mf("s", MTy::Str(Some(70000))), mo("v", list(70000, "P2"))]));
        p.imports.push(("a".into(), "Mt".into()));
        p.unions.push(un("Um", "Hd.k", &[("A", "K0", Some("Mt")), ("B", "K1", Some("Mo")), ("C", "K2", None), ("D", "K3", Some("St"))]));
        p.unions.push(un("Up", "Hd.w", &[("A", "1", Some("Mp")), ("B", "0", Some("P2"))]));
        for (i, m) in [10u64, 256, 300, 65536, 70000, 1 << 32].into_iter().enumerate() {
            p.messages.push(ms(format!("K{}", i), vec![mf("h", item("P2")), mf("s", MTy::Str(Some(m))), mo("a", list(m, "Odd")), mf("l", list(m, "Ms")), mf("t", item("P1"))]));
        }
        p.messages.push(ms("Z", vec![mf("s", MTy::Str(None)), mo("z", MTy::Str(None)), mf("t", item("P2"))]));
        p.messages.push(ms("Q", vec![mf("a", list(300, "P2")), mf("b", list(70000, "St")), mf("p", MTy::Payload)]));
        p.messages.push(ms("N", vec![mf("m", item("Mt")), mo("o", item("Mt")), mf("l", list(300, "Mt")), mf("t", item("P1"))]));
        p.messages.push(ms("U", vec![mf("h", item("Hd")), mf("u", uni("h", "Um")), mf("t", item("P2"))]));
        p.messages.push(ms("V", vec![mf("h", item("Hd")), mf("s", MTy::Str(Some(300))), mf("u", uni("h", "Up"))]));
        p.messages.push(ms("LU", vec![mf("m", item("U")), mf("l", list(200, "U"))]));
        b.add(format!("len-deep-{}", en_name(e)), vec![a, p], Expect::Accept);
    }
}

// ---- imports ------------------------------------------------------------------------------

fn imports(b: &mut B) {
    for (ea, eb) in [(LE, LE), (BE, BE), (LE, BE), (BE, LE), (None, BE)] {
        let mut a = proto("a");
        a.endian = ea;
        commons(&mut a);
        common_unions(&mut a);
        a.structs.push(st("Big", vec![sf("q", STy::Unsigned(16)), sfv("e", STy::Unsigned(8), View::Enum("Ek".into())), sfa("r", STy::Unsigned(32), 2), sf("n", STy::Struct("St".into()))]));
        let mut p = proto("p");
        p.endian = eb;
        for t in ["Ek", "P1", "P2", "Pi4", "Pb", "Odd", "St", "Hd", "Big", "Us", "Un", "Ms", "Md", "Mo", "Mp"] { p.imports.push(("a".into(), t.into())); }
        p.structs.push(st("In", vec![sf("x", STy::Unsigned(16)), sf("n", STy::Struct("Big".into())), sfv("e", STy::Unsigned(6), View::Enum("Ek".into())), sf("z", STy::Unsigned(2))]));
        p.unions.push(un("Vu", "Hd.k", &[("A", "K0", Some("Ms")), ("B", "K3", Some("In")), ("C", "K1", None)]));
        p.messages.push(ms("F0", vec![mf("a", item("P2")), mf("b", item("Pi4")), mf("c", item("Pb")), mf("d", item("Odd"))]));
        p.messages.push(ms("F1", vec![mf("a", item("Big")), mo("b", item("St")), mo("c", item("P2"))]));
        p.messages.push(ms("F2", vec![mf("a", list(300, "Big")), mf("b", list(300, "P2"))]));
        p.messages.push(ms("F3", vec![mf("h", item("Hd")), mf("u", uni("h", "Us")), mf("t", item("P2"))]));
        p.messages.push(ms("F4", vec![mf("h", item("Hd")), mf("u", uni("h", "Un")), mf("v", uni("h", "Vu"))]));
        p.messages.push(ms("F5", vec![mf("a", item("Ms")), mo("b", item("Md")), mf("c", item("Mo"))]));
        p.messages.push(ms("F6", vec![mf("s", MTy::Str(Some(300))), mf("l", list(300, "Mo")), mf("t", item("P2"))]));
        p.messages.push(ms("F7", vec![mf("s", item("In")), mf("p", item("Mp"))]));
        // a third protocol importing from both, including a type re-imported through p
        let mut c = proto("c");
        c.endian = ea;
        for t in ["In", "F1", "Vu", "St", "F5"] { c.imports.push(("p".into(), t.into())); }
        for t in ["Hd", "P1", "Ms"] { c.imports.push(("a".into(), t.into())); }
        c.structs.push(st("Deep", vec![sf("i", STy::Struct("In".into())), sf("s", STy::Struct("St".into())), sf("k", STy::Unsigned(8))]));
        c.messages.push(ms("G0", vec![mf("h", item("Hd")), mf("u", uni("h", "Vu")), mf("d", item("Deep"))]));
        c.messages.push(ms("G1", vec![mf("f", item("F1")), mf("l", list(5, "F5")), mf("t", item("P1"))]));
        c.messages.push(ms("G2", vec![mf("a", list(5, "St")), mf("b", list(5, "Deep")), mo("c", list(5, "Ms"))]));
        b.add(format!("import-{}-{}", en_name(ea), en_name(eb)), vec![a, p, c], Expect::Model);
    }
    // same type name in two protocols, each used from its own
    let mut a = proto("a");
    a.endian = BE;
    a.structs.push(st("X", vec![sf("v", STy::Unsigned(16)), sf("w", STy::Unsigned(8))]));
    let mut c = proto("b");
    c.endian = LE;
    c.structs.push(st("X", vec![sf("w", STy::Unsigned(32)), sf("v", STy::Unsigned(16))]));
    let mut p = proto("p");
    p.endian = LE;
    p.imports.push(("a".into(), "X".into()));
    p.messages.push(ms("M", vec![mf("x", item("X"))]));
    let mut q = proto("q");
    q.imports.push(("b".into(), "X".into()));
    q.structs.push(st("Y", vec![sf("x", STy::Struct("X".into()))]));
    q.messages.push(ms("M", vec![mf("x", item("X")), mf("y", item("Y"))]));
    b.add("import-samename", vec![a, c, p, q], Expect::Model);
}

/// Known finding: a list-bearing message embedded only by another protocol reads its whole input.
fn kf_import(b: &mut B) {
    let mut a = proto("a");
    commons(&mut a);
    let mut p = proto("p");
    for t in ["Ml", "P1"] { p.imports.push(("a".into(), t.into())); }
    p.messages.push(ms("ImportedListMessage", vec![mf("x", item("Ml")), mf("t", item("P1"))]));
    b.add("kf-import", vec![a, p], Expect::Model);
}

fn import_errors(b: &mut B) {
    let a = || { let mut a = proto("a"); commons(&mut a); a };
    let mk = |imports: &[(&str, &str)]| {
        let mut p = proto("p");
        p.imports = imports.iter().map(|(x, y)| (x.to_string(), y.to_string())).collect();
        p.structs.push(st("S", vec![sf("v", STy::Unsigned(8))]));
        p
    };
    for (l, imp) in [("unknown-proto", vec![("zz", "P1")]), ("unknown-type", vec![("a", "Nope")]), ("self", vec![("p", "S")]), ("case", vec![("A", "P1")]), ("later-ok-then-bad", vec![("a", "P1"), ("a", "P9")]), ("empty", vec![("", "P1")])] {
        b.add(format!("import-error-{}", l), vec![a(), mk(&imp)], Expect::Reject);
    }
    // a protocol registered later, and names visible without importing them
    let mut first = proto("first");
    first.imports.push(("second".into(), "T".into()));
    first.structs.push(st("S", vec![sf("t", STy::Struct("T".into()))]));
    let mut second = proto("second");
    second.structs.push(st("T", vec![sf("v", STy::Unsigned(8))]));
    b.add("import-error-later", vec![first, second], Expect::Reject);
    let mut p = proto("p");
    p.structs.push(st("S", vec![sf("t", STy::Struct("P1".into()))]));
    b.add("import-error-notimported", vec![a(), p], Expect::Reject);
    let mut p = proto("p");
    p.imports.push(("a".into(), "P2".into()));
    p.messages.push(ms("M", vec![mf("t", item("Ms"))]));
    b.add("import-error-notimported-msg", vec![a(), p], Expect::Reject);
}

// ---- wide declarations --------------------------------------------------------------------

/// Many fields in one structure, and fields far behind the first 64 KiB.
fn wide_structs(b: &mut B) {
    for (k, e) in [LE, BE].into_iter().enumerate() {
        b.one(format!("wide-{}-many", en_name(e)), e, |p| {
            let w = |i: u64| 1 + (i * 7 + k as u64 * 3) % 13;
            p.structs.push(st("S", (0..70).map(|i| sf(format!("f{}", i), ty(i as usize + k, w(i)))).collect()));
            p.structs.push(st("Mix", (0..40).map(|i| sf(format!("f{}", i), ty(i as usize, [8, 16, 32, 24, 8, 64][(i % 6) as usize]))).collect()));
        });
        b.one(format!("wide-{}-far", en_name(e)), e, |p| {
            p.structs.push(st("In", vec![sf("a", STy::Unsigned(11)), sf("b", STy::Signed(5))]));
            p.structs.push(st("S", vec![sfa("gap", STy::Unsigned(64), 8250), sf("a", STy::Unsigned(12)), sf("b", STy::Signed(20)), sf("c", STy::Unsigned(32)), sf("n", STy::Struct("In".into())),
                sfa("d", STy::Unsigned(16), 3), sf("e", STy::Unsigned(61)), sf("g", STy::Bool(1)), sf("h", STy::Signed(33))]));
        });
    }
}

/// More than 256 fields in one structure.
fn many_fields(b: &mut B) {
    for e in if b.quick() { vec![BE] } else { vec![LE, BE] } {
        b.one(format!("many-{}-fields", en_name(e)), e, |p| {
            p.structs.push(st("S", (0..262).map(|i| sf(format!("f{}", i), ty(i as usize, 1 + (i * 5) % 11))).collect()));
        });
    }
}

/// More than 256 fields in one message, cases in one union, items in one protocol.
fn many_items(b: &mut B) {
    for e in if b.quick() { vec![LE] } else { vec![LE, BE] } {
        b.one(format!("many-{}-items", en_name(e)), e, |p| {
            commons(p);
            common_unions(p);
            p.messages.push(ms("M", (0..264).map(|i| match i % 4 { _ if i == 258 => mf("h", item("Hd")), _ if i == 261 => mf("u", uni("h", "Us")), 0 => mf(format!("f{}", i), item("P1")), 1 => mf(format!("f{}", i), MTy::Str(Some(10))), 2 => mo(format!("f{}", i), item("P2")), _ => mf(format!("f{}", i), item("St")) }).collect()));
        });
        let mut a = proto("a");
        a.endian = e;
        for i in 0..262u64 {
            a.structs.push(st(format!("T{}", i), vec![sf("a", STy::Unsigned(1 + i % 8)), sf("b", STy::Signed(1 + i / 8))]));
            a.messages.push(ms(format!("N{}", i), vec![mf("t", item(&format!("T{}", (i * 5) % 262))), mf("s", MTy::Str(Some(10)))]));
        }
        a.structs.push(st("H2", vec![sf("f", STy::Unsigned(4)), sf("k", STy::Unsigned(12))]));
        let mut p = proto("p");
        p.endian = e;
        p.imports.push(("a".into(), "H2".into()));
        let mut cases = Vec::new();
        for i in 0..262u64 {
            let it = match i % 3 { 0 => None, 1 => Some(format!("T{}", i)), _ => Some(format!("N{}", i)) };
            if let Some(n) = &it { p.imports.push(("a".into(), n.clone())); }
            cases.push(UCase { name: format!("C{}", i), case: format!("{}", (i * 1031 + 4000) % 4096), item: it });
        }
        p.unions.push(UnionD { name: "Um".into(), disc: "H2.k".into(), cases });
        p.messages.push(ms("Wm", vec![mf("h", item("H2")), mf("u", uni("h", "Um")), mf("s", MTy::Str(Some(9)))]));
        b.add(format!("many-{}-union", en_name(e)), vec![a, p], Expect::Model);
    }
}

/// Enumerations with many variants, in declaration orders other than that of their values.
fn wide_enums(b: &mut B) {
    for e in [LE, BE] {
        b.one(format!("wide-{}-enum", en_name(e)), e, |p| {
            let many = |n: u64, f: &dyn Fn(u64) -> u64| (0..n).map(|i| (format!("V{}", i), f(i))).collect::<Vec<_>>();
            p.enums.push(EnumD { name: "A".into(), variants: many(300, &|i| (i * 7) % 512) });
            p.enums.push(EnumD { name: "B".into(), variants: many(256, &|i| 255 - i) });
            p.enums.push(EnumD { name: "C".into(), variants: many(128, &|i| i * 2) });
            p.enums.push(EnumD { name: "D".into(), variants: many(70, &|i| 1000 + i * i) });
            p.structs.push(st("S", vec![sfv("a", STy::Unsigned(9), View::Enum("A".into())), sfv("c", STy::Unsigned(8), View::Enum("C".into())), sf("g", STy::Unsigned(7)), sfv("b", STy::Unsigned(8), View::Enum("B".into())),
                sfv("d", STy::Unsigned(16), View::Enum("D".into())), sfv("a2", STy::Unsigned(33), View::Enum("A".into())), sfv("b2", STy::Unsigned(12), View::Enum("B".into())), sf("t", STy::Unsigned(3))]));
        });
    }
}

/// Structures of one field, of which only some stand for a plain value in a message.
pub fn singles(p: &mut Proto) {
    for w in [8u64, 16, 24, 32, 40, 64, 7, 12, 63] {
        p.structs.push(st(format!("Zu{}", w), vec![sf("v", STy::Unsigned(w))]));
        p.structs.push(st(format!("Zs{}", w), vec![sf("v", STy::Signed(w))]));
    }
    for w in [1u64, 8, 9, 16, 32] { p.structs.push(st(format!("Zb{}", w), vec![sf("v", STy::Bool(w))])); }
    for w in [32u64, 64] { p.structs.push(st(format!("Zf{}", w), vec![sf("v", STy::Float(w))])); }
    p.structs.push(st("Ze8", vec![sfv("v", STy::Unsigned(8), View::Enum("Ek".into()))]));
    p.structs.push(st("Ze16", vec![sfv("v", STy::Unsigned(16), View::Enum("Ek".into()))]));
    p.structs.push(st("Zr8", vec![sfv("v", STy::Float(8), View::Range(0.0, 1.0))]));
    p.structs.push(st("Zr32", vec![sfv("v", STy::Float(32), View::Range(-1.0, 1.0))]));
    p.structs.push(st("Zm64", vec![sfv("v", STy::Float(64), View::Mult(0.5))]));
    p.structs.push(st("Zn", vec![sf("v", STy::Struct("Zu16".into()))]));
    p.structs.push(st("Zn2", vec![sf("v", STy::Struct("Zn".into()))]));
    p.structs.push(st("Za8", vec![sfa("v", STy::Unsigned(8), 4)]));
    p.structs.push(st("Za16", vec![sfa("v", STy::Signed(16), 2)]));
    p.structs.push(st("Z1", vec![sfa("v", STy::Unsigned(16), 1)]));
}

fn wide_singles(b: &mut B) {
    for e in [LE, BE] {
        for k in 0..2 {
            b.one(format!("wide-{}-singles{}", en_name(e), k), e, |p| {
                commons(p);
                singles(p);
                let names: Vec<String> = p.structs.iter().map(|s| s.name.clone()).filter(|n| n.starts_with('Z')).collect();
                for n in names {
                    if k == 0 { p.messages.push(ms(format!("R{}", n), vec![mf("a", item(&n)), mo("o", item(&n)), mf("t", item("P1"))])); }
                    else { p.messages.push(ms(format!("L{}", n), vec![mf("a", list(300, &n)), mo("o", list(9, &n)), mf("t", item("P1"))])); }
                }
            });
        }
    }
}

/// Messages with many fields, many optional fields, many embeddings, unions with many cases.
fn wide_messages(b: &mut B) {
    for (x, e) in [LE, BE].into_iter().enumerate() {
        b.one(format!("wide-{}-messages", en_name(e)), e, |p| {
            commons(p);
            common_unions(p);
            let mut fs = Vec::new();
            // every kind which may be followed by another one, twice, then in the other order
            let open = |k: &MK| matches!(k.name, "list1" | "list2" | "list4" | "opt-list" | "payload" | "opt-payload" | "pmsg" | "lmsg" | "opt-lmsg");
            let plain: Vec<&MK> = MKINDS.iter().filter(|k| !open(k)).collect();
            for k in &plain { let i = fs.len(); fs.extend((k.f)(i)); }
            p.messages.push(ms("All", fs.clone()));
            let mut rs = Vec::new();
            for k in plain.iter().rev() { let i = rs.len(); rs.extend((k.f)(i)); }
            rs.push(mf("last", if x == 0 { list(300, "Md") } else { MTy::Payload }));
            p.messages.push(ms("Rev", rs));
            p.messages.push(ms("Flags", (0..20).map(|i| mo(format!("o{}", i), match i % 5 { 0 => item("P2"), 1 => MTy::Str(Some(10)), 2 => item("Ms"), 3 => item("St"), _ => MTy::Str(None) })).collect()));
            p.messages.push(ms("Nums", (0..33).map(|i| mf(format!("n{}", i), item(["P1", "P2", "Pi4", "Pu8", "Pf4", "Pb", "Odd", "Pf8"][i % 8]))).collect()));
            p.messages.push(ms("Strs", (0..12).map(|i| mf(format!("s{}", i), MTy::Str([None, Some(10), Some(300), Some(70000)][i % 4]))).collect()));
            p.messages.push(ms("Unis", (0..4).flat_map(|i| vec![mf(format!("h{}", i), item("Hd")), mf(format!("s{}", i), MTy::Str(Some(9))), mf(format!("u{}", i), uni(&format!("h{}", i), if i % 2 == 0 { "Us" } else { "Un" }))]).collect()));
            p.messages.push(ms("Back", vec![mf("h0", item("Hd")), mf("h1", item("Hd")), mf("h2", item("Hd")), mf("u1", uni("h1", "Us")), mf("u0", uni("h0", "Us")), mf("u2", uni("h2", "Us")), mf("u1b", uni("h1", "Un"))]));
            p.messages.push(ms("Arrs", (0..6).map(|i| MField { name: format!("a{}", i), ty: list([200, 300, 70000][i % 3], ["St", "P2", "Odd"][i / 2]), optional: i % 2 == 1 }).collect()));
        });
        b.one(format!("wide-{}-deep", en_name(e)), e, |p| {
            commons(p);
            p.messages.push(ms("D0", vec![mo("v", item("P2")), mf("s", MTy::Str(Some(10)))]));
            for d in 1..7 {
                let x = format!("D{}", d - 1);
                let f = match d % 3 { 0 => mf("x", item(&x)), 1 => mo("x", item(&x)), _ => mf("x", list(200, &x)) };
                p.messages.push(ms(format!("D{}", d), vec![mf("h", item("P1")), f, mf("t", item("P2"))]));
            }
        });
        let mut a = proto("a");
        a.endian = e;
        commons(&mut a);
        a.structs.push(st("H2", vec![sf("f", STy::Unsigned(4)), sf("k", STy::Unsigned(12)), sf("z", STy::Unsigned(8))]));
        let mut p = proto("p");
        p.endian = e;
        for t in ["P2", "St", "Odd", "H2", "Ms", "Md", "Mo"] { p.imports.push(("a".into(), t.into())); }
        let items = [None, Some("P2"), Some("Md"), Some("St"), Some("Ms"), None, Some("Mo"), Some("Odd")];
        p.unions.push(UnionD { name: "Uw".into(), disc: "H2.k".into(), cases: (0..40).map(|i| UCase { name: format!("C{}", i), case: format!("{}", (i * 1031 + 4000) % 4096), item: items[i % 8].map(String::from) }).collect() });
        p.messages.push(ms("Wm", vec![mf("h", item("H2")), mf("s", MTy::Str(Some(9))), mf("u", uni("h", "Uw")), mf("t", item("P2"))]));
        p.messages.push(ms("Wl", vec![mf("l", list(9, "Wm")), mf("t", item("P2"))]));
        b.add(format!("wide-{}-union", en_name(e)), vec![a, p], Expect::Model);
    }
}

// ---- related names ------------------------------------------------------------------------

/// Cases made by `f` (those whose label is accepted), under every naming scheme.
fn named(b: &mut B, keep: &dyn Fn(&str) -> bool, f: &dyn Fn(&mut B)) {
    let mut t = B { out: Vec::new(), tier: b.tier };
    f(&mut t);
    for c in t.out {
        if !keep(&c.label) { continue; }
        for s in SCHEMES { b.add(format!("named-{:?}-{}", s, c.label), rename(&c.units, *s), c.expect); }
    }
}

/// Several discriminants, of different structures and at different places of one structure.
fn named_unions(b: &mut B) {
    for e in [LE, BE] {
        let mut a = proto("a");
        a.endian = e;
        commons(&mut a);
        a.enums.push(en("El", &[("L0", 9), ("L1", 5), ("L2", 1)]));
        a.structs.push(st("H2", vec![sfv("i", STy::Unsigned(5), View::Enum("El".into())), sfv("j", STy::Unsigned(5), View::Enum("Ek".into())), sf("k", STy::Unsigned(6)), sf("l", STy::Signed(7)), sf("m", STy::Unsigned(9))]));
        a.structs.push(st("H3", vec![sf("u", STy::Struct("H2".into())), sf("v", STy::Struct("Hd".into())), sf("w", STy::Struct("H2".into()))]));
        let mut p = proto("p");
        p.endian = e;
        for t in ["P2", "St", "Hd", "H2", "H3", "Ms", "Md", "Mo"] { p.imports.push(("a".into(), t.into())); }
        for (n, d, cs) in [("Ui", "H2.i", ["L0", "L2"]), ("Uj", "H2.j", ["K1", "K3"]), ("Uk", "H2.k", ["63", "1"]), ("Ul", "H2.l", ["-64", "5"]), ("Um", "H2.m", ["511", "0"]),
            ("Vi", "H3.u.i", ["L0", "L1"]), ("Vk", "H3.v.k", ["K0", "K2"]), ("Vw", "H3.w.k", ["7", "0"]), ("Vj", "H3.w.j", ["K3", "K0"]), ("Vx", "Hd.w", ["0", "9"])] {
            p.unions.push(un(n, d, &[("A", cs[0], Some("Md")), ("B", cs[1], Some("P2"))]));
            let h = d.split('.').next().unwrap();
            p.messages.push(ms(format!("W{}", n), vec![mf("h0", item(h)), mf("g", item("Hd")), mf("h1", item(h)), mf("h2", item("H2")), mf("h3", item(h)), mf("u", uni("h1", n)), mf("v", uni("h3", n)), mf("w", uni("h0", n)), mf("t", item("P2"))]));
        }
        b.add(format!("unions-{}", en_name(e)), vec![a, p], Expect::Accept);
    }
}

fn named_messages(b: &mut B) {
    named(b, &|l| matches!(l, "umsg-le" | "wide-be-messages" | "embed-le-multi"), &|b| { umsgs(b); wide_messages(b); embeds(b); });
    named(b, &|l| l == "import-be-le" || l == "import-le-be", &imports);
}

fn named_structs(b: &mut B) {
    let one = |b: &mut B| {
        let mut a = proto("a");
        a.endian = BE;
        commons(&mut a);
        a.enums.push(en("El", &[("L0", 9), ("L1", 5), ("L2", 1), ("L3", 0)]));
        a.structs.push(st("N", vec![sf("a", STy::Unsigned(4)), sfv("e", STy::Unsigned(4), View::Enum("El".into())), sf("b", STy::Signed(9)), sf("c", STy::Bool(7)), sfa("d", STy::Unsigned(16), 2)]));
        a.structs.push(st("O", vec![sf("a", STy::Struct("N".into())), sf("b", STy::Struct("St".into())), sfv("e", STy::Unsigned(6), View::Enum("Ek".into())), sf("c", STy::Unsigned(2)), sf("d", STy::Struct("N".into()))]));
        let mut p = proto("p");
        p.endian = BE;
        for t in ["N", "O", "El"] { p.imports.push(("a".into(), t.into())); }
        p.enums.push(en("Ee", &[("A0", 2), ("A1", 0), ("A2", 3)]));
        p.structs.push(st("Q", vec![sf("n", STy::Struct("N".into())), sfv("e", STy::Unsigned(2), View::Enum("Ee".into())), sfv("g", STy::Unsigned(14), View::Enum("El".into())), sf("o", STy::Struct("O".into())),
            sfa("r", STy::Unsigned(24), 3), sfa("s", STy::Signed(8), 2), sfv("x", STy::Float(8), View::Range(-1.0, 1.0)), sfv("y", STy::Float(8), View::Range(0.0, 4.0)), sf("z", STy::Bool(1)), sf("w", STy::Signed(23))]));
        b.add("structs", vec![a, p], Expect::Accept);
    };
    named(b, &|_| true, &one);
}

// ---- deep nesting -------------------------------------------------------------------------

/// Messages nested into each other, through every construct which nests.
fn chains(b: &mut B) {
    let deep = 32;
    for e in [LE, BE] {
        b.one(format!("chain-{}", en_name(e)), e, |p| {
            commons(p);
            p.messages.push(ms("R0", vec![mf("s", MTy::Str(Some(9)))]));
            p.messages.push(ms("O0", vec![mf("s", MTy::Str(None))]));
            p.messages.push(ms("L0", vec![mf("s", MTy::Str(Some(9)))]));
            p.messages.push(ms("X0", vec![mf("s", MTy::Str(Some(9)))]));
            for i in 1..=deep {
                let n = |c: &str| format!("{}{}", c, i - 1);
                p.messages.push(ms(format!("R{}", i), vec![mf("x", item(&n("R"))), mf("t", item("P1"))]));
                p.messages.push(ms(format!("O{}", i), vec![mo("x", item(&n("O")))]));
                if i <= 4 { p.messages.push(ms(format!("L{}", i), vec![mf("x", list(9, &n("L"))), mo("t", item("P1"))])); }
                let x = match i % 3 { 0 => mo("x", item(&n("X"))), 1 => mf("x", item(&n("X"))), _ => mo("x", item(&n("X"))) };
                p.messages.push(ms(format!("X{}", i), if i % 2 == 0 { vec![x, mo("t", item("P2"))] } else { vec![mf("s", item("P1")), x] }));
            }
            // what is nested deepest matters; the way there is covered by it
            p.messages.push(ms("Xl", vec![mf("l", list(9, &format!("X{}", deep))), mf("t", item("P1"))]));
        });
        // cases of unions are messages of other protocols
        let mut units: Vec<Proto> = Vec::new();
        for i in 0..10 {
            let mut p = proto(&format!("p{}", i));
            p.endian = if i % 3 == 2 { None } else { e };
            if i == 0 {
                commons(&mut p);
                p.messages.push(ms("U0", vec![mf("a", item("P2"))]));
                p.messages.push(ms("V0", vec![mf("a", item("P2")), mf("p", MTy::Payload)]));
                p.messages.push(ms("W0", vec![mf("s", MTy::Str(Some(300)))]));
            } else {
                for t in ["Hd", "P1"] { p.imports.push(("p0".into(), t.into())); }
                for c in ["U", "V", "W"] {
                    p.imports.push((format!("p{}", i - 1), format!("{}{}", c, i - 1)));
                    p.unions.push(un(format!("{}n{}", c, i), "Hd.k", &[("A", "K0", Some(&format!("{}{}", c, i - 1))), ("B", "K3", None)]));
                    let mut m = ms(format!("{}{}", c, i), vec![mf("h", item("Hd")), mf("u", uni("h", &format!("{}n{}", c, i)))]);
                    if c == "U" { m.fields.push(mf("t", item("P1"))); }
                    p.messages.push(m);
                }
            }
            units.push(p);
        }
        b.add(format!("chain-unions-{}", en_name(e)), units, Expect::Accept);
    }
}

fn struct_chains(b: &mut B) {
    for e in [LE, BE] {
        b.one(format!("chain-{}", en_name(e)), e, |p| {
            p.enums.push(en("Ek", &[("K0", 0), ("K1", 5), ("K3", 2)]));
            p.structs.push(st("D0", vec![sf("a", STy::Unsigned(3)), sf("b", STy::Signed(11)), sfv("k", STy::Unsigned(9), View::Enum("Ek".into())), sf("c", STy::Bool(1))]));
            for i in 1..=12 {
                let x = sf("x", STy::Struct(format!("D{}", i - 1)));
                p.structs.push(st(format!("D{}", i), match i % 3 { 0 => vec![x, sf("t", STy::Unsigned(5))], 1 => vec![sf("t", STy::Signed(8)), x], _ => vec![sf("t", STy::Unsigned(16)), x, sf("z", STy::Unsigned(4))] }));
            }
        });
    }
}

// ---- per property -------------------------------------------------------------------------

pub fn cases(prop: &str, tier: Tier) -> Vec<Case> {
    let mut b = B { out: Vec::new(), tier };
    let q = tier == Tier::Quick;
    let small_w: &[u64] = if q { &[1, 4, 7, 8, 9, 16, 31] } else { &[1, 3, 7, 8, 9, 16, 17, 31, 33, 64] };
    match prop {
        "C01" => {
            bits(&mut b, &[LE, BE], if q { &[0] } else { &[0, 1, 2] });
            small(&mut b, &[LE, BE], small_w, 2, 0);
            if !q { small(&mut b, &[LE, BE], &[1, 7, 8, 9, 17, 33], 3, 1); }
            far(&mut b);
            wide_structs(&mut b);
            many_fields(&mut b);
            named_structs(&mut b);
        }
        "C02" => {
            bits(&mut b, &[LE, BE], if q { &[1] } else { &[0, 1, 2] });
            small(&mut b, &[None], small_w, if q { 1 } else { 2 }, 0);
            arrays(&mut b);
            if !q { nested(&mut b); }
            far(&mut b);
            wide_structs(&mut b);
            many_fields(&mut b);
            named_structs(&mut b);
            wide_singles(&mut b);
            for e in [None, LE, BE] {
                b.one(format!("scalars-{}", en_name(e)), e, |p| {
                    commons(p);
                    p.structs.push(st("Sf", vec![sf("a", STy::Float(32)), sf("b", STy::Float(64)), sf("c", STy::Unsigned(16))]));
                    for k in MKINDS.iter().filter(|k| !k.name.contains("union")) { p.messages.push(ms(format!("T{}", p.messages.len()), (k.f)(0))); }
                });
            }
        }
        "C03" => { bits(&mut b, &[LE, BE], if q { &[1] } else { &[0, 1, 2] }); small(&mut b, &[LE, BE], &(1..=64).collect::<Vec<_>>(), 1, 0); small(&mut b, &[LE, BE], &(1..=64).collect::<Vec<_>>(), 1, 1); small(&mut b, &[LE], &(1..=64).collect::<Vec<_>>(), 1, 2); wide_structs(&mut b); named_structs(&mut b); }
        "C04" => { enums(&mut b); wide_enums(&mut b); named_structs(&mut b); }
        "C05" => { floats(&mut b); named_structs(&mut b); }
        "C06" => { arrays(&mut b); wide_structs(&mut b); named_structs(&mut b); }
        "C07" => { nested(&mut b); struct_chains(&mut b); wide_structs(&mut b); named_structs(&mut b); }
        "C08" => { messages(&mut b, !q); chains(&mut b); embeds(&mut b); lengths(&mut b); longs(&mut b); wide_singles(&mut b); wide_messages(&mut b); many_items(&mut b); named_messages(&mut b); kf_payload(&mut b); }
        "C09" | "C14" => { messages(&mut b, !q); chains(&mut b); if !q { embeds(&mut b); } lengths(&mut b); longs(&mut b); wide_singles(&mut b); wide_messages(&mut b); many_items(&mut b); named_messages(&mut b); }
        "C10" | "C11" | "C12" | "C13" => { messages(&mut b, !q); chains(&mut b); embeds(&mut b); longs(&mut b); wide_singles(&mut b); wide_messages(&mut b); named_messages(&mut b); if !q { lengths(&mut b); } }
        "C15" => { messages(&mut b, false); longs(&mut b); wide_messages(&mut b); if !q { lengths(&mut b); } }
        "C16" => { unions(&mut b); wide_messages(&mut b); many_items(&mut b); named(&mut b, &|_| true, &named_unions); }
        "C17" => { lists(&mut b); named(&mut b, &|l| l == "lists-le-200", &lists); }
        "C18" => { lengths(&mut b); longs(&mut b); wide_messages(&mut b); }
        "C20" => {
            bits(&mut b, &[LE], &[0]);
            bits(&mut b, &[BE], &[1]);
            enums(&mut b);
            floats(&mut b);
            arrays(&mut b);
            nested(&mut b);
            messages(&mut b, !q);
            embeds(&mut b);
            unions(&mut b);
            lists(&mut b);
            lengths(&mut b);
            longs(&mut b);
            imports(&mut b);
            wide_structs(&mut b);
            many_fields(&mut b);
            many_items(&mut b);
            wide_enums(&mut b);
            chains(&mut b);
            struct_chains(&mut b);
            wide_singles(&mut b);
            wide_messages(&mut b);
            named_structs(&mut b);
            named_messages(&mut b);
            named(&mut b, &|_| true, &named_unions);
            kf_payload(&mut b);
            for c in &mut b.out { c.expect = Expect::Model; }
        }
        "C22" => { imports(&mut b); named(&mut b, &|l| l == "import-be-le" || l == "import-le-be", &imports); named_structs(&mut b); import_errors(&mut b); kf_import(&mut b); }
        "C26" => { embeds(&mut b); chains(&mut b); umsgs(&mut b); imports(&mut b); wide_messages(&mut b); named_messages(&mut b); kf_import(&mut b); }
        _ => (),
    }
    b.out
}
