//! Bounded value domains.

use crate::model::*;
use crate::value::*;
use std::rc::Rc;

/// Raw values explored for a field of `width` bits: all of them up to `full` bits, boundary
/// patterns above.
pub fn raws(width: u64, full: u64) -> Vec<u64> {
    if width <= full { return (0..=ones(width)).collect(); }
    let m = ones(width);
    let top = 1u64 << (width - 1);
    let mut v = vec![0, 1, 2, 3, m, m - 1, top, top - 1, (top + 1) & m, 0x5555_5555_5555_5555 & m, 0xAAAA_AAAA_AAAA_AAAA & m, 0x0123_4567_89AB_CDEF & m];
    for k in 0..width { v.push(1 << k); v.push(m & !(1 << k)); v.push((1u64 << k).wrapping_sub(1) & m); }
    v.sort();
    v.dedup();
    v
}

/// A small alphabet of values to write, including values too large for the field.
pub fn writes(width: u64, carrier_bits: u64) -> Vec<u64> {
    let m = ones(width);
    let top = 1u64 << (width - 1);
    let mut v = vec![0, m, 1, top, 0x5A5A_5A5A_5A5A_5A5A & m];
    let c = ones(carrier_bits);
    if c != m { v.push(c); v.push(m.wrapping_add(1) & c); v.push(0xA5C3_A5C3_A5C3_A5C3 & c); }
    v.sort();
    v.dedup();
    v
}

pub fn images(size: usize) -> Vec<Vec<u8>> {
    let pat = |f: &dyn Fn(usize) -> u8| (0..size).map(|i| f(i)).collect::<Vec<u8>>();
    vec![pat(&|i| (i as u8).wrapping_mul(0x35).wrapping_add(0x1B)), pat(&|_| 0), pat(&|_| 0xFF)]
}

pub fn scalars(kind: Kind, bits: u64) -> Vec<V> {
    match kind {
        Kind::Unsigned => vec![V::Int((0x0123_4567_89AB_CDEFu64 & ones(bits)) as i128), V::Int(0), V::Int(ones(bits) as i128)],
        Kind::Signed => vec![V::Int(-2), V::Int(sign(1 << (bits - 1), bits)), V::Int((ones(bits) >> 1) as i128), V::Int(0x12)],
        Kind::Float if bits == 32 => vec![V::F32(1.5f32.to_bits()), V::F32(0x7F80_0001), V::F32(0x8000_0000)],
        Kind::Float => vec![V::F64((-2.25f64).to_bits()), V::F64(0x7FF0_0000_0000_0001), V::F64(1)],
        Kind::Bool => vec![V::B(true), V::B(false)],
    }
}

/// Headers carrying each discriminant, on two backgrounds.
pub fn headers(u: &RUnion) -> Vec<V> {
    let l = u.leaf();
    let mut out = Vec::new();
    for (n, c) in u.cases.iter().enumerate() {
        let mut img = images(u.root.size)[n % 3].clone();
        l.set(&mut img, c.raw);
        out.push(V::S(img));
    }
    out
}

fn refs(r: &RRef, cap: usize) -> Vec<V> {
    match r {
        RRef::Struct(s) => images(s.size).into_iter().take(cap).map(V::S).collect(),
        RRef::Msg(m) => msgs(m, cap),
    }
}

fn texts(long: bool) -> Vec<V> {
    let mut v = vec![V::Str("ab".into()), V::Str(String::new()), V::Str("\u{e9}\u{1}z".into())];
    if long { v.push(V::Str("0123456789".into())); }
    v
}

fn lists(items: &[V]) -> Vec<V> {
    let mut v = Vec::new();
    if let Some(a) = items.first() { v.push(V::L(vec![a.clone()])); }
    v.push(V::L(vec![]));
    if items.len() > 1 { v.push(V::L(vec![items[1].clone(), items[0].clone()])); v.push(V::L(items.to_vec())); }
    v
}

pub fn field(m: &RMsg, i: usize, cap: usize) -> Vec<V> {
    let f = &m.fields[i];
    let base = match &f.ty {
        RMTy::Scalar { kind, bits, .. } => scalars(*kind, *bits),
        RMTy::Struct(s) => {
            let us: Vec<&Rc<RUnion>> = m.fields.iter().filter_map(|f| match &f.ty { RMTy::Union { u, on } if *on == i => Some(u), _ => None }).collect();
            if us.is_empty() { images(s.size).into_iter().map(V::S).collect() } else {
                let mut v: Vec<V> = us.iter().flat_map(|u| headers(u)).collect();
                v.sort();
                v.dedup();
                return v;
            }
        }
        RMTy::Msg(r) => msgs(r, cap),
        RMTy::StrNul => texts(false),
        RMTy::StrLen { .. } => texts(true),
        RMTy::Arr { item, .. } => lists(&images(item.size).into_iter().map(V::S).collect::<Vec<_>>()),
        RMTy::List { item, .. } => lists(&msgs(item, 3)),
        RMTy::Union { u, .. } => {
            let mut v = Vec::new();
            for (n, c) in u.cases.iter().enumerate() {
                match &c.item {
                    None => v.push(V::U(n, None)),
                    Some(r) => v.extend(refs(r, 2).into_iter().map(|p| V::U(n, Some(Box::new(p))))),
                }
            }
            return v;
        }
        RMTy::Payload => vec![V::Bytes(vec![1, 0, 255]), V::Bytes(vec![]), V::Bytes(vec![0])],
    };
    if !f.optional { return base; }
    let mut v: Vec<V> = vec![V::Opt(Some(Box::new(base[0].clone()))), V::Opt(None)];
    v.extend(base.into_iter().skip(1).map(|b| V::Opt(Some(Box::new(b)))));
    v
}

/// Every combination of the field domains, the largest domains cut until at most about `cap`
/// combinations remain (discriminants always keep every case). Only encodable values.
pub fn msgs(m: &RMsg, cap: usize) -> Vec<V> {
    let doms: Vec<Vec<V>> = (0..m.fields.len()).map(|i| field(m, i, (cap / 2).max(2))).collect();
    let fixed: Vec<bool> = (0..m.fields.len()).map(|i| matches!(m.fields[i].ty, RMTy::Union { .. })
        || m.fields.iter().any(|f| matches!(f.ty, RMTy::Union { on, .. } if on == i))).collect();
    let mut lens: Vec<usize> = doms.iter().map(|d| d.len()).collect();
    loop {
        let n: usize = lens.iter().zip(&fixed).filter(|(_, f)| !**f).fold(1, |n: usize, (l, _)| n.saturating_mul(*l));
        if n <= cap { break; }
        let Some(k) = (0..lens.len()).filter(|i| !fixed[*i] && lens[*i] > 1).max_by_key(|i| lens[*i]) else { break };
        lens[k] -= 1;
    }
    let mut out = Vec::new();
    // fields of wide messages which the product leaves out vary one at a time
    if m.fields.len() > 6 && cap > 3 {
        for base in [0usize, 1] {
            for k in 0..doms.len() {
                if fixed[k] { continue; }
                for x in lens[k]..doms[k].len() {
                    let v = V::M(doms.iter().enumerate().map(|(f, d)| if f == k { d[x].clone() } else if fixed[f] { d[0].clone() } else { d[base.min(d.len() - 1)].clone() }).collect());
                    if encode(m, &v).is_ok() && !out.contains(&v) { out.push(v); }
                }
            }
        }
    }
    let mut idx = vec![0; doms.len()];
    loop {
        let v = V::M(idx.iter().enumerate().map(|(f, i)| doms[f][*i].clone()).collect());
        if encode(m, &v).is_ok() { out.push(v); }
        let mut k = 0;
        loop {
            if k == idx.len() { return out; }
            idx[k] += 1;
            if idx[k] < lens[k] { break; }
            idx[k] = 0;
            k += 1;
        }
    }
}

/// All byte strings over `alpha` with at most `len` bytes.
pub fn strings(alpha: &[u8], len: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::new();
        for s in &last { for a in alpha { let mut t: Vec<u8> = s.clone(); t.push(*a); next.push(t); } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Single-byte replacements, window overwrites, deletions, duplications and extensions of `b`.
pub fn mutations(b: &[u8], alpha: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    for i in 0..b.len() {
        for a in alpha { if b[i] != *a { let mut c = b.to_vec(); c[i] = *a; out.push(c); } }
        let mut c = b.to_vec(); c[i] = c[i].wrapping_add(1); out.push(c);
        let mut c = b.to_vec(); c[i] ^= 0x80; out.push(c);
        let mut c = b.to_vec(); c.remove(i); out.push(c);
        let mut c = b.to_vec(); c.insert(i, b[i]); out.push(c);
        for w in [2usize, 4, 8] {
            if i + w <= b.len() {
                for p in [0xFFu8, 0x00] { let mut c = b.to_vec(); for k in i..i + w { c[k] = p; } out.push(c); }
                let mut c = b.to_vec(); for k in i..i + w { c[k] = 0xFF; } c[i] = 0x7F; out.push(c);
                let mut c = b.to_vec(); for k in i..i + w { c[k] = 0xFF; } c[i + w - 1] = 0x7F; out.push(c);
                let mut c = b.to_vec(); for k in i..i + w { c[k] = 0; } c[i] = 0x80; out.push(c);
                let mut c = b.to_vec(); for k in i..i + w { c[k] = 0; } c[i + w - 1] = 0x80; out.push(c);
            }
        }
    }
    for s in [&[0u8][..], &[0xFF], &[1, 2, 3], &[0; 9], &[0xFF; 9]] { let mut c = b.to_vec(); c.extend(s); out.push(c); }
    for n in 0..b.len() { out.push(b[..n].to_vec()); }
    out
}

/// Values of a field type which cannot be written.
fn bad_field(m: &RMsg, i: usize) -> Vec<V> {
    let f = &m.fields[i];
    let v: Vec<V> = match &f.ty {
        RMTy::StrNul => vec![V::Str("a\0b".into()), V::Str("\0".into())],
        RMTy::StrLen { pfx: 1 } => vec![V::Str("x".repeat(256))],
        RMTy::Arr { pfx: 1, item } => vec![V::L(vec![V::S(images(item.size)[0].clone()); 256])],
        RMTy::List { pfx, item } => {
            let good = msgs(item, 1);
            let mut v: Vec<V> = bad_msgs(item, 2).into_iter().map(|b| V::L(vec![good[0].clone(), b])).collect();
            if *pfx == 1 { v.push(V::L(vec![good[0].clone(); 256])); }
            v
        }
        RMTy::Msg(r) => bad_msgs(r, 4),
        RMTy::Union { u, .. } => {
            let mut v = Vec::new();
            for (n, c) in u.cases.iter().enumerate() {
                match &c.item {
                    None => v.push(V::U(n, None)),
                    Some(r) => v.push(V::U(n, Some(Box::new(refs(r, 1)[0].clone())))),
                }
                if let Some(RRef::Msg(m)) = &c.item { for b in bad_msgs(m, 2) { v.push(V::U(n, Some(Box::new(b)))); } }
            }
            v
        }
        _ => vec![],
    };
    if f.optional { v.into_iter().map(|x| V::Opt(Some(Box::new(x)))).collect() } else { v }
}

/// Values of a message which cannot be written, one unwritable field each.
pub fn bad_msgs(m: &RMsg, cap: usize) -> Vec<V> {
    let good = msgs(m, 2);
    let bad: Vec<Vec<V>> = (0..m.fields.len()).map(|i| bad_field(m, i)).collect();
    let mut out = Vec::new();
    for g in good.iter().take(2) {
        let V::M(fs) = g else { panic!() };
        for i in 0..fs.len() {
            for b in &bad[i] {
                let mut x = fs.clone();
                x[i] = b.clone();
                let x = V::M(x);
                if encode(m, &x).is_err() && !out.contains(&x) { out.push(x); }
                if out.len() >= cap { return out; }
            }
        }
    }
    out
}

pub const LENS: &[usize] = &[0, 1, 2, 9, 10, 11, 127, 128, 253, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, 65537, 70000, 131072];
pub const FEW_LENS: &[usize] = &[1, 127, 128, 255, 256, 257, 65535, 65536, 70000];

/// One field at a time takes every length in `lens` (texts, arrays, lists, payloads), and every text
/// which cannot be stored; whatever is nested is varied in the same way with fewer lengths.
/// Both encodable values and values which must be refused.
pub fn scale(m: &RMsg, lens: &[usize], depth: usize) -> Vec<V> {
    let Some(V::M(base)) = msgs(m, 1).into_iter().next() else { return vec![] };
    let mut out = Vec::new();
    for (i, f) in m.fields.iter().enumerate() {
        let mut vals: Vec<V> = Vec::new();
        match &f.ty {
            RMTy::StrLen { .. } => {
                for n in lens { vals.push(V::Str("q".repeat(*n))); }
                // multi-byte text: the length counts bytes
                for n in [127usize, 128, 32767, 32768] { vals.push(V::Str("\u{e9}".repeat(n))); }
                vals.push(V::Str("a\0b\0".into()));
            }
            RMTy::StrNul => {
                for n in lens { vals.push(V::Str("q".repeat(*n))); }
                for t in ["\0", "\0\0", "a\0", "\0a", "a\0b", "abc\0def\0", "\u{e9}\0", "\u{1}\u{7f}", "\u{10FFFF}"] { vals.push(V::Str(t.into())); }
                for n in [1usize, 2, 7, 8, 9, 31, 33, 63, 64, 127, 128, 255, 256, 257, 1024, 4096, 4097, 65535, 65536, 70000] { for k in [0, n / 2, n - 1] { let mut s = vec![b'z'; n]; s[k] = 0; vals.push(V::Str(String::from_utf8(s).unwrap())); } }
            }
            RMTy::Arr { item, .. } => { for n in lens { vals.push(V::L((0..*n).map(|k| V::S((0..item.size).map(|j| (k + j) as u8).collect())).collect())); } }
            RMTy::List { item, .. } => {
                let good = msgs(item, 3);
                let plain = matches!(item.fields[..], [RMField { ty: RMTy::Scalar { .. }, .. }]);
                for n in lens.iter().filter(|n| **n <= if plain { 65536 } else { 512 }) { vals.push(V::L((0..*n).map(|k| good[k % good.len()].clone()).collect())); }
                for b in bad_msgs(item, 4) { vals.push(V::L(vec![good[0].clone(), b.clone()])); vals.push(V::L(vec![b, good[0].clone()])); }
                if depth > 0 { for x in scale(item, FEW_LENS, depth - 1) { vals.push(V::L(vec![good[0].clone(), x, good[good.len() - 1].clone()])); } }
            }
            RMTy::Msg(r) => {
                vals.extend(msgs(r, 4));
                vals.extend(bad_msgs(r, 6));
                if depth > 0 { vals.extend(scale(r, FEW_LENS, depth - 1)); }
            }
            RMTy::Payload => for n in lens { vals.push(V::Bytes((0..*n).map(|k| k as u8).collect())); },
            RMTy::Union { u, on } => {
                for (k, c) in u.cases.iter().enumerate() {
                    let Some(RRef::Msg(r)) = &c.item else { continue };
                    if depth == 0 { continue; }
                    for x in scale(r, FEW_LENS, depth - 1) {
                        let mut fs = base.clone();
                        let V::S(h) = &mut fs[*on] else { panic!() };
                        u.leaf().set(h, c.raw);
                        fs[i] = V::U(k, Some(Box::new(x)));
                        out.push(V::M(fs));
                    }
                }
            }
            _ => continue,
        }
        for v in vals {
            let mut fs = base.clone();
            fs[i] = if f.optional { V::Opt(Some(Box::new(v))) } else { v };
            out.push(V::M(fs));
        }
    }
    out
}

/// Positions at which a long encoding is cut or damaged.
pub fn spots(len: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..18).chain(len.saturating_sub(10)..len).collect();
    for k in 5..20 { for d in [-1i64, 0, 1, 2, 5] { p.push(((1i64 << k) + d) as usize); } }
    p.retain(|x| *x < len);
    p.sort();
    p.dedup();
    p
}
