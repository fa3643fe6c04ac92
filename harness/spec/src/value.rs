//! Dynamic values and the reference codec.

use crate::ast::End;
use crate::model::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EK { Trunc, Utf8, Disc(u64), Io, Other }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Int(i128),
    F32(u32),
    F64(u64),
    B(bool),
    Str(String),
    Bytes(Vec<u8>),
    /// structure: its image
    S(Vec<u8>),
    /// list or array of a message; an unreadable tail is represented by a final Err
    L(Vec<V>),
    Opt(Option<Box<V>>),
    U(usize, Option<Box<V>>),
    M(Vec<V>),
    Err(EK),
    Runaway,
}

// ---- bit images ---------------------------------------------------------------------------

/// (byte, mask) of bit `k` (0 = least significant) of a field of `width` bits at `off`.
fn bit_pos(end: End, off: u64, width: u64, k: u64) -> (usize, u8) {
    match end {
        End::Little => { let p = off + k; ((p / 8) as usize, 1 << (p % 8)) }
        End::Big => { let p = off + (width - 1 - k); ((p / 8) as usize, 0x80 >> (p % 8)) }
    }
}

pub fn get_bits(img: &[u8], end: End, off: u64, width: u64) -> u64 {
    let mut v = 0;
    for k in 0..width {
        let (b, m) = bit_pos(end, off, width, k);
        if img[b] & m != 0 { v |= 1u64 << k; }
    }
    v
}

pub fn set_bits(img: &mut [u8], end: End, off: u64, width: u64, val: u64) {
    for k in 0..width {
        let (b, m) = bit_pos(end, off, width, k);
        if val >> k & 1 != 0 { img[b] |= m } else { img[b] &= !m }
    }
}

/// Array items and multi-byte scalars in protocol byte order.
pub fn get_item(img: &[u8], end: End, byte_off: usize, bytes: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..bytes {
        let b = img[byte_off + match end { End::Little => bytes - 1 - i, End::Big => i }];
        v = v << 8 | b as u64;
    }
    v
}

pub fn set_item(img: &mut [u8], end: End, byte_off: usize, bytes: usize, val: u64) {
    for i in 0..bytes {
        img[byte_off + match end { End::Little => i, End::Big => bytes - 1 - i }] = (val >> (8 * i)) as u8;
    }
}

pub fn sign(raw: u64, width: u64) -> i128 {
    let v = (raw & ones(width)) as i128;
    if v >> (width - 1) & 1 != 0 { v - (1i128 << width) } else { v }
}

pub fn item_to_v(kind: Kind, bits: u64, raw: u64) -> V {
    match kind {
        Kind::Unsigned => V::Int(raw as i128),
        Kind::Signed => V::Int(sign(raw, bits)),
        Kind::Float => if bits == 32 { V::F32(raw as u32) } else { V::F64(raw) },
        Kind::Bool => V::B(raw != 0),
    }
}

pub fn v_to_raw(v: &V) -> u64 {
    match v {
        V::Int(i) => *i as u64,
        V::F32(b) => *b as u64,
        V::F64(b) => *b,
        V::B(b) => *b as u64,
        _ => panic!("not a scalar: {:?}", v),
    }
}

pub fn get_arr_item(f: &RField, end: End, img: &[u8], i: u64) -> V {
    let RKind::Array { kind, item_bits, .. } = &f.kind else { panic!() };
    item_to_v(*kind, *item_bits, get_item(img, end, ((f.off + i * item_bits) / 8) as usize, (*item_bits / 8) as usize))
}

pub fn set_arr_item(f: &RField, end: End, img: &mut [u8], i: u64, v: &V) {
    let RKind::Array { item_bits, .. } = &f.kind else { panic!() };
    set_item(img, end, ((f.off + i * item_bits) / 8) as usize, (*item_bits / 8) as usize, v_to_raw(v))
}

/// A field reached through nested structures.
#[derive(Clone, Debug)]
pub struct Leaf { pub path: Vec<usize>, pub names: Vec<String>, pub base: usize, pub st: Rc<RStruct>, pub idx: usize }

impl Leaf {
    pub fn f(&self) -> &RField { &self.st.fields[self.idx] }
    pub fn get(&self, img: &[u8]) -> u64 { get_bits(&img[self.base..], self.st.end, self.f().off, self.f().width) }
    pub fn set(&self, img: &mut [u8], raw: u64) { set_bits(&mut img[self.base..], self.st.end, self.f().off, self.f().width, raw) }
    pub fn get_item(&self, img: &[u8], i: u64) -> V { get_arr_item(self.f(), self.st.end, &img[self.base..], i) }
    pub fn set_item(&self, img: &mut [u8], i: u64, v: &V) { set_arr_item(self.f(), self.st.end, &mut img[self.base..], i, v) }
    pub fn view(&self, img: &[u8]) -> V { view_get(self.f(), self.get(img)) }
}

/// All non-structure fields, nested ones flattened, in declaration order.
pub fn leaves(s: &Rc<RStruct>) -> Vec<Leaf> {
    fn go(s: &Rc<RStruct>, base: usize, path: &[usize], names: &[String], out: &mut Vec<Leaf>) {
        for (i, f) in s.fields.iter().enumerate() {
            let mut p = path.to_vec();
            p.push(i);
            let mut n = names.to_vec();
            n.push(f.name.clone());
            match &f.kind {
                RKind::Nested(r) => go(r, base + (f.off / 8) as usize, &p, &n, out),
                _ => out.push(Leaf { path: p, names: n, base, st: s.clone(), idx: i }),
            }
        }
    }
    let mut out = Vec::new();
    go(s, 0, &[], &[], &mut out);
    out
}

pub fn leaf_at(s: &Rc<RStruct>, path: &[usize]) -> Leaf {
    leaves(s).into_iter().find(|l| l.path == path).expect("leaf path")
}

/// What the typed getter must return for a raw value (not for affine float views).
pub fn view_get(f: &RField, raw: u64) -> V {
    let RKind::Fixed { kind, view } = &f.kind else { panic!() };
    match view {
        RView::Enum(e) => V::Opt(e.variants.iter().position(|(_, v)| *v == raw).map(|i| Box::new(V::Int(i as i128)))),
        RView::None => item_to_v(*kind, f.width, raw),
        _ => panic!("float view"),
    }
}

/// The raw value the typed setter must store (not for affine float views).
pub fn view_set(f: &RField, v: &V) -> u64 {
    let RKind::Fixed { view, .. } = &f.kind else { panic!() };
    match (view, v) {
        (RView::Enum(e), V::Int(i)) => e.variants[*i as usize].1,
        (RView::None, v) => v_to_raw(v) & ones(f.width),
        _ => panic!("float view"),
    }
}

impl RUnion {
    pub fn leaf(&self) -> Leaf { leaf_at(&self.root, &self.path) }
    pub fn disc(&self, img: &[u8]) -> u64 { self.leaf().get(img) }
}

// ---- messages -----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Offs(pub Vec<(usize, usize, ONest)>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ONest { NotMsg, Absent, Msg(Offs) }

fn put_prefix(out: &mut Vec<u8>, end: End, pfx: usize, n: usize) -> Result<(), EK> {
    if pfx < 8 && (n as u64) >> (8 * pfx) != 0 { return Err(EK::Other); }
    let at = out.len();
    out.resize(at + pfx, 0);
    set_item(out, end, at, pfx, n as u64);
    Ok(())
}

fn image<'a>(s: &RStruct, v: &'a V) -> &'a [u8] {
    let V::S(b) = v else { panic!("structure expected: {:?}", v) };
    assert_eq!(b.len(), s.size);
    b
}

fn put_ref(r: &RRef, v: &V, out: &mut Vec<u8>) -> Result<(), EK> {
    match r {
        RRef::Struct(s) => { out.extend(image(s, v)); Ok(()) }
        RRef::Msg(m) => { put_msg(m, v, out, &mut Offs(vec![])) }
    }
}

fn put_field(m: &RMsg, ty: &RMTy, v: &V, all: &[V], out: &mut Vec<u8>, nest: &mut ONest) -> Result<(), EK> {
    match ty {
        RMTy::Scalar { bits, end, .. } => {
            let at = out.len();
            let n = (*bits / 8) as usize;
            out.resize(at + n, 0);
            set_item(out, *end, at, n, v_to_raw(v));
        }
        RMTy::Struct(s) => out.extend(image(s, v)),
        RMTy::Msg(r) => {
            let mut o = Offs(vec![]);
            put_msg(r, v, out, &mut o)?;
            *nest = ONest::Msg(o);
        }
        RMTy::StrNul => {
            let V::Str(s) = v else { panic!("{:?}", v) };
            if s.as_bytes().contains(&0) { return Err(EK::Other); }
            out.extend(s.as_bytes());
            out.push(0);
        }
        RMTy::StrLen { pfx } => {
            let V::Str(s) = v else { panic!("{:?}", v) };
            put_prefix(out, m.end, *pfx, s.len())?;
            out.extend(s.as_bytes());
        }
        RMTy::Arr { pfx, item } => {
            let V::L(items) = v else { panic!("{:?}", v) };
            put_prefix(out, m.end, *pfx, items.len())?;
            for i in items { out.extend(image(item, i)); }
        }
        RMTy::List { pfx, item } => {
            let V::L(items) = v else { panic!("{:?}", v) };
            put_prefix(out, m.end, *pfx, items.len())?;
            for i in items { put_msg(item, i, out, &mut Offs(vec![]))?; }
        }
        RMTy::Union { u, on } => {
            let V::U(case, payload) = v else { panic!("{:?}", v) };
            let V::S(h) = &all[*on] else { panic!() };
            let disc = u.disc(h);
            if disc != u.cases[*case].raw { return Err(EK::Disc(disc)); }
            if let Some(r) = &u.cases[*case].item { put_ref(r, payload.as_ref().unwrap(), out)?; }
        }
        RMTy::Payload => { let V::Bytes(b) = v else { panic!("{:?}", v) }; out.extend(b); }
    }
    Ok(())
}

/// Offsets are relative to the start of this message.
pub fn put_msg(m: &RMsg, v: &V, out: &mut Vec<u8>, offs: &mut Offs) -> Result<(), EK> {
    let V::M(vs) = v else { panic!("message value expected: {:?}", v) };
    let base = out.len();
    for (f, v) in m.fields.iter().zip(vs) {
        let start = out.len() - base;
        let mut nest = if matches!(f.ty, RMTy::Msg(_)) { ONest::Absent } else { ONest::NotMsg };
        if f.optional {
            let V::Opt(o) = v else { panic!("{:?}", v) };
            match o {
                None => out.push(0),
                Some(v) => { out.push(1); put_field(m, &f.ty, v, vs, out, &mut nest)?; }
            }
        } else {
            put_field(m, &f.ty, v, vs, out, &mut nest)?;
        }
        offs.0.push((start, out.len() - base, nest));
    }
    Ok(())
}

pub fn encode(m: &RMsg, v: &V) -> Result<Vec<u8>, EK> {
    let mut out = Vec::new();
    put_msg(m, v, &mut out, &mut Offs(vec![]))?;
    Ok(out)
}

pub fn encode_offs(m: &RMsg, v: &V) -> Result<(Vec<u8>, Offs), EK> {
    let mut out = Vec::new();
    let mut o = Offs(vec![]);
    put_msg(m, v, &mut out, &mut o)?;
    Ok((out, o))
}

/// Result of reference decoding: value, size, and the positions of bytes which re-encoding may
/// normalise to 1 (presence bytes and booleans).
pub struct Dec { pub v: V, pub size: usize, pub norm: Vec<usize> }

struct Rd<'a> { b: &'a [u8], pos: usize, norm: Vec<usize> }

impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], EK> {
        if self.b.len() - self.pos < n { return Err(EK::Trunc); }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn prefix(&mut self, end: End, pfx: usize) -> Result<u64, EK> {
        let b = self.take(pfx)?;
        Ok(get_item(b, end, 0, pfx))
    }
    fn text(&self, b: &[u8]) -> Result<V, EK> {
        std::str::from_utf8(b).map(|s| V::Str(s.into())).map_err(|_| EK::Utf8)
    }

    fn rf(&mut self, r: &RRef) -> Result<V, EK> {
        match r {
            RRef::Struct(s) => { let b = self.take(s.size)?; Ok(V::S(b.to_vec())) }
            RRef::Msg(m) => self.msg(m, false),
        }
    }

    fn field(&mut self, m: &RMsg, ty: &RMTy, open: bool, done: &[V]) -> Result<V, EK> {
        Ok(match ty {
            RMTy::Scalar { kind, bits, end } => {
                let n = (*bits / 8) as usize;
                let b = self.take(n)?;
                if *kind == Kind::Bool { self.norm.push(self.pos - 1); }
                item_to_v(*kind, *bits, get_item(b, *end, 0, n))
            }
            RMTy::Struct(s) => { let b = self.take(s.size)?; V::S(b.to_vec()) }
            RMTy::Msg(r) => self.msg(r, false)?,
            RMTy::StrNul => {
                let rest = &self.b[self.pos..];
                let n = rest.iter().position(|b| *b == 0).ok_or(EK::Trunc)?;
                let v = self.text(&rest[..n])?;
                self.pos += n + 1;
                v
            }
            RMTy::StrLen { pfx } => {
                let n = self.prefix(m.end, *pfx)?;
                if n > (self.b.len() - self.pos) as u64 { return Err(EK::Trunc); }
                let b = self.take(n as usize)?;
                self.text(b)?
            }
            RMTy::Arr { pfx, item } => {
                let n = self.prefix(m.end, *pfx)?;
                if (n as u128) * (item.size as u128) > (self.b.len() - self.pos) as u128 { return Err(EK::Trunc); }
                let mut vs = Vec::new();
                for _ in 0..n { let b = self.take(item.size)?; vs.push(V::S(b.to_vec())); }
                V::L(vs)
            }
            RMTy::List { pfx, item } => {
                let n = self.prefix(m.end, *pfx)?;
                let mut vs = Vec::new();
                for _ in 0..n {
                    match self.msg(item, false) {
                        Ok(v) => vs.push(v),
                        Err(e) if open => { vs.push(V::Err(e)); break; }
                        Err(e) => return Err(e),
                    }
                }
                if open { self.pos = self.b.len(); }
                V::L(vs)
            }
            RMTy::Union { u, on } => {
                let V::S(h) = &done[*on] else { panic!() };
                let disc = u.disc(h);
                let (i, c) = u.cases.iter().enumerate().find(|(_, c)| c.raw == disc).ok_or(EK::Disc(disc))?;
                V::U(i, match &c.item { None => None, Some(r) => Some(Box::new(self.rf(r)?)) })
            }
            RMTy::Payload => { let b = &self.b[self.pos..]; self.pos = self.b.len(); V::Bytes(b.to_vec()) }
        })
    }

    fn msg(&mut self, m: &RMsg, top: bool) -> Result<V, EK> {
        let mut vs: Vec<V> = Vec::new();
        for (i, f) in m.fields.iter().enumerate() {
            let open = top && i + 1 == m.fields.len() && m.open_list();
            let v = if f.optional {
                let p = self.take(1)?[0];
                self.norm.push(self.pos - 1);
                V::Opt(if p != 0 { Some(Box::new(self.field(m, &f.ty, open, &vs)?)) } else { None })
            } else {
                self.field(m, &f.ty, open, &vs)?
            };
            vs.push(v);
        }
        Ok(V::M(vs))
    }
}

pub fn decode(m: &RMsg, b: &[u8]) -> Result<Dec, EK> {
    let mut r = Rd { b, pos: 0, norm: Vec::new() };
    let v = r.msg(m, true)?;
    Ok(Dec { v, size: r.pos, norm: r.norm })
}
