//! Resolution of schemas into layouts and wire plans, written from the property texts.
//! `resolve` also predicts acceptance: Err(reason) means the schema must be rejected.

use crate::ast::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Signed, Unsigned, Float, Bool }

#[derive(Debug)]
pub struct REnum { pub name: String, pub variants: Vec<(String, u64)> }

#[derive(Clone, Debug)]
pub enum RView { None, Enum(Rc<REnum>), Range(f64, f64), Mult(f64) }

#[derive(Debug)]
pub enum RKind {
    Fixed { kind: Kind, view: RView },
    Array { kind: Kind, item_bits: u64, len: u64 },
    Nested(Rc<RStruct>),
}

#[derive(Debug)]
pub struct RField { pub name: String, pub off: u64, pub width: u64, pub kind: RKind }

#[derive(Debug)]
pub struct RStruct { pub name: String, pub end: End, pub bits: u64, pub size: usize, pub fields: Vec<RField> }

#[derive(Clone, Debug)]
pub enum RRef { Struct(Rc<RStruct>), Msg(Rc<RMsg>) }

#[derive(Debug)]
pub struct RCase { pub name: String, pub raw: u64, pub item: Option<RRef> }

#[derive(Debug)]
pub struct RUnion { pub name: String, pub root: Rc<RStruct>, pub path: Vec<usize>, pub kind: Kind, pub cases: Vec<RCase> }

#[derive(Debug)]
pub enum RMTy {
    Scalar { kind: Kind, bits: u64, end: End },
    Struct(Rc<RStruct>),
    Msg(Rc<RMsg>),
    StrNul,
    StrLen { pfx: usize },
    Arr { pfx: usize, item: Rc<RStruct> },
    List { pfx: usize, item: Rc<RMsg> },
    Union { u: Rc<RUnion>, on: usize },
    Payload,
}

#[derive(Debug)]
pub struct RMField { pub name: String, pub optional: bool, pub ty: RMTy }

#[derive(Debug)]
pub struct RMsg {
    pub name: String,
    pub end: End,
    pub fields: Vec<RMField>,
    pub dyn_sized: bool,
    pub elem_dyn: bool,
    pub embedded: Cell<bool>,
    /// read on its own, the last field is a list taken lazily from the whole remaining input
    pub open: Cell<bool>,
}

#[derive(Debug, Default)]
pub struct RProto {
    pub name: String,
    pub enums: Vec<Rc<REnum>>,
    pub structs: Vec<Rc<RStruct>>,
    pub unions: Vec<Rc<RUnion>>,
    pub messages: Vec<Rc<RMsg>>,
    /// all visible names (own and imported)
    pub e: HashMap<String, Rc<REnum>>,
    pub s: HashMap<String, Rc<RStruct>>,
    pub u: HashMap<String, Rc<RUnion>>,
    pub m: HashMap<String, Rc<RMsg>>,
    /// imported type name -> defining protocol name
    pub from: HashMap<String, String>,
}

pub fn prefix_size(max: u64) -> usize {
    if max <= 0xFF { 1 } else if max <= 0xFFFF { 2 } else if max <= 0xFFFF_FFFF { 4 } else { 8 }
}

pub fn ones(bits: u64) -> u64 { if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 } }

/// Byte width of the plain type carrying a scalar of the given declared width.
pub fn carrier_bytes(kind: Kind, bits: u64) -> u64 {
    match kind {
        Kind::Bool => 1,
        Kind::Float => if bits == 32 || bits <= 16 { 4 } else { 8 },
        _ => if bits <= 8 { 1 } else if bits <= 16 { 2 } else if bits <= 32 { 4 } else { 8 },
    }
}

fn resolve_field(p: &RProto, end: End, off: u64, f: &SField) -> Result<RField, String> {
    let _ = end;
    if let STy::Struct(n) = &f.ty {
        let r = p.s.get(n).ok_or_else(|| format!("undefined struct {}", n))?;
        if f.view.is_some() { return Err("view on nested struct".into()); }
        if off % 8 != 0 { return Err("unaligned nested struct".into()); }
        return Ok(RField { name: f.name.clone(), off, width: r.bits, kind: RKind::Nested(r.clone()) });
    }
    let (kind, bits) = match &f.ty {
        STy::Signed(b) => (Kind::Signed, *b),
        STy::Unsigned(b) => (Kind::Unsigned, *b),
        STy::Float(b) => (Kind::Float, *b),
        STy::Bool(b) => (Kind::Bool, *b),
        STy::Struct(_) => unreachable!(),
    };
    if bits == 0 || bits > 64 { return Err("bit size".into()); }
    let view = match &f.view {
        None => {
            if kind == Kind::Float && bits != 32 && bits != 64 { return Err("float size".into()); }
            RView::None
        }
        Some(View::Enum(n)) => {
            if kind != Kind::Unsigned { return Err("enum view on non-unsigned".into()); }
            let e = p.e.get(n).ok_or_else(|| format!("undefined enum {}", n))?;
            if e.variants.iter().any(|(_, v)| *v > ones(bits)) { return Err("enum too large".into()); }
            RView::Enum(e.clone())
        }
        Some(View::Range(a, b)) => {
            if kind != Kind::Float { return Err("float view on non-float".into()); }
            RView::Range(*a, *b)
        }
        Some(View::Mult(m)) => {
            if kind != Kind::Float { return Err("float view on non-float".into()); }
            RView::Mult(*m)
        }
    };
    match f.array_len {
        Some(0) => Err("empty array".into()),
        Some(n) if n > 1 => {
            if kind == Kind::Float && bits != 32 && bits != 64 { return Err("float array item".into()); }
            if kind == Kind::Bool && bits != 8 { return Err("bool array item".into()); }
            if bits % 8 != 0 || off % 8 != 0 { return Err("unaligned array".into()); }
            Ok(RField { name: f.name.clone(), off, width: bits * n, kind: RKind::Array { kind, item_bits: bits, len: n } })
        }
        _ => Ok(RField { name: f.name.clone(), off, width: bits, kind: RKind::Fixed { kind, view } }),
    }
}

fn lookup(p: &RProto, n: &str) -> Result<RRef, String> {
    if let Some(s) = p.s.get(n) { return Ok(RRef::Struct(s.clone())); }
    if let Some(m) = p.m.get(n) {
        m.embedded.set(true);
        return Ok(RRef::Msg(m.clone()));
    }
    Err(format!("undefined reference {}", n))
}

fn resolve_union(p: &RProto, u: &UnionD) -> Result<RUnion, String> {
    let mut parts = u.disc.split('.');
    let root = p.s.get(parts.next().unwrap()).ok_or("undefined discriminant struct")?.clone();
    let mut cur = root.clone();
    let mut path = Vec::new();
    let mut leaf: Option<(Kind, RView, u64)> = None;
    for part in parts {
        if leaf.is_some() { return Err("path continues past leaf".into()); }
        let idx = cur.fields.iter().position(|f| f.name == part).ok_or("undefined discriminant field")?;
        path.push(idx);
        let next = match &cur.fields[idx].kind {
            RKind::Fixed { kind, view } => { leaf = Some((*kind, view.clone(), cur.fields[idx].width)); None }
            RKind::Array { .. } => return Err("array discriminant".into()),
            RKind::Nested(s) => Some(s.clone()),
        };
        if let Some(n) = next { cur = n; }
    }
    let (kind, view, width) = leaf.ok_or("path does not end at a field")?;
    let mut cases: Vec<RCase> = Vec::new();
    for c in &u.cases {
        if kind == Kind::Float { return Err("float discriminant".into()); }
        let raw = match &view {
            RView::Enum(e) => e.variants.iter().find(|(k, _)| *k == c.case).map(|(_, v)| *v).ok_or("unknown enum case")?,
            _ => {
                let v: i128 = c.case.parse().map_err(|_| "case is not a number".to_string())?;
                let lo: i128 = if kind == Kind::Signed { -(1i128 << (width - 1)) } else { 0 };
                if v < lo || v > ones(width) as i128 { return Err("case does not fit".into()); }
                v as u64 & ones(width)
            }
        };
        if cases.iter().any(|c| c.raw == raw) { return Err("ambiguous case".into()); }
        let item = match &c.item { None => None, Some(i) => Some(lookup(p, i)?) };
        cases.push(RCase { name: c.name.clone(), raw, item });
    }
    if cases.is_empty() { return Err("empty union".into()); }
    Ok(RUnion { name: u.name.clone(), root, path, kind, cases })
}

fn resolve_msg(p: &RProto, end: End, m: &MsgD) -> Result<RMsg, String> {
    let mut fields: Vec<RMField> = Vec::new();
    let (mut is_dyn, mut elems) = (false, 0);
    for f in &m.fields {
        let mut optional = f.optional;
        let (ty, d, e) = match &f.ty {
            MTy::Item(n) => match lookup(p, n)? {
                RRef::Struct(s) => {
                    let scalar = match &s.fields[..] {
                        [RField { kind: RKind::Fixed { kind, view: RView::None }, width, .. }] if *width == carrier_bytes(*kind, *width) * 8 =>
                            Some(RMTy::Scalar { kind: *kind, bits: *width, end: s.end }),
                        _ => None,
                    };
                    (scalar.unwrap_or_else(|| RMTy::Struct(s.clone())), false, false)
                }
                RRef::Msg(r) => { let (d, e) = (r.dyn_sized, r.elem_dyn); (RMTy::Msg(r), d, e) }
            },
            MTy::List { max, item } => match lookup(p, item)? {
                RRef::Struct(s) => (RMTy::Arr { pfx: prefix_size(*max), item: s }, true, false),
                RRef::Msg(r) => (RMTy::List { pfx: prefix_size(*max), item: r }, true, true),
            },
            MTy::Str(None) => (RMTy::StrNul, true, false),
            MTy::Str(Some(n)) => (RMTy::StrLen { pfx: prefix_size(*n) }, true, false),
            MTy::Payload => (RMTy::Payload, true, true),
            MTy::Union { on, item } => {
                let oi = fields.iter().position(|f| f.name == *on).ok_or("undefined union on")?;
                let u = p.u.get(item).ok_or("undefined union")?.clone();
                match &fields[oi].ty {
                    RMTy::Struct(s) if Rc::ptr_eq(s, &u.root) && !fields[oi].optional => (),
                    _ => return Err("union type mismatch".into()),
                }
                optional = false;
                let any = |f: &dyn Fn(&RMsg) -> bool| u.cases.iter().any(|c| matches!(&c.item, Some(RRef::Msg(m)) if f(m)));
                let (d, e) = (any(&|m| m.dyn_sized), any(&|m| m.elem_dyn));
                (RMTy::Union { u, on: oi }, d, e)
            }
        };
        if elems > 0 && (d || e) { return Err("variable size after open-ended field".into()); }
        is_dyn |= d;
        if e { elems += 1; }
        fields.push(RMField { name: f.name.clone(), optional, ty });
    }
    Ok(RMsg { name: m.name.clone(), end, fields, dyn_sized: is_dyn, elem_dyn: elems > 0, embedded: Cell::new(false), open: Cell::new(false) })
}

impl RProto {
    /// `earlier`: the protocols registered for import, in registration order.
    pub fn resolve(p: &Proto, earlier: &[RProto]) -> Result<RProto, String> {
        let end = p.endian.unwrap_or(End::Little);
        let mut r = RProto { name: p.name.clone(), ..Default::default() };
        for (pn, tn) in &p.imports {
            // registering a protocol under an existing name replaces it
            let src = earlier.iter().rev().find(|e| e.name == *pn).ok_or("unknown protocol")?;
            if let Some(x) = src.s.get(tn) { r.s.insert(tn.clone(), x.clone()); }
            else if let Some(x) = src.e.get(tn) { r.e.insert(tn.clone(), x.clone()); }
            else if let Some(x) = src.u.get(tn) { r.u.insert(tn.clone(), x.clone()); }
            else if let Some(x) = src.m.get(tn) { r.m.insert(tn.clone(), x.clone()); }
            else { return Err("unknown imported type".into()); }
            let origin = src.from.get(tn).unwrap_or(pn).clone();
            r.from.insert(tn.clone(), origin);
        }
        for e in &p.enums {
            if e.variants.is_empty() { return Err("empty enum".into()); }
            let mut vs = e.variants.clone();
            vs.sort_by_key(|v| v.1);
            if vs.windows(2).any(|w| w[0].1 == w[1].1) { return Err("duplicate enum value".into()); }
            let x = Rc::new(REnum { name: e.name.clone(), variants: vs });
            r.e.insert(e.name.clone(), x.clone());
            r.enums.push(x);
        }
        for s in &p.structs {
            let mut off = 0;
            let mut fields = Vec::new();
            for f in &s.fields {
                let rf = resolve_field(&r, end, off, f)?;
                off += rf.width;
                fields.push(rf);
            }
            let x = Rc::new(RStruct { name: s.name.clone(), end, bits: off, size: ((off + 7) / 8) as usize, fields });
            r.s.insert(s.name.clone(), x.clone());
            r.structs.push(x);
        }
        for u in &p.unions {
            let x = Rc::new(resolve_union(&r, u)?);
            r.u.insert(u.name.clone(), x.clone());
            r.unions.push(x);
        }
        for m in &p.messages {
            let x = Rc::new(resolve_msg(&r, end, m)?);
            r.m.insert(m.name.clone(), x.clone());
            r.messages.push(x);
        }
        for m in &r.messages {
            m.open.set(!m.embedded.get() && matches!(m.fields.last(), Some(RMField { ty: RMTy::List { .. }, .. })));
        }
        Ok(r)
    }
}

impl RMsg {
    /// Contains a payload at its end (directly or nested): consumes whatever follows.
    pub fn greedy(&self) -> bool {
        self.fields.iter().any(|f| f.ty.greedy())
    }

    /// False when a greedy field is followed by anything, or a list item is greedy: such
    /// messages can be written but never read back (known finding).
    pub fn decodable(&self) -> bool {
        let n = self.fields.len();
        self.fields.iter().enumerate().all(|(i, f)| {
            (i + 1 == n || !f.ty.greedy()) && match &f.ty {
                RMTy::Msg(m) => m.decodable(),
                RMTy::List { item, .. } => !item.greedy() && item.decodable(),
                RMTy::Union { u, .. } => u.cases.iter().all(|c| match &c.item { Some(RRef::Msg(m)) => m.decodable(), _ => true }),
                _ => true,
            }
        })
    }

    pub fn open_list(&self) -> bool { self.open.get() }

    pub fn self_delimiting(&self) -> bool { !self.greedy() && !self.open_list() }
}

impl RMTy {
    pub fn greedy(&self) -> bool {
        match self {
            RMTy::Payload => true,
            RMTy::Msg(m) => m.greedy(),
            RMTy::Union { u, .. } => u.cases.iter().any(|c| matches!(&c.item, Some(RRef::Msg(m)) if m.greedy())),
            _ => false,
        }
    }
}
