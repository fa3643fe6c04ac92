//! Tables through which the explorer reaches generated code, and helpers used by the glue.

use bp3d_proto::message::{Error, Message};
use spec::value::{Offs, EK, V};
use std::cell::RefCell;
use std::io::Write;

pub struct CaseOps { pub units: &'static [UnitOps] }
pub struct UnitOps { pub structs: &'static [StructOps], pub unions: &'static [UnionOps], pub msgs: &'static [MsgOps] }

pub struct StructOps {
    pub size_const: usize,
    pub fixed_size: usize,
    pub size_of: fn() -> usize,
    pub stack: fn() -> Vec<u8>,
    pub default_size: fn() -> usize,
    pub write: fn(&[u8], &mut dyn Write) -> Result<(), EK>,
    pub from_slice: fn(&[u8]) -> Result<(usize, Vec<u8>), EK>,
    pub leaves: &'static [LeafOps],
    /// (field path, byte window) of every nested structure
    pub subs: &'static [SubOps],
}

pub struct SubOps { pub path: &'static [usize], pub get: fn(&[u8]) -> Vec<u8>, pub get_mut: fn(&mut [u8]) -> Vec<u8> }

pub enum LeafOps {
    Fixed { get_raw: fn(&[u8]) -> u64, set_raw: fn(&mut [u8], u64), get: fn(&[u8]) -> V, set: fn(&mut [u8], &V), stack: fn(u64) -> Vec<u8> },
    Arr {
        len: fn(&[u8]) -> usize, get: fn(&[u8], usize) -> V, iter: fn(&[u8]) -> Vec<V>, set: fn(&mut [u8], usize, &V),
        get_mut: fn(&mut [u8], usize) -> V, bytes: Option<(fn(&[u8]) -> Vec<u8>, fn(&mut [u8], usize, u8))>,
    },
}

pub struct MsgOps {
    pub encode: fn(&V, &mut dyn Write) -> Result<(), EK>,
    pub size_of: fn(&V) -> Result<usize, EK>,
    pub decode: fn(&[u8]) -> Result<(V, usize), EK>,
    pub decode_offs: fn(&[u8]) -> Result<(V, usize, Offs), EK>,
    /// decode, then (size_of, re-encoding)
    pub recode: fn(&[u8]) -> Result<(Result<usize, EK>, Result<Vec<u8>, EK>), EK>,
    /// per field: the list or array type of the field
    pub colls: &'static [(usize, fn() -> Box<dyn Coll>)],
}

pub struct UnionOps {
    pub from_slice: fn(&[u8], &[u8]) -> Result<(V, usize), EK>,
    pub write: fn(&V, &[u8], &mut dyn Write) -> Result<(), EK>,
    pub set_disc: fn(&V, &mut [u8]) -> Result<(), EK>,
    pub acc: fn(&V) -> Result<Vec<Option<V>>, EK>,
}

pub trait Coll {
    fn push(&mut self, v: &V) -> Result<(), EK>;
    fn push_many(&mut self, v: &[V]) -> Result<(), EK>;
    fn len(&self) -> usize;
    fn items(&self, cap: usize) -> Vec<V>;
    fn items_offs(&self, cap: usize) -> Option<Vec<(V, Offs)>>;
    fn get(&self, i: usize) -> Option<V>;
    /// set the first leaf of item `i` to a raw value, through get_mut or iter_mut
    fn edit(&mut self, i: usize, raw: u64, iter: bool) -> bool;
    fn encode(&self) -> Result<Vec<u8>, EK>;
    /// arrays: all items through iter_mut
    fn items_mut(&mut self) -> Option<Vec<V>>;
    /// arrays: from_parts(data, len) as (value or None)
    fn parts(&self, data: &[u8], len: usize) -> Option<Option<Vec<V>>>;
}

pub struct CollImpl<X> {
    pub x: X,
    pub push: fn(&mut X, &V) -> Result<(), EK>,
    pub push_many: fn(&mut X, &[V]) -> Result<(), EK>,
    pub len: fn(&X) -> usize,
    pub items: fn(&X, usize) -> Vec<V>,
    pub items_offs: Option<fn(&X, usize) -> Vec<(V, Offs)>>,
    pub get: Option<fn(&X, usize) -> V>,
    pub edit: Option<fn(&mut X, usize, u64, bool) -> bool>,
    pub encode: fn(&X, &mut Vec<u8>) -> Result<(), EK>,
    pub items_mut: Option<fn(&mut X) -> Vec<V>>,
    pub parts: Option<fn(&[u8], usize) -> Option<Vec<V>>>,
}

impl<X> Coll for CollImpl<X> {
    fn push(&mut self, v: &V) -> Result<(), EK> { (self.push)(&mut self.x, v) }
    fn push_many(&mut self, v: &[V]) -> Result<(), EK> { (self.push_many)(&mut self.x, v) }
    fn len(&self) -> usize { (self.len)(&self.x) }
    fn items(&self, cap: usize) -> Vec<V> { (self.items)(&self.x, cap) }
    fn items_offs(&self, cap: usize) -> Option<Vec<(V, Offs)>> { self.items_offs.map(|f| f(&self.x, cap)) }
    fn get(&self, i: usize) -> Option<V> { self.get.map(|f| f(&self.x, i)) }
    fn edit(&mut self, i: usize, raw: u64, iter: bool) -> bool { match self.edit { Some(f) => f(&mut self.x, i, raw, iter), None => false } }
    fn encode(&self) -> Result<Vec<u8>, EK> { let mut o = Vec::new(); (self.encode)(&self.x, &mut o)?; Ok(o) }
    fn items_mut(&mut self) -> Option<Vec<V>> { self.items_mut.map(|f| f(&mut self.x)) }
    fn parts(&self, data: &[u8], len: usize) -> Option<Option<Vec<V>>> { self.parts.map(|f| f(data, len)) }
}

pub fn ek(e: Error) -> EK {
    match e {
        Error::Truncated => EK::Trunc,
        Error::InvalidUtf8 => EK::Utf8,
        Error::InvalidUnionDiscriminant(v) => EK::Disc(v as u64),
        Error::Io(_) => EK::Io,
        _ => EK::Other,
    }
}

/// The end of a field, if the size reported for it agrees.
pub fn span(o: &bp3d_proto::message::FieldOffset) -> usize {
    if o.end < o.start { return o.end; }
    if o.size() == o.end - o.start { o.end } else { usize::MAX }
}

pub fn split<T>(m: Message<T>) -> (usize, T) { (m.size(), m.into_inner()) }

pub fn wr<T: bp3d_proto::message::WriteTo<Input = T>>(v: &T, out: &mut dyn Write) -> Result<(), EK> {
    T::write_to(v, out).map_err(ek)
}

pub fn bytes_of<T: bp3d_proto::message::WriteTo<Input = T>>(v: &T) -> Vec<u8> {
    let mut o = Vec::new();
    T::write_to(v, &mut o).unwrap_or_else(|e| panic!("structure write failed: {}", e));
    o
}

// ---- scalars ------------------------------------------------------------------------------

pub trait Sc { fn to_v(self) -> V; fn from_v(v: &V) -> Self; }
macro_rules! sc_int { ($($t: ty)*) => { $(impl Sc for $t {
    fn to_v(self) -> V { V::Int(self as i128) }
    fn from_v(v: &V) -> Self { match v { V::Int(i) => *i as $t, _ => panic!("integer expected: {:?}", v) } }
})* } }
sc_int!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Sc for bool {
    fn to_v(self) -> V { V::B(self) }
    fn from_v(v: &V) -> Self { match v { V::B(b) => *b, _ => panic!() } }
}
impl Sc for f32 {
    fn to_v(self) -> V { V::F32(self.to_bits()) }
    fn from_v(v: &V) -> Self { match v { V::F32(b) => f32::from_bits(*b), V::F64(b) => f64::from_bits(*b) as f32, _ => panic!() } }
}
impl Sc for f64 {
    fn to_v(self) -> V { V::F64(self.to_bits()) }
    fn from_v(v: &V) -> Self { match v { V::F64(b) => f64::from_bits(*b), V::F32(b) => f32::from_bits(*b) as f64, _ => panic!() } }
}
pub fn tov<T: Sc>(v: T) -> V { v.to_v() }
pub fn fromv<T: Sc>(v: &V) -> T { T::from_v(v) }

// ---- arena --------------------------------------------------------------------------------

thread_local! {
    static ARENA: RefCell<Vec<(*mut [u8], usize)>> = RefCell::new(Vec::new());
}

/// Copies bytes to a place which lives until the next `reset`.
pub fn keep(v: Vec<u8>) -> &'static [u8] {
    let p = Box::into_raw(v.into_boxed_slice());
    ARENA.with(|a| a.borrow_mut().push((p, 0)));
    unsafe { &*p }
}
pub fn keep_str(s: &str) -> &'static str { unsafe { std::str::from_utf8_unchecked(keep(s.as_bytes().to_vec())) } }
/// Nothing built from values may be used after this.
pub fn reset() {
    ARENA.with(|a| for (p, _) in a.borrow_mut().drain(..) { unsafe { drop(Box::from_raw(p)) } });
}

// ---- value access -------------------------------------------------------------------------

pub fn vm(v: &V) -> &[V] { match v { V::M(f) => f, _ => panic!("message expected: {:?}", v) } }
pub fn vl(v: &V) -> &[V] { match v { V::L(f) => f, _ => panic!("list expected: {:?}", v) } }
pub fn vs(v: &V) -> &'static [u8] { match v { V::S(b) => keep(b.clone()), _ => panic!("structure expected: {:?}", v) } }
pub fn vstr(v: &V) -> &'static str { match v { V::Str(s) => keep_str(s), _ => panic!("string expected: {:?}", v) } }
pub fn vbytes(v: &V) -> &'static [u8] { match v { V::Bytes(b) => keep(b.clone()), _ => panic!("bytes expected: {:?}", v) } }
pub fn vint(v: &V) -> i128 { match v { V::Int(i) => *i, _ => panic!("integer expected: {:?}", v) } }
pub fn vopt<'v, T>(v: &'v V, f: impl FnOnce(&'v V) -> Result<T, EK>) -> Result<Option<T>, EK> {
    match v { V::Opt(None) => Ok(None), V::Opt(Some(x)) => f(x).map(Some), _ => panic!("option expected: {:?}", v) }
}
pub fn oopt<T>(v: &Option<T>, f: impl FnOnce(&T) -> V) -> V { V::Opt(v.as_ref().map(|x| Box::new(f(x)))) }
pub fn oenum(v: Option<i128>) -> V { V::Opt(v.map(|i| Box::new(V::Int(i)))) }

/// Collects a fallible iteration; more than one element after the announced number, or anything
/// after an error, is a runaway.
pub fn olist<T, U>(it: impl Iterator<Item = bp3d_proto::message::Result<T>>, it2: impl Iterator<Item = bp3d_proto::message::Result<(T, U)>>, len: usize, f: impl Fn(T) -> V) -> V {
    let mut v = oiter(it, len, &f);
    if OFFS.load(std::sync::atomic::Ordering::Relaxed) {
        let w = oiter(it2, len, |(x, _)| f(x));
        if v != w { v.push(V::Runaway); }
    }
    V::L(v)
}

/// Whether lists are also read through their iteration with offsets.
pub static OFFS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn oiter<T>(mut it: impl Iterator<Item = bp3d_proto::message::Result<T>>, len: usize, f: impl Fn(T) -> V) -> Vec<V> {
    let mut out = Vec::new();
    loop {
        crate::ctx::tick();
        match it.next() {
            None => { if out.len() != len { out.push(V::Runaway); } return out; }
            Some(_) if out.len() >= len || out.len() > (1 << 20) => { out.push(V::Runaway); return out; }
            Some(Ok(x)) => out.push(f(x)),
            Some(Err(e)) => {
                out.push(V::Err(ek(e)));
                if it.next().is_some() { out.push(V::Runaway); }
                return out;
            }
        }
    }
}
pub fn oarr<T>(mut it: impl Iterator<Item = T>, len: usize, f: impl Fn(T) -> V) -> Vec<V> {
    let mut out = Vec::new();
    loop {
        match it.next() {
            None => { if out.len() != len { out.push(V::Runaway); } return out; }
            Some(_) if out.len() >= len || out.len() > (1 << 22) => { out.push(V::Runaway); return out; }
            Some(x) => out.push(f(x)),
        }
    }
}
