//! C18 at the capacity of the widest prefixes. The data is never touched memory, so that it costs
//! address space only.

use crate::ctx::Ctx;
use bp3d_proto::message::util::list::Unsized;
use bp3d_proto::message::util::{Array, List, ValueBE, ValueLE, VarcharString};
use bp3d_proto::message::{Error, FromSlice, Message, WriteTo};
use bp3d_proto::util::FixedSize;
use std::io::Write;

/// Keeps how much was written, what it began and what it ended with.
#[derive(Default)]
struct Count { n: u64, first: Vec<u8>, last: Vec<u8> }

impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += b.len() as u64;
        let k = 16usize.saturating_sub(self.first.len()).min(b.len());
        self.first.extend(&b[..k]);
        self.last.extend(&b[b.len().saturating_sub(4)..]);
        let k = self.last.len().saturating_sub(4);
        self.last.drain(..k);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

#[derive(Clone, Copy, Debug)]
pub struct B1;
#[derive(Clone, Copy, Debug)]
pub struct B4;

macro_rules! item {
    ($($t:ident $n:expr;)*) => { $(
        impl FixedSize for $t { const SIZE: usize = $n; }
        impl<'a> From<&'a [u8]> for $t { fn from(_: &'a [u8]) -> $t { $t } }
        impl<'a> FromSlice<'a> for $t {
            type Output = $t;
            fn from_slice(b: &'a [u8]) -> Result<Message<$t>, Error> { if b.len() < $n { Err(Error::Truncated) } else { Ok(Message::new($n, $t)) } }
        }
    )* };
}
item! { B1 1; B4 4; }

const SPAN: usize = (1 << 32) + 300;
const BASE: usize = 16;

struct Mem { b: Vec<u8> }

impl Mem {
    /// `n` bytes of data behind room for a prefix, with a mark at either end.
    fn data(&mut self, n: usize) -> &[u8] {
        let d = &mut self.b[BASE..BASE + n];
        if n > 0 { d[0] = b'<'; d[n - 1] = b'>'; }
        &self.b[BASE..BASE + n]
    }
    fn clear(&mut self, n: usize) {
        self.b[..BASE].fill(0);
        if n > 0 { self.b[BASE] = 0; self.b[BASE + n - 1] = 0; }
    }
}

/// The prefix must be right, followed by exactly the data.
fn judge(ctx: &Ctx, key: &str, what: String, got: Result<Result<(), Error>, String>, c: &Count, cap: u64, prefix: &[u8], count: usize, bytes: usize) -> bool {
    ctx.state();
    ctx.nontriv();
    let fits = count as u64 <= cap;
    match got {
        Err(e) => { ctx.fail(key, || format!("{}: {}", what, e)); false }
        Ok(Ok(())) if !fits => { ctx.fail(key, || format!("{} is written although its count does not fit", what)); false }
        Ok(Err(e)) if fits => { ctx.fail(key, || format!("{} is refused: {}", what, e)); false }
        Ok(Err(_)) => false,
        Ok(Ok(())) => {
            let mut first = prefix.to_vec();
            first.push(b'<');
            if c.n != (prefix.len() + bytes) as u64 || c.first[..first.len()] != first[..] || c.last.last() != Some(&b'>') {
                ctx.fail(key, || format!("{}: {} bytes beginning with {:?} are written instead of {} beginning with {:?}", what, c.n, c.first, prefix.len() + bytes, first));
                return false;
            }
            true
        }
    }
}

macro_rules! back {
    (Array, $b:expr, $p:ty, $i:ty) => { Array::<&[u8], $p, $i>::from_slice($b).ok().map(|m| (m.size(), m.into_inner().len())) };
    (List, $b:expr, $p:ty, $i:ty) => { Unsized::<$p, $i>::from_slice($b).ok().map(|m| (m.size(), m.into_inner().len())) };
}
macro_rules! cut {
    (Array, $b:expr, $p:ty, $i:ty) => { Array::<&[u8], $p, $i>::from_slice($b).is_ok() };
    (List, $b:expr, $p:ty, $i:ty) => { false };
}

macro_rules! both {
    ($ctx:expr, $mem:expr, $t:ty, $p:ident, $conv:ident) => {{
        let (ctx, mem): (&Ctx, &mut Mem) = ($ctx, $mem);
        let cap = <$t>::MAX as u64;
        let w = std::mem::size_of::<$t>();
        let pn = format!("{}<{}>", stringify!($p), stringify!($t));
        for n in [(1usize << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 255] {
            let prefix = (n as $t).$conv();
            // a string
            let what = format!("a string of {} bytes with prefix {}", n, pn);
            let mut c = Count::default();
            let s = unsafe { std::str::from_utf8_unchecked(mem.data(n)) };
            let got = ctx.call(|| what.clone(), || VarcharString::<$p<$t>>::write_to(s, &mut c));
            let back = judge(ctx, &format!("string {}", pn), what.clone(), got, &c, cap, &prefix, n, n);
            if back && (n == (1 << 32) - 1 || n == (1 << 32) + 1) {
                mem.b[BASE - w..BASE].copy_from_slice(&prefix);
                ctx.trans();
                let b = &mem.b[BASE - w..BASE + n];
                match ctx.call(|| format!("reading {}", what), || VarcharString::<$p<$t>>::from_slice(b).map(|m| (m.size(), m.into_inner().len()))) {
                    Ok(Ok((sz, l))) if sz == n + w && l == n => (),
                    r => ctx.fail(&format!("string {} back", pn), || format!("{} does not read back: {:?}", what, r)),
                }
                // one byte less than announced
                let b = &mem.b[BASE - w..BASE + n - 1];
                if let Ok(Ok(m)) = ctx.call(|| format!("reading {} cut", what), || VarcharString::<$p<$t>>::from_slice(b)) {
                    ctx.fail(&format!("string {} cut", pn), || format!("{} reads from one byte less, {} bytes", what, m.size()));
                }
            }
            mem.clear(n);
            // arrays and lists: one byte an item
            both!(@coll ctx, mem, $t, $p, prefix, cap, w, pn, n, Array, B1, n);
            both!(@coll ctx, mem, $t, $p, prefix, cap, w, pn, n, List, B1, n);
        }
        // items of four bytes: the count fits, the size in bytes is beyond it
        for n in [1usize << 30, (1 << 30) + 1] {
            let prefix = (n as $t).$conv();
            both!(@coll ctx, mem, $t, $p, prefix, cap, w, pn, n, Array, B4, 4 * n);
        }
    }};
    (@coll $ctx:ident, $mem:ident, $t:ty, $p:ident, $prefix:ident, $cap:ident, $w:ident, $pn:ident, $n:expr, $c:ident, $i:ident, $bytes:expr) => {{
        let (n, bytes): (usize, usize) = ($n, $bytes);
        let what = format!("{} of {} items of {} bytes with prefix {}", stringify!($c), n, <$i as FixedSize>::SIZE, $pn);
        let key = format!("{} {} {}", stringify!($c), stringify!($i), $pn);
        let mut c = Count::default();
        let d = $mem.data(bytes);
        let got = $ctx.call(|| what.clone(), || { let v: $c<&[u8], $p<$t>, $i> = unsafe { $c::from_raw_parts(d, n) }; <$c<&[u8], $p<$t>, $i> as WriteTo>::write_to(&v, &mut c) });
        if judge($ctx, &key, what.clone(), got, &c, $cap, &$prefix, n, bytes) {
            $mem.b[BASE - $w..BASE].copy_from_slice(&$prefix);
            $ctx.trans();
            let b = &$mem.b[BASE - $w..BASE + bytes];
            let got = $ctx.call(|| format!("reading {}", what), || back!($c, b, $p<$t>, $i));
            if got != Ok(Some((bytes + $w, n))) { $ctx.fail(&format!("{} back", key), || format!("{} does not read back: {:?}", what, got)); }
            let b = &$mem.b[BASE - $w..BASE + bytes - 1];
            let got = $ctx.call(|| format!("reading {} cut", what), || cut!($c, b, $p<$t>, $i));
            if got == Ok(true) { $ctx.fail(&format!("{} cut", key), || format!("{} reads from one byte less", what)); }
        }
        $mem.clear(bytes);
    }};
}

pub fn run(ctx: &Ctx) {
    let mut mem = Mem { b: vec![0u8; SPAN + BASE] };
    both!(ctx, &mut mem, u8, ValueLE, to_le_bytes);
    both!(ctx, &mut mem, u16, ValueLE, to_le_bytes);
    both!(ctx, &mut mem, u32, ValueLE, to_le_bytes);
    both!(ctx, &mut mem, u64, ValueLE, to_le_bytes);
    both!(ctx, &mut mem, u16, ValueBE, to_be_bytes);
    both!(ctx, &mut mem, u32, ValueBE, to_be_bytes);
    both!(ctx, &mut mem, u64, ValueBE, to_be_bytes);
}
