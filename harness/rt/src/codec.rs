//! Codec primitives against a bit model.

use crate::ctx::{hex, watchdog, Ctx};
use bp3d_proto::codec::{ByteCodec, ByteCodecBE, ByteCodecLE};
use bp3d_proto::message::util::{ValueBE, ValueLE};
use bp3d_proto::message::{Error, FromSlice, WriteTo};
use spec::space::Tier;

pub struct BitE { pub id: usize, pub ty: &'static str, pub bits: usize, pub be: bool, pub off: usize, pub size: usize, pub r: fn(&[u8]) -> u64, pub w: fn(&mut [u8], u64) }

#[macro_export]
macro_rules! bit_entry {
    ($id: literal, $t: ty, LE, $o: literal, $s: literal) => { $crate::bit_entry!(@ $id, $t, BitCodecLE, false, $o, $s) };
    ($id: literal, $t: ty, BE, $o: literal, $s: literal) => { $crate::bit_entry!(@ $id, $t, BitCodecBE, true, $o, $s) };
    (@ $id: literal, $t: ty, $c: ident, $be: literal, $o: literal, $s: literal) => {
        $crate::codec::BitE {
            id: $id, ty: stringify!($t), bits: <$t>::BITS as usize, be: $be, off: $o, size: $s,
            r: |b| <bp3d_proto::codec::$c as bp3d_proto::codec::BitCodec>::read::<$t, $o, $s>(b) as u64,
            w: |b, v| <bp3d_proto::codec::$c as bp3d_proto::codec::BitCodec>::write::<$t, $o, $s>(b, v as $t),
        }
    };
}

fn mask(n: usize) -> u64 { if n == 64 { !0 } else { (1 << n) - 1 } }

fn bit(b: &[u8], be: bool, k: usize) -> u64 { (b[k / 8] >> if be { 7 - k % 8 } else { k % 8 }) as u64 & 1 }
fn set_bit(b: &mut [u8], be: bool, k: usize, v: u64) {
    let s = if be { 7 - k % 8 } else { k % 8 };
    b[k / 8] = b[k / 8] & !(1 << s) | (v as u8 & 1) << s;
}

fn model_read(b: &[u8], be: bool, off: usize, size: usize) -> u64 {
    (0..size).fold(0, |a, i| if be { a << 1 | bit(b, be, off + i) } else { a | bit(b, be, off + i) << i })
}

fn model_write(b: &mut [u8], be: bool, off: usize, size: usize, v: u64) {
    for i in 0..size { set_bit(b, be, off + i, if be { v >> (size - 1 - i) } else { v >> i }); }
}

fn images(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0; n], vec![0xff; n], (0..n).map(|i| 0x11u8.wrapping_mul(i as u8 + 1) ^ 0x5a).collect(), (0..n).map(|i| if i % 2 == 0 { 0xaa } else { 0x55 }).collect()];
    v.dedup();
    v
}

fn values(size: usize, bits: usize, quick: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, mask(size), mask(size) - 1, mask(size) >> 1, 1 << (size - 1), 0xaaaa_aaaa_aaaa_aaaa, 0x5555_5555_5555_5555, 0x0123_4567_89ab_cdef, !0, mask(size).wrapping_add(1)];
    for k in 0..bits { v.push(1 << k); }
    if size <= if quick { 5 } else { 8 } { v.extend(0..=mask(size)); }
    for x in v.iter_mut() { *x &= mask(bits); }
    v.sort();
    v.dedup();
    v
}

fn bits(c: &Ctx, e: &BitE) {
    let need = (e.off + e.size).div_ceil(8);
    let own = e.bits / 8;
    let quick = c.quick();
    let mut lens: Vec<usize> = (need..=16).filter(|l| !quick || *l <= need + 2 || *l == own || *l == 16).collect();
    lens.dedup();
    let vals = values(e.size, e.bits, quick);
    for len in lens {
        let key = if len == own { "aligned" } else if len < own { "short buffer" } else { "long buffer" };
        let at = |what: &str, b: &[u8]| format!("{} {} offset {} size {} in {} bytes: {} {}", e.ty, if e.be { "BE" } else { "LE" }, e.off, e.size, len, what, hex(b));
        let read = |b: &[u8]| {
            c.trans();
            match c.call(|| at("read", b), || (e.r)(b)) {
                Err(p) => c.fail(&format!("read {}", key), || format!("{}: {}", at("reading", b), p)),
                Ok(g) => { let w = model_read(b, e.be, e.off, e.size); if g != w { c.fail(&format!("read {}", key), || format!("{} gives {:#x} and not {:#x}", at("reading", b), g, w)); } }
            }
        };
        let write = |b: &[u8], v: u64| {
            c.trans();
            let mut guard = [0x3cu8; 32];
            guard[8..8 + len].copy_from_slice(b);
            let mut want = guard;
            model_write(&mut want[8..8 + len], e.be, e.off, e.size, v);
            let r = c.call(|| at(&format!("write {:#x} to", v), b), || (e.w)(&mut guard[8..8 + len], v));
            if let Err(p) = r { c.fail(&format!("write {}", key), || format!("{}: {}", at(&format!("writing {:#x} to", v), b), p)); return }
            if guard != want { c.fail(&format!("write {}", key), || format!("{} gives {} and not {}", at(&format!("writing {:#x} to", v), b), hex(&guard[8..8 + len]), hex(&want[8..8 + len]))); return }
            c.nontriv();
            match c.call(|| "read back".into(), || (e.r)(&guard[8..8 + len])) {
                Ok(g) if g == v & mask(e.size) => (),
                g => c.fail(&format!("read back {}", key), || format!("{} reads back as {:?}", at(&format!("{:#x} written to", v), b), g)),
            }
        };
        for b in images(len) {
            c.state();
            read(&b);
            for k in 0..len * 8 { let mut w = b.clone(); w[k / 8] ^= 1 << (k % 8); c.state(); read(&w); }
            for v in &vals { write(&b, *v); }
        }
        if len == 1 {
            for x in 0..=255u8 { c.state(); read(&[x]); for v in &vals { write(&[x], *v); } }
        }
        if len == 2 && e.bits <= 16 && (!quick || e.size % 3 == 1) {
            let vs: Vec<u64> = if quick { vec![0, mask(e.size)] } else { vec![0, mask(e.size), 0x5555 & mask(e.bits), 0xaaaa & mask(e.bits)] };
            for x in 0..=65535u16 { c.state(); let b = x.to_be_bytes(); read(&b); for v in &vs { write(&b, *v); } }
        }
        c.sample(|| at("image", &images(len)[2]));
    }
}

fn raw(v: u64, len: usize, be: bool) -> Vec<u8> { let mut b = v.to_le_bytes()[..len].to_vec(); if be { b.reverse(); } b }

fn byte_values(bits: usize) -> Vec<u64> {
    let mut v = values(bits, bits, true);
    if bits <= 16 { v = (0..=mask(bits)).collect(); }
    v.extend([0x7ff0_0000_0000_0001, 0x7ff8_0000_0000_0000, 0x8000_0000_0000_0000, 0x3ff0_0000_0000_0000, 0x7fc0_0000, 0x7f80_0001, 0x8000_0000, 0x3f80_0000, 0x0000_0001, 0xff80_ffff].map(|x: u64| x & mask(bits)));
    v
}

struct ByteE { ty: &'static str, bytes: usize, any_len: bool, be: bool, r: fn(&[u8]) -> u64, w: fn(&mut [u8], u64), vr: fn(&[u8]) -> Result<(usize, u64), String>, vw: fn(u64) -> Result<Vec<u8>, String> }

macro_rules! byte_entry {
    ($t: ty, $u: ty, $any: literal, $from: expr, $to: expr) => {
        [byte_entry!(@ $t, $u, $any, $from, $to, false, ByteCodecLE, ValueLE), byte_entry!(@ $t, $u, $any, $from, $to, true, ByteCodecBE, ValueBE)]
    };
    (@ $t: ty, $u: ty, $any: literal, $from: expr, $to: expr, $be: literal, $c: ident, $v: ident) => {
        ByteE {
            ty: stringify!($t), bytes: std::mem::size_of::<$t>(), any_len: $any, be: $be,
            r: |b| { let f: fn($t) -> $u = $to; f($c::read::<$t>(b)) as u64 },
            w: |b, v| { let f: fn($u) -> $t = $from; $c::write::<$t>(b, f(v as $u)) },
            vr: |b| { let f: fn($t) -> $u = $to; match $v::<$t>::from_slice(b) { Ok(m) => Ok((m.size(), f(m.into_inner()) as u64)), Err(Error::Truncated) => Err("truncated".into()), Err(e) => Err(e.to_string()) } },
            vw: |v| { let f: fn($u) -> $t = $from; let mut o = Vec::new(); $v::<$t>::write_to(&f(v as $u), &mut o).map_err(|e| e.to_string())?; Ok(o) },
        }
    };
}

fn byte_entries() -> Vec<ByteE> {
    let mut v = Vec::new();
    v.extend(byte_entry!(u8, u8, true, |x| x, |x| x));
    v.extend(byte_entry!(u16, u16, true, |x| x, |x| x));
    v.extend(byte_entry!(u32, u32, true, |x| x, |x| x));
    v.extend(byte_entry!(u64, u64, true, |x| x, |x| x));
    v.extend(byte_entry!(i8, u8, false, |x| x as i8, |x| x as u8));
    v.extend(byte_entry!(i16, u16, false, |x| x as i16, |x| x as u16));
    v.extend(byte_entry!(i32, u32, false, |x| x as i32, |x| x as u32));
    v.extend(byte_entry!(i64, u64, false, |x| x as i64, |x| x as u64));
    v.extend(byte_entry!(f32, u32, false, f32::from_bits, f32::to_bits));
    v.extend(byte_entry!(f64, u64, false, f64::from_bits, f64::to_bits));
    v
}

fn bytes(c: &Ctx, e: &ByteE) {
    for len in (if e.any_len { 1 } else { e.bytes })..=e.bytes {
        let name = |w: String| format!("{} {} in {} bytes: {}", e.ty, if e.be { "BE" } else { "LE" }, len, w);
        for v in byte_values(len * 8) {
            c.state();
            c.trans();
            let b = raw(v, len, e.be);
            match c.call(|| name(hex(&b)), || (e.r)(&b)) {
                Ok(g) if g == v => (),
                g => c.fail("bytes read", || name(format!("reading {} gives {:x?} and not {:#x}", hex(&b), g, v))),
            }
            for old in [0u8, 0xff, 0x69] {
                let mut buf = vec![old; len];
                c.trans();
                match c.call(|| name(format!("write {:#x}", v)), || (e.w)(&mut buf, v)) {
                    Ok(()) if buf == b => c.nontriv(),
                    g => c.fail("bytes write", || name(format!("writing {:#x} gives {} and not {} ({:?})", v, hex(&buf), hex(&b), g))),
                }
                // a value which is wider than the buffer keeps its low bytes
                if len < e.bytes {
                    let mut buf = vec![old; len];
                    let wide = v | 0x77 << (len * 8);
                    match c.call(|| name(format!("write {:#x}", wide)), || (e.w)(&mut buf, wide)) {
                        Ok(()) if buf == b => (),
                        g => c.fail("bytes write", || name(format!("writing {:#x} gives {} and not {} ({:?})", wide, hex(&buf), hex(&b), g))),
                    }
                }
            }
            if len == e.bytes {
                c.trans();
                match c.call(|| name(format!("value {:#x}", v)), || (e.vw)(v)) {
                    Ok(Ok(o)) if o == b => (),
                    g => c.fail("value write", || name(format!("the encoding of {:#x} is {:x?} and not {}", v, g, hex(&b)))),
                }
                for n in [0, 1, len / 2, len - 1, len, len + 1, len + 9] {
                    let mut s = b.clone();
                    s.resize(n, 0xc3);
                    let want = if n < len { Err("truncated".to_string()) } else { Ok((len, v)) };
                    match c.call(|| name(format!("decode {}", hex(&s))), || (e.vr)(&s)) {
                        Ok(g) if g == want => (),
                        g => c.fail("value read", || name(format!("decoding {} gives {:x?} and not {:x?}", hex(&s), g, want))),
                    }
                }
            }
        }
    }
}

pub const BYTES: usize = 1_000_000;

pub fn main(entries: &'static [BitE], shard: usize) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let c = Ctx::new("C25", tier);
    watchdog();
    std::panic::set_hook(Box::new(|_| ()));
    let only = get("--case").and_then(|s| s.parse::<usize>().ok());
    for e in entries {
        if only.is_some_and(|o| o != e.id) { continue; }
        c.begin_at(e.id);
        bits(&c, e);
    }
    for (i, e) in byte_entries().iter().enumerate() {
        let id = BYTES + i;
        if i % 8 != shard || only.is_some_and(|o| o != id) { continue; }
        c.begin_at(id);
        bytes(&c, e);
    }
    c.finish();
}
