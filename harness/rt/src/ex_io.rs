//! Writers which misbehave (C15) and unions (C16).

use crate::ctx::{hex, Ctx};
use crate::ops::*;
use spec::dom;
use spec::model::*;
use spec::space::Case;
use spec::value::*;
use std::io::{Error, ErrorKind, Write};

pub fn run(ctx: &Ctx, case: &Case, rp: &[RProto], ops: &CaseOps) {
    let _ = case;
    for (u, uops) in rp.iter().zip(ops.units) {
        if ctx.prop == "C15" { for (r, mo) in u.messages.iter().zip(uops.msgs) { c15_msg(ctx, &format!("{}.{}", u.name, r.name), r, mo); } }
        for (r, uo) in u.unions.iter().zip(uops.unions) {
            match &*ctx.prop {
                "C15" => c15_union(ctx, &format!("{}.{}", u.name, r.name), r, uo),
                _ => union(ctx, &format!("{}.{}", u.name, r.name), r, uo),
            }
        }
        if ctx.prop == "C16" { for (r, mo) in u.messages.iter().zip(uops.msgs) { c16_msg(ctx, &format!("{}.{}", u.name, r.name), r, mo); } }
    }
}

// ---- C15 ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dev { One, AllButOne, Interrupted, Fail, Zero }
const DEVS: [Dev; 5] = [Dev::One, Dev::AllButOne, Dev::Interrupted, Dev::Fail, Dev::Zero];

struct Sink<'a> { plan: &'a [(usize, Dev)], call: usize, out: Vec<u8>, lens: Vec<usize>, dead: bool, after: usize, used: usize }

impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        crate::ctx::tick();
        let k = self.call;
        self.call += 1;
        self.lens.push(b.len());
        if self.dead { if !b.is_empty() { self.after += 1; } return Err(Error::new(ErrorKind::BrokenPipe, "dead")); }
        // an empty write carries no data: the deviations do not apply
        if b.is_empty() { return Ok(0); }
        let dev = self.plan.iter().find(|p| p.0 == k).map(|p| p.1);
        if dev.is_some() { self.used += 1; }
        let n = match dev {
            None => b.len(),
            Some(Dev::One) => 1,
            Some(Dev::AllButOne) => (b.len() - 1).max(1),
            Some(Dev::Interrupted) => return Err(Error::new(ErrorKind::Interrupted, "again")),
            Some(Dev::Fail) => { self.dead = true; return Err(Error::new(ErrorKind::Other, "sink failed")); }
            Some(Dev::Zero) => { self.dead = true; return Ok(0); }
        };
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// Every plan of at most `bound` deviations from a perfect sink.
pub fn faults(ctx: &Ctx, key: &str, want: &[u8], bound: usize, f: impl Fn(&mut dyn Write) -> Result<(), EK>) {
    fn go(ctx: &Ctx, key: &str, want: &[u8], bound: usize, plan: &mut Vec<(usize, Dev)>, f: &dyn Fn(&mut dyn Write) -> Result<(), EK>) {
        reset();
        let mut s = Sink { plan, call: 0, out: Vec::new(), lens: Vec::new(), dead: false, after: 0, used: 0 };
        ctx.state();
        let r = ctx.call(|| format!("{} with {:?}", key, s_plan(s.plan)), || f(&mut s));
        let (calls, lens, dead, used) = (s.call, s.lens.clone(), s.dead, s.used);
        if used > 0 { ctx.nontriv(); }
        let ok = match &r {
            Ok(Ok(())) => !dead && s.out == want,
            Ok(Err(_)) => dead && want.starts_with(&s.out) && s.after == 0,
            Err(_) => false,
        };
        if !ok {
            let msg = format!("sink plan {:?}: result {:?}, accepted {}, {} writes after the failure; encoding {}", s.plan, r, hex(&s.out[..s.out.len().min(300)]), s.after, hex(&want[..want.len().min(300)]));
            ctx.fail(key, || msg);
        }
        if plan.len() == bound || dead { return; }
        let from = plan.last().map(|p| p.0 + 1).unwrap_or(0);
        for k in from..calls {
            if lens[k] == 0 { continue; }
            for d in DEVS {
                if lens[k] == 1 && matches!(d, Dev::One | Dev::AllButOne) { continue; }
                ctx.trans();
                plan.push((k, d));
                go(ctx, key, want, bound, plan, f);
                plan.pop();
            }
        }
    }
    go(ctx, key, want, bound, &mut Vec::new(), &f);
}
fn s_plan(p: &[(usize, Dev)]) -> String { format!("{:?}", p) }

fn c15_msg(ctx: &Ctx, name: &str, r: &RMsg, mo: &MsgOps) {
    let cap = if ctx.quick() { 4 } else { 16 };
    for v in dom::msgs(r, cap) {
        reset();
        let want = match encode(r, &v) { Ok(b) => b, Err(_) => continue };
        faults(ctx, &format!("{}:write_to", name), &want, 2, |w| (mo.encode)(&v, w));
        ctx.sample(|| format!("{} value {:?} encoding {}", name, v, hex(&want)));
    }
    // long contents: every single deviation
    if ctx.label().starts_with("len-") {
        for v in dom::scale(r, if ctx.quick() { &[1, 255, 256, 300, 65535, 70000] } else { dom::FEW_LENS }, if ctx.quick() { 0 } else { 1 }) {
            let want = match encode(r, &v) { Ok(b) => b, Err(_) => continue };
            if want.len() < 200 { continue; }
            reset();
            faults(ctx, &format!("{}:long write_to", name), &want, if ctx.quick() { 1 } else { 2 }, |w| (mo.encode)(&v, w));
        }
    }
    // values which cannot be encoded: whatever was accepted is not followed by anything, and it is an error
    for v in dom::bad_msgs(r, 6) {
        reset();
        ctx.state();
        let mut out = Vec::new();
        let got = ctx.call(|| format!("{}:refused", name), || (mo.encode)(&v, &mut out));
        if !matches!(got, Ok(Err(_))) { ctx.fail(&format!("{}:refused", name), || format!("writing {:?} gave {:?} with {}", v, got, hex(&out))); }
    }
}

fn c15_union(ctx: &Ctx, name: &str, u: &RUnion, uo: &UnionOps) {
    for (v, want) in payloads(u) {
        reset();
        let V::U(k, _) = &v else { panic!() };
        let mut img = dom::images(u.root.size)[0].clone();
        u.leaf().set(&mut img, u.cases[*k].raw);
        faults(ctx, &format!("{}:write_to", name), &want, 2, |w| (uo.write)(&v, &img, w));
    }
}

// ---- C16 ----------------------------------------------------------------------------------

/// Values of every case with their encodings.
fn payloads(u: &RUnion) -> Vec<(V, Vec<u8>)> {
    let mut out = Vec::new();
    for (k, c) in u.cases.iter().enumerate() {
        match &c.item {
            None => out.push((V::U(k, None), vec![])),
            Some(RRef::Struct(s)) => for i in dom::images(s.size) { out.push((V::U(k, Some(Box::new(V::S(i.clone())))), i)); },
            Some(RRef::Msg(m)) => for v in dom::msgs(m, 4) { let b = encode(m, &v).unwrap(); out.push((V::U(k, Some(Box::new(v))), b)); },
        }
    }
    out
}

fn discs(u: &RUnion, full: u64) -> Vec<u64> {
    let w = u.leaf().f().width;
    let mut d = dom::raws(w, full);
    for c in &u.cases {
        for x in [c.raw.wrapping_sub(1), c.raw, c.raw.wrapping_add(1)] { d.push(x & ones(w)); }
        for k in 0..w { d.push(c.raw ^ (1 << k)); }
    }
    d.sort();
    d.dedup();
    d
}

fn union(ctx: &Ctx, name: &str, u: &RUnion, uo: &UnionOps) {
    let l = u.leaf();
    let vals = payloads(u);
    let full = if ctx.prop == "C22" { 5 } else if ctx.quick() { 8 } else { 12 };
    let discs = discs(u, full);
    for (b, bg) in dom::images(u.root.size).into_iter().enumerate() {
        for d in &discs {
            let mut h = bg.clone();
            l.set(&mut h, *d);
            let active = u.cases.iter().position(|c| c.raw == *d);
            // reading
            for (v, bytes) in &vals {
                let V::U(k, _) = v else { panic!() };
                if active.is_some() && active != Some(*k) { continue; }
                let mut input = bytes.clone();
                if b > 0 && !greedy(u, *k) { input.extend([0x5A, 0, 0xFF]); }
                ctx.state();
                ctx.nontriv();
                reset();
                let got = ctx.call(|| format!("{}::from_slice disc {:#x}", name, d), || (uo.from_slice)(&input, &h));
                let ok = match (&got, active) {
                    (Ok(Ok((x, n))), Some(_)) => x == v && *n == bytes.len(),
                    (Ok(Err(EK::Disc(_))), None) => true,
                    _ => false,
                };
                if !ok { ctx.fail(&format!("{}:from_slice", name), || format!("discriminant {:#x} in {}, input {}: got {:?}, expected {}", d, hex(&h), hex(&input), got,
                    if active.is_some() { format!("{:?} of {} bytes", v, bytes.len()) } else { "the invalid discriminant error".into() })); }
                // a truncated payload is an error
                if active.is_some() && b == 0 && !bytes.is_empty() && !greedy(u, *k) {
                    let got = ctx.call(|| format!("{}::from_slice cut", name), || (uo.from_slice)(&bytes[..bytes.len() - 1], &h));
                    if got != Ok(Err(EK::Trunc)) { ctx.fail(&format!("{}:from_slice cut", name), || format!("{} cut by one byte: {:?}", hex(bytes), got)); }
                }
                if active.is_none() && b > 0 { break; }
            }
            // writing
            for (v, bytes) in &vals {
                let V::U(k, _) = v else { panic!() };
                ctx.trans();
                reset();
                let mut out = Vec::new();
                let got = ctx.call(|| format!("{}::write_to {:?} disc {:#x}", name, v, d), || (uo.write)(v, &h, &mut out));
                let ok = match &got { Ok(Ok(())) => active == Some(*k) && out == *bytes, Ok(Err(_)) => active != Some(*k), Err(_) => false };
                if !ok { ctx.fail(&format!("{}:write_to", name), || format!("case {:?} with discriminant {:#x}: got {:?} {}, expected {}", v, d, got, hex(&out),
                    if active == Some(*k) { hex(bytes) } else { "an error".into() })); }
            }
        }
        // setting the discriminant
        for (v, bytes) in &vals {
            let V::U(k, _) = v else { panic!() };
            for d in [0, ones(l.f().width), u.cases[(*k + 1) % u.cases.len()].raw] {
                reset();
                let mut h = bg.clone();
                l.set(&mut h, d);
                let mut want = h.clone();
                l.set(&mut want, u.cases[*k].raw);
                ctx.trans();
                let got = ctx.call(|| format!("{}::set_discriminant", name), || (uo.set_disc)(v, &mut h));
                if got != Ok(Ok(())) || h != want { ctx.fail(&format!("{}:set_discriminant", name), || format!("{:?}: got {:?} {}, expected {}", v, got, hex(&h), hex(&want))); continue; }
                let mut out = Vec::new();
                let w = ctx.call(|| "write".into(), || (uo.write)(v, &h, &mut out));
                let r = ctx.call(|| "read".into(), || (uo.from_slice)(&out, &h));
                if w != Ok(Ok(())) || r != Ok(Ok((v.clone(), bytes.len()))) { ctx.fail(&format!("{}:set-write-read", name), || format!("{:?}: wrote {:?} {}, read {:?}", v, w, hex(&out), r)); }
            }
        }
    }
    for (v, _) in &vals {
        let V::U(k, p) = v else { panic!() };
        reset();
        ctx.state();
        let got = ctx.call(|| format!("{} accessors", name), || (uo.acc)(v));
        let want: Vec<Option<V>> = (0..u.cases.len()).map(|i| if i == *k { Some(p.as_ref().map(|p| (**p).clone()).unwrap_or(V::B(true))) } else { None }).collect();
        if got != Ok(Ok(want.clone())) { ctx.fail(&format!("{}:accessors", name), || format!("{:?}: got {:?}, expected {:?}", v, got, want)); }
    }
    ctx.sample(|| format!("{}: cases {:?}, {} discriminants, {} payloads", name, u.cases.iter().map(|c| (&c.name, c.raw)).collect::<Vec<_>>(), discs.len(), vals.len()));
}

fn greedy(u: &RUnion, k: usize) -> bool { matches!(&u.cases[k].item, Some(RRef::Msg(m)) if m.greedy()) }

/// Messages around unions: mismatching headers are refused, matching ones round-trip.
fn c16_msg(ctx: &Ctx, name: &str, r: &RMsg, mo: &MsgOps) {
    let Some((ui, u, on)) = r.fields.iter().enumerate().find_map(|(i, f)| match &f.ty { RMTy::Union { u, on } => Some((i, u, *on)), _ => None }) else { return };
    let base = dom::msgs(r, 8);
    for v in &base {
        let V::M(fs) = v else { panic!() };
        for d in discs(u, 3) {
            let mut fs = fs.clone();
            let V::S(h) = &mut fs[on] else { panic!() };
            u.leaf().set(h, d);
            let V::U(k, _) = &fs[ui] else { panic!() };
            let same = u.cases[*k].raw == d;
            let x = V::M(fs);
            reset();
            ctx.state();
            let want = encode(r, &x);
            let mut out = Vec::new();
            let got = ctx.call(|| format!("{} write", name), || (mo.encode)(&x, &mut out));
            let ok = match (&got, &want) { (Ok(Ok(())), Ok(b)) => out == *b, (Ok(Err(_)), Err(_)) => true, _ => false };
            if !ok { ctx.fail(&format!("{}:message write", name), || format!("{:?} (discriminant {}): got {:?} {}, expected {:?}", x, if same { "matches" } else { "differs" }, got, hex(&out), want)); }
            if same && ok && want.is_ok() {
                let back = ctx.call(|| format!("{} read", name), || (mo.decode)(&out));
                if back != Ok(Ok((x.clone(), out.len()))) { ctx.fail(&format!("{}:message read", name), || format!("{}: got {:?}, expected {:?}", hex(&out), back, x)); }
            }
        }
    }
}
