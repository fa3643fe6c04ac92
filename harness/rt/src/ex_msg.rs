//! Messages: encoding, decoding, sizes, offsets, totality.

use crate::ctx::{hex, Ctx};
use crate::ops::*;
use spec::dom;
use spec::model::*;
use spec::space::Case;
use spec::value::*;
use std::collections::HashSet;
use std::rc::Rc;

struct X<'a> { ctx: &'a Ctx, name: String, r: &'a Rc<RMsg>, ops: &'a MsgOps }

pub fn run(ctx: &Ctx, case: &Case, rp: &[RProto], ops: &CaseOps) {
    OFFS.store(matches!(&*ctx.prop, "C10" | "C13"), std::sync::atomic::Ordering::Relaxed);
    // the shared declarations at the front of every protocol are explored in the first cases only
    let commons = ["Ms", "Md", "Mo", "Ml", "Mp"];
    let skip = |n: &str| commons.contains(&n) && case.id > 3 && !matches!(&*ctx.prop, "C22" | "C26");
    for (u, uops) in rp.iter().zip(ops.units) {
        for (r, mo) in u.messages.iter().zip(uops.msgs) {
            if skip(&r.name) { continue; }
            let x = X { ctx, name: format!("{}.{}", u.name, r.name), r, ops: mo };
            match &*ctx.prop {
                "C08" => x.c08(),
                "C09" => x.c09(),
                "C10" => x.c10(),
                "C11" => x.c11(),
                "C12" => x.c12(),
                "C13" => x.c13(),
                "C14" => x.c14(),
                "C18" => x.c18(),
                "C02" => x.whole(12),
                "C22" => { x.whole(if ctx.quick() { 16 } else { 64 }); x.suffixes(8); }
                "C26" => { x.whole(if ctx.quick() { 16 } else { 64 }); x.suffixes(if ctx.quick() { 16 } else { 48 }); }
                _ => (),
            }
        }
    }
}

fn brief<T: std::fmt::Debug>(v: &T) -> String { let s = format!("{:?}", v); s.chars().take(200).collect() }

type Dec1 = Result<Result<(V, usize), EK>, String>;

fn has_runaway(v: &V) -> bool {
    match v {
        V::Runaway => true,
        V::L(x) | V::M(x) => x.iter().any(has_runaway),
        V::Opt(Some(x)) | V::U(_, Some(x)) => has_runaway(x),
        _ => false,
    }
}

impl<'a> X<'a> {
    fn key(&self, w: &str) -> String { format!("{}:{}", self.name, w) }

    fn enc(&self, v: &V) -> Result<Result<Vec<u8>, EK>, String> {
        reset();
        let mut out = Vec::new();
        self.ctx.call(|| format!("{} write {:?}", self.name, v), || (self.ops.encode)(v, &mut out)).map(|r| r.map(|_| out))
    }

    fn dec(&self, b: &[u8]) -> Dec1 { self.ctx.call(|| format!("{} read {}", self.name, hex(b)), || (self.ops.decode)(b)) }

    fn vals(&self, quick: usize, thorough: usize) -> Vec<V> {
        let v = dom::msgs(self.r, if self.ctx.quick() { quick } else { thorough });
        self.ctx.sample(|| format!("{}: {} values, for example {:?}", self.name, v.len(), v.get(v.len() / 2)));
        v
    }

    /// In the cases about long contents: one field at a time over the length boundaries.
    fn longs(&self, full: bool) -> Vec<V> {
        if !self.ctx.label().starts_with("len-") { return vec![]; }
        dom::scale(self.r, if full { dom::LENS } else { dom::FEW_LENS }, if full || !self.ctx.quick() { 1 } else { 0 })
    }

    fn good_longs(&self, full: bool) -> impl Iterator<Item = (V, Vec<u8>)> + '_ {
        self.longs(full).into_iter().filter_map(|v| encode(self.r, &v).ok().map(|b| (v, b)))
    }

    // ---- C08 ------------------------------------------------------------------------------

    fn c08(&self) {
        for v in self.vals(24, 120) {
            self.ctx.state();
            self.ctx.nontriv();
            match self.enc(&v) {
                Ok(Ok(b)) => {
                    self.ctx.trans();
                    let got = self.dec(&b);
                    if got != Ok(Ok((v.clone(), b.len()))) { self.ctx.fail(&self.key("roundtrip"), || format!("{:?} written as {} reads back as {:?}", v, hex(&b), got)); }
                }
                e => self.ctx.fail(&self.key("write"), || format!("writing {:?}: {:?}", v, e)),
            }
        }
        if !self.r.decodable() { return; }
        for (v, want) in self.good_longs(true) {
            self.ctx.state();
            self.ctx.nontriv();
            match self.enc(&v) {
                Ok(Ok(b)) => {
                    self.ctx.trans();
                    let got = self.dec(&b);
                    if got != Ok(Ok((v.clone(), b.len()))) { self.ctx.fail(&self.key("long roundtrip"), || format!("{} ({} bytes) reads back as {}", brief(&v), b.len(), brief(&got))); }
                }
                e => self.ctx.fail(&self.key("long write"), || format!("writing {} ({} bytes): {}", brief(&v), want.len(), brief(&e))),
            }
        }
    }

    // ---- C09 ------------------------------------------------------------------------------

    fn c09(&self) {
        for v in self.vals(24, 120) {
            self.ctx.state();
            self.ctx.nontriv();
            let want = encode(self.r, &v).unwrap();
            let got = self.enc(&v);
            self.ctx.trans();
            if got != Ok(Ok(want.clone())) { self.ctx.fail(&self.key("bytes"), || format!("{:?} written as {:?}, expected {}", v, got.map(|r| r.map(|b| hex(&b))), hex(&want))); }
        }
        for (v, want) in self.good_longs(true) {
            self.ctx.state();
            self.ctx.nontriv();
            let got = self.enc(&v);
            self.ctx.trans();
            if got.as_ref().ok().and_then(|r| r.as_ref().ok()) != Some(&want) { self.ctx.fail(&self.key("long bytes"), || format!("{} written as {}, expected {}", brief(&v), brief(&got.map(|r| r.map(|b| hex(&b)))), brief(&hex(&want)))); }
        }
    }

    /// Bytes, value and size against the model (C02, C22, C26).
    fn whole(&self, cap: usize) {
        if !self.r.decodable() { return; }
        for v in self.vals(cap, cap) {
            self.ctx.state();
            self.ctx.nontriv();
            let want = encode(self.r, &v).unwrap();
            let got = self.enc(&v);
            if got != Ok(Ok(want.clone())) { self.ctx.fail(&self.key("bytes"), || format!("{:?} written as {:?}, expected {}", v, got.map(|r| r.map(|b| hex(&b))), hex(&want))); }
            self.ctx.trans();
            let got = self.dec(&want);
            if got != Ok(Ok((v.clone(), want.len()))) { self.ctx.fail(&self.key("read"), || format!("{} read as {:?}, expected {:?}", hex(&want), got, v)); }
        }
    }

    // ---- C11 ------------------------------------------------------------------------------

    fn suffixes(&self, cap: usize) {
        if !self.r.self_delimiting() { return; }
        for v in self.vals(cap, cap) {
            let b = encode(self.r, &v).unwrap();
            for s in [&[0u8][..], &[1], &[0xFF], &[1, 2, 3, 0, 5], &[0; 12], &[0xFF; 12]] {
                let mut i = b.clone();
                i.extend(s);
                self.ctx.state();
                self.ctx.trans();
                let got = self.dec(&i);
                if got != Ok(Ok((v.clone(), b.len()))) { self.ctx.fail(&self.key("suffix"), || format!("{} followed by {}: got {:?}, expected {:?} of {} bytes", hex(&b), hex(s), got, v, b.len())); }
            }
        }
    }

    fn c11(&self) {
        self.suffixes(if self.ctx.quick() { 16 } else { 80 });
        for v in self.vals(16, 80) {
            let b = encode(self.r, &v).unwrap();
            let open = !self.r.self_delimiting();
            for cut in 0..b.len() {
                self.ctx.state();
                self.ctx.nontriv();
                self.ctx.trans();
                let got = self.dec(&b[..cut]);
                if !open {
                    if got != Ok(Err(EK::Trunc)) { self.ctx.fail(&self.key("cut"), || format!("{} cut to {} bytes: got {:?}, expected the truncation error", hex(&b), cut, got)); }
                } else {
                    let want = decode(self.r, &b[..cut]).map(|d| (d.v, d.size));
                    if got != Ok(want.clone()) { self.ctx.fail(&self.key("open cut"), || format!("{} cut to {} bytes: got {:?}, expected {:?}", hex(&b), cut, got, want)); }
                }
            }
            if open {
                for s in [&[0u8][..], &[1, 2], &[0xFF; 9]] {
                    let mut i = b.clone();
                    i.extend(s);
                    self.ctx.state();
                    let got = self.dec(&i);
                    let want = decode(self.r, &i).map(|d| (d.v, d.size));
                    if got != Ok(want.clone()) { self.ctx.fail(&self.key("open suffix"), || format!("{} followed by {}: got {:?}, expected {:?}", hex(&b), hex(s), got, want)); }
                }
            }
        }
        for (v, b) in self.good_longs(false) {
            let mut inputs: Vec<(String, Vec<u8>)> = dom::spots(b.len()).into_iter().map(|n| (format!("cut to {} bytes", n), b[..n].to_vec())).collect();
            for s in [&[0u8][..], &[0xFF], &[0xFF; 12], &[0; 300]] { let mut i = b.clone(); i.extend(s); inputs.push((format!("followed by {} bytes", s.len()), i)); }
            for (what, i) in inputs {
                self.ctx.state();
                self.ctx.nontriv();
                self.ctx.trans();
                let got = self.dec(&i);
                let want = if self.r.self_delimiting() { if i.len() < b.len() { Err(EK::Trunc) } else { Ok((v.clone(), b.len())) } } else { decode(self.r, &i).map(|d| (d.v, d.size)) };
                if got != Ok(want.clone()) { self.ctx.fail(&self.key("long"), || format!("encoding {} of {} {}: got {}, expected {}", brief(&hex(&b)), brief(&v), what, brief(&got), brief(&want))); }
            }
        }
    }

    // ---- C10, C12, C13 --------------------------------------------------------------------

    /// Every short byte string over a small alphabet and every mutation of valid encodings.
    fn inputs(&self, len: usize, cap: usize) -> Vec<Vec<u8>> {
        let alpha: &[u8] = &[0, 1, 2, 0xFF];
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut out = Vec::new();
        let mut add = |b: Vec<u8>| if seen.insert(b.clone()) { out.push(b) };
        for s in dom::strings(alpha, len) { add(s); }
        for v in dom::msgs(self.r, cap) {
            let b = encode(self.r, &v).unwrap();
            for m in dom::mutations(&b, &[0, 1, 2, 9, 0x41, 0x7F, 0x80, 0xC3, 0xFF]) { add(m); }
            add(b);
        }
        for (_, b) in self.good_longs(false) {
            if b.len() > 70_100 && self.ctx.quick() { continue; }
            for n in dom::spots(b.len()) {
                add(b[..n].to_vec());
                if n < 10 || n + 4 > b.len() { for a in [0, 1, 0x80, 0xFF, b[n].wrapping_add(1), b[n].wrapping_sub(1)] { let mut c = b.clone(); c[n] = a; add(c); } }
            }
            add(b);
        }
        out
    }

    fn bounds(&self) -> (usize, usize) { if self.ctx.quick() { (4, 6) } else { (7, 24) } }

    fn c10(&self) {
        let (len, cap) = self.bounds();
        let mut shown = false;
        for b in self.inputs(len + 1, cap) {
            self.ctx.state();
            self.ctx.trans();
            let got = self.dec(&b);
            match got {
                Err(e) => self.ctx.fail(&self.key("panic"), || format!("reading {}: {}", hex(&b), e)),
                Ok(Ok((v, n))) => {
                    self.ctx.nontriv();
                    if n > b.len() { self.ctx.fail(&self.key("size"), || format!("reading {}: size {} out of {}", hex(&b), n, b.len())); }
                    if has_runaway(&v) { self.ctx.fail(&self.key("iteration"), || format!("reading {}: iteration does not end properly: {:?}", hex(&b), v)); }
                    if !shown { shown = true; self.ctx.sample(|| format!("{}: {} read as {:?}", self.name, hex(&b), v)); }
                }
                Ok(Err(_)) => (),
            }
            if let Err(e) = self.ctx.call(|| format!("{} read with offsets {}", self.name, hex(&b)), || (self.ops.decode_offs)(&b).map(|_| ())) {
                self.ctx.fail(&self.key("panic"), || format!("reading {} with offsets: {}", hex(&b), e));
            }
        }
    }

    fn c12(&self) {
        let (len, cap) = self.bounds();
        for b in self.inputs(len, cap) {
            self.ctx.state();
            let (v, n) = match self.dec(&b) { Ok(Ok(x)) => x, _ => continue };
            if n > b.len() { continue; }
            self.ctx.nontriv();
            self.ctx.trans();
            let got = self.ctx.call(|| format!("{} recode {}", self.name, hex(&b)), || (self.ops.recode)(&b));
            let out = match &got {
                Ok(Ok((Ok(s), Ok(out)))) if *s == out.len() => out,
                _ => { self.ctx.fail(&self.key("rewrite"), || format!("rewriting the value of {}: {:?}", hex(&b), got)); continue; }
            };
            let norm = decode(self.r, &b).map(|d| d.norm).unwrap_or_default();
            let same = out.len() == n && (0..n).all(|i| out[i] == b[i] || (b[i] > 1 && out[i] == 1 && norm.contains(&i)));
            if !same { self.ctx.fail(&self.key("bytes"), || format!("{} of {} bytes rewrites as {}", hex(&b), n, hex(out))); continue; }
            let again = self.dec(out);
            if again != Ok(Ok((v.clone(), n))) { self.ctx.fail(&self.key("again"), || format!("{} read as {:?}; rewritten as {} it reads as {:?}", hex(&b), v, hex(out), again)); }
            self.ctx.sample(|| format!("{}: {} rewritten as {}", self.name, hex(&b), hex(out)));
        }
    }

    fn structure_of(&self, r: &RMsg, v: &V, o: &Offs, size: Option<usize>) -> Result<(), String> {
        let V::M(vs) = v else { return Err("value".into()) };
        if o.0.len() != r.fields.len() { return Err("field count".into()); }
        let mut at = 0;
        for ((f, v), (s, e, nest)) in r.fields.iter().zip(vs).zip(&o.0) {
            if *s != at || e < s { return Err(format!("range of {} is {}..{}, expected to start at {}", f.name, s, e, at)); }
            at = *e;
            let sub = match (&f.ty, v) { (RMTy::Msg(m), V::Opt(Some(x))) if f.optional => Some((m, &**x, 1)), (RMTy::Msg(_), V::Opt(None)) if f.optional => None, (RMTy::Msg(m), x) => Some((m, x, 0)), _ => None };
            match (nest, sub) {
                (ONest::Msg(o), Some((m, v, skip))) => self.structure_of(m, v, o, Some(e - s - skip)).map_err(|x| format!("{}: {}", f.name, x))?,
                (ONest::Absent, None) | (ONest::NotMsg, None) => (),
                _ => return Err(format!("offsets of {} {:?} do not match the value {:?}", f.name, nest, v)),
            }
        }
        match size { Some(n) if n != at => Err(format!("ranges end at {} of {}", at, n)), _ => Ok(()) }
    }

    fn c13(&self) {
        let (len, cap) = self.bounds();
        let offs = |b: &[u8]| self.ctx.call(|| format!("{} read with offsets {}", self.name, hex(b)), || (self.ops.decode_offs)(b));
        for v in self.vals(24, 120) {
            self.ctx.state();
            self.ctx.nontriv();
            let (b, o) = encode_offs(self.r, &v).unwrap();
            let got = offs(&b);
            if got != Ok(Ok((v.clone(), b.len(), o.clone()))) { self.ctx.fail(&self.key("offsets"), || format!("{}: got {:?}, expected {:?} {:?}", hex(&b), got, v, o)); }
            self.ctx.sample(|| format!("{}: {} offsets {:?}", self.name, hex(&b), o));
        }
        if self.r.decodable() {
            for (v, _) in self.good_longs(true) {
                self.ctx.state();
                self.ctx.nontriv();
                let (b, o) = encode_offs(self.r, &v).unwrap();
                let got = offs(&b);
                if got != Ok(Ok((v.clone(), b.len(), o.clone()))) { self.ctx.fail(&self.key("long offsets"), || format!("{} bytes: got {} with offsets {}, expected {} {:?}", b.len(), brief(&got), brief(&got.as_ref().map(|r| r.as_ref().map(|x| x.2.clone()))), brief(&v), o)); }
            }
        }
        for b in self.inputs(len, cap) {
            self.ctx.state();
            self.ctx.trans();
            let plain = self.dec(&b);
            let with = offs(&b);
            let same = match (&plain, &with) {
                (Ok(Ok((v, n))), Ok(Ok((w, m, o)))) => {
                    self.ctx.nontriv();
                    if v == w && n == m {
                        if let Err(e) = self.structure_of(self.r, w, o, Some(*m)) { self.ctx.fail(&self.key("ranges"), || format!("{}: {} in {:?}", hex(&b), e, o)); }
                        true
                    } else { false }
                }
                (Ok(Err(a)), Ok(Err(b))) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same { self.ctx.fail(&self.key("differs"), || format!("{}: plain {:?}, with offsets {:?}", hex(&b), plain, with)); }
        }
    }

    // ---- C14 ------------------------------------------------------------------------------

    fn size(&self, v: &V) {
        self.ctx.state();
        self.ctx.trans();
        let w = self.enc(v);
        reset();
        let s = self.ctx.call(|| format!("{} size of {:?}", self.name, v), || (self.ops.size_of)(v));
        let ok = match (&w, &s) { (Ok(Ok(b)), Ok(Ok(n))) => b.len() == *n, (Ok(Err(_)), Ok(Err(_))) => true, _ => false };
        if !ok { self.ctx.fail(&self.key("size"), || format!("{}: size {:?}, writing gives {:?}", brief(v), s, w.map(|r| r.map(|b| b.len())))); }
    }

    fn c14(&self) {
        for v in self.vals(32, 160) { self.ctx.nontriv(); self.size(&v); }
        for v in dom::bad_msgs(self.r, if self.ctx.quick() { 8 } else { 32 }) { self.size(&v); }
        for v in self.longs(true) { self.ctx.nontriv(); self.size(&v); }
    }

    // ---- C18 ------------------------------------------------------------------------------

    fn c18(&self) {
        for v in dom::scale(self.r, dom::LENS, 1) {
            self.ctx.state();
            self.ctx.nontriv();
            let want = encode(self.r, &v);
            let got = self.enc(&v);
            match (&got, &want) {
                (Ok(Ok(b)), Ok(w)) => {
                    if b != w { self.ctx.fail(&self.key("bytes"), || format!("{}: wrong encoding", brief(&v))); }
                    self.ctx.trans();
                    let back = self.dec(b);
                    if back != Ok(Ok((v.clone(), b.len()))) { self.ctx.fail(&self.key("back"), || format!("{} does not read back: {}", brief(&v), match &back { Ok(Ok((x, n))) => format!("{} of {} / {} bytes", brief(x), n, b.len()), e => format!("{:?}", e) })); }
                }
                (Ok(Err(_)), Err(_)) => (),
                _ => self.ctx.fail(&self.key("refuse"), || format!("{}: writing gave {}, expected {}", brief(&v), match &got { Ok(Ok(b)) => format!("{} bytes", b.len()), e => format!("{:?}", e) }, match &want { Ok(w) => format!("{} bytes", w.len()), Err(_) => "an error".into() })),
            }
        }
        self.ctx.sample(|| format!("{}: {:?}", self.name, self.r.fields.iter().map(|f| (&f.name, f.optional)).collect::<Vec<_>>()));
    }
}
