//! Structures: layout, field access, views, arrays, nesting.

use crate::ctx::{hex, Ctx};
use crate::ops::*;
use spec::dom;
use spec::model::*;
use spec::space::Case;
use spec::value::*;
use std::collections::HashSet;
use std::rc::Rc;

struct X<'a> { ctx: &'a Ctx, name: String, r: &'a Rc<RStruct>, ops: &'a StructOps, leaves: Vec<Leaf>, unit: &'a RProto, uops: &'a UnitOps }

pub fn run(ctx: &Ctx, case: &Case, rp: &[RProto], ops: &CaseOps) {
    let _ = case;
    for (u, uops) in rp.iter().zip(ops.units) {
        for (r, so) in u.structs.iter().zip(uops.structs) {
            let x = X { ctx, name: format!("{}.{}", u.name, r.name), r, ops: so, leaves: leaves(r), unit: u, uops };
            assert_eq!(x.leaves.len(), so.leaves.len());
            match &*ctx.prop {
                "C01" => x.c01(),
                "C02" => x.c02(),
                "C03" => x.c03(),
                "C04" => x.c04(),
                "C05" => x.c05(),
                "C06" => x.c06(),
                "C07" => x.c07(),
                "C10" => x.c10(),
                "C15" => x.c15(),
                "C22" => { x.sizes(); x.patterns(); x.views(6); }
                _ => (),
            }
        }
    }
}

fn path(l: &Leaf) -> String { l.names.join(".") }

fn as_f64(v: &V) -> f64 {
    match v { V::F32(b) => f32::from_bits(*b) as f64, V::F64(b) => f64::from_bits(*b), _ => f64::NAN }
}

impl<'a> X<'a> {
    fn huge(&self) -> bool { self.r.size > 2000 }

    /// The bit positions varied one by one: all of them, or those at the ends of a huge structure.
    fn bits(&self) -> Vec<usize> {
        let n = self.r.size;
        (0..n * 8).filter(|k| !self.huge() || *k < 128 || *k + 800 > n * 8 || k.abs_diff(65536 * 8) < 64 || k.abs_diff(65536) < 16).collect()
    }

    fn key(&self, l: &Leaf, what: &str) -> String { format!("{}.{}:{}", self.name, path(l), what) }

    fn get_raw(&self, i: usize, img: &[u8]) -> Option<u64> {
        let LeafOps::Fixed { get_raw, .. } = &self.ops.leaves[i] else { return None };
        let r = self.ctx.call(|| format!("{}.get_raw_{} on {}", self.name, path(&self.leaves[i]), hex(img)), || get_raw(img));
        match r {
            Ok(v) => Some(v),
            Err(e) => { self.ctx.fail(&self.key(&self.leaves[i], "get_raw"), || format!("get_raw on {}: {}", hex(img), e)); None }
        }
    }

    /// Every reader of every leaf agrees with the model on `img`. `views`: also the typed getters.
    fn check_reads(&self, img: &[u8], views: bool) {
        for (i, l) in self.leaves.iter().enumerate() {
            match &self.ops.leaves[i] {
                LeafOps::Fixed { get, .. } => {
                    let want = l.get(img);
                    if let Some(got) = self.get_raw(i, img) {
                        if got != want {
                            self.ctx.fail(&self.key(l, "get_raw"), || format!("raw read of {} in image {}: got {:#x}, expected {:#x}", path(l), hex(img), got, want));
                        }
                    }
                    let RKind::Fixed { view, .. } = &l.f().kind else { panic!() };
                    if views && !matches!(view, RView::Range(..) | RView::Mult(..)) {
                        let want = l.view(img);
                        let got = self.ctx.call(|| format!("{}.get_{} on {}", self.name, path(l), hex(img)), || get(img));
                        if got.as_ref() != Ok(&want) {
                            self.ctx.fail(&self.key(l, "get"), || format!("typed read of {} in image {}: got {:?}, expected {:?}", path(l), hex(img), got, want));
                        }
                    }
                }
                LeafOps::Arr { .. } => self.check_array(i, img),
            }
        }
    }

    fn check_array(&self, i: usize, img: &[u8]) {
        let l = &self.leaves[i];
        let LeafOps::Arr { len, get, iter, get_mut, bytes, .. } = &self.ops.leaves[i] else { panic!() };
        let RKind::Array { len: n, .. } = &l.f().kind else { panic!() };
        let want: Vec<V> = (0..*n).map(|k| l.get_item(img, k)).collect();
        let c = self.ctx;
        let what = || format!("{}.{} array read on {}", self.name, path(l), hex(img));
        let got = c.call(what, || len(img));
        if got != Ok(*n as usize) { c.fail(&self.key(l, "len"), || format!("len: got {:?}, expected {}", got, n)); }
        let got = c.call(what, || iter(img));
        if got.as_ref() != Ok(&want) { c.fail(&self.key(l, "iter"), || format!("iteration on {}: got {:?}, expected {:?}", hex(img), got, want)); }
        for k in 0..*n as usize {
            if *n > 32 && k > 3 && k + 3 < *n as usize && k % 61 != 0 { continue; }
            let got = c.call(what, || get(img, k));
            if got.as_ref() != Ok(&want[k]) { c.fail(&self.key(l, "get"), || format!("item {} on {}: got {:?}, expected {:?}", k, hex(img), got, want[k])); }
            let mut copy = img.to_vec();
            let got = c.call(what, || get_mut(&mut copy, k));
            if got.as_ref() != Ok(&want[k]) || copy != img { c.fail(&self.key(l, "get_mut"), || format!("item {} through the mutable accessor on {}: got {:?}, expected {:?}", k, hex(img), got, want[k])); }
        }
        if let Some((r, _)) = bytes {
            let got = c.call(what, || r(img));
            let want: Vec<u8> = want.iter().map(|v| v_to_raw(v) as u8).collect();
            if got.as_ref() != Ok(&want) { c.fail(&self.key(l, "as_ref"), || format!("byte view: got {:?}, expected {:?}", got, want)); }
        }
    }

    /// The values to write to leaf `i` as (raw setter argument or typed value, raw value stored).
    fn writes(&self, i: usize) -> Vec<(Option<V>, u64, u64)> {
        let f = self.leaves[i].f();
        let RKind::Fixed { kind, view } = &f.kind else { return vec![] };
        let cb = match kind { Kind::Bool => carrier_bytes(Kind::Unsigned, f.width), k => carrier_bytes(*k, f.width).max(carrier_bytes(Kind::Unsigned, f.width)) } * 8;
        let cb = if matches!(kind, Kind::Float) { carrier_bytes(Kind::Unsigned, f.width) * 8 } else { cb };
        let ws = dom::writes(f.width, cb);
        let mut out: Vec<(Option<V>, u64, u64)> = ws.iter().map(|w| (None, *w, *w & ones(f.width))).collect();
        match view {
            RView::None => match kind {
                Kind::Bool => { out.push((Some(V::B(true)), 0, 1)); out.push((Some(V::B(false)), 0, 0)); }
                Kind::Float => for w in ws { out.push((Some(item_to_v(*kind, f.width, w)), 0, w & ones(f.width))); },
                Kind::Signed => for w in ws { out.push((Some(V::Int(sign(w, cb))), 0, w & ones(f.width))); },
                Kind::Unsigned => for w in ws { out.push((Some(V::Int(w as i128)), 0, w & ones(f.width))); },
            },
            RView::Enum(e) => for (k, (_, v)) in e.variants.iter().enumerate() { out.push((Some(V::Int(k as i128)), 0, *v)); },
            _ => (),
        }
        out
    }

    /// Performs one write and compares the whole buffer with the model.
    fn write(&self, i: usize, img: &[u8], w: &(Option<V>, u64, u64), what: &str) -> Option<Vec<u8>> {
        let l = &self.leaves[i];
        let LeafOps::Fixed { set_raw, set, .. } = &self.ops.leaves[i] else { return None };
        let mut want = img.to_vec();
        l.set(&mut want, w.2);
        let mut got = img.to_vec();
        self.ctx.trans();
        let r = self.ctx.call(|| format!("{}.set {} to {:?} on {}", self.name, path(l), w, hex(img)), || match &w.0 { None => set_raw(&mut got, w.1), Some(v) => set(&mut got, v) });
        if r.is_err() || got != want {
            let k = if w.0.is_some() { "set" } else { "set_raw" };
            self.ctx.fail(&self.key(l, k), || format!("{}: writing {} to {} in {}: got {} {:?}, expected {}", what,
                w.0.as_ref().map(|v| format!("{:?}", v)).unwrap_or(format!("raw {:#x}", w.1)), path(l), hex(img), hex(&got), r.err(), hex(&want)));
            return None;
        }
        Some(want)
    }

    // ---- C01 ------------------------------------------------------------------------------

    fn c01(&self) {
        let n = self.leaves.len();
        let depth = if self.huge() { 1 } else if n <= 3 { 3 } else if n <= 12 || !self.ctx.quick() { 2 } else { 1 };
        let ws: Vec<Vec<(Option<V>, u64, u64)>> = (0..n).map(|i| self.writes(i)).collect();
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut frontier: Vec<Vec<u8>> = dom::images(self.r.size);
        let cap = if self.ctx.quick() { 20_000 } else { 2_000_000 };
        'walk: for d in 0..=depth {
            let mut next = Vec::new();
            for img in &frontier {
                if !seen.insert(img.clone()) { continue; }
                if seen.len() > cap { break 'walk; }
                self.ctx.state();
                self.ctx.nontriv();
                self.check_reads(img, true);
                if d == depth { continue; }
                for i in 0..n {
                    for w in &ws[i] {
                        if let Some(x) = self.write(i, img, w, "field write") { if !seen.contains(&x) { next.push(x); } }
                    }
                    if let LeafOps::Arr { .. } = &self.ops.leaves[i] { self.arr_writes(i, img, &mut next); }
                }
            }
            frontier = next;
        }
        // values written on a stack buffer, and through a buffer longer than the structure
        for i in 0..n {
            let l = &self.leaves[i];
            if let LeafOps::Fixed { stack, .. } = &self.ops.leaves[i] {
                for w in ws[i].iter().filter(|w| w.0.is_none()) {
                    let mut want = vec![0; self.r.size];
                    l.set(&mut want, w.2);
                    let got = self.ctx.call(|| "stack".into(), || stack(w.1));
                    if got.as_ref() != Ok(&want) { self.ctx.fail(&self.key(l, "stack"), || format!("raw {:#x} on a stack buffer: got {:?}, expected {:?}", w.1, got, want)); }
                }
            }
            for img in dom::images(self.r.size + 9) {
                for w in &ws[i] { self.write(i, &img, w, "longer buffer"); }
                self.check_reads(&img, true);
            }
        }
        // every single-bit image (and complement) is read and written over
        for k in self.bits() {
            for inv in [0u8, 0xFF] {
                let mut img = vec![inv; self.r.size];
                img[k / 8] ^= 1 << (k % 8);
                self.ctx.state();
                self.check_reads(&img, false);
                for i in 0..n { for w in ws[i].iter().filter(|w| w.0.is_none()) { self.write(i, &img, w, "single bit"); } }
            }
        }
        self.ctx.sample(|| format!("{}: {} fields, {} distinct images, write alphabet of field 0 {:?}", self.name, n, seen.len(), ws.first()));
    }

    fn arr_values(&self, i: usize) -> Vec<V> {
        let RKind::Array { kind, item_bits, .. } = &self.leaves[i].f().kind else { panic!() };
        let m = ones(*item_bits);
        let mut v: Vec<V> = match kind {
            Kind::Bool => vec![V::B(true), V::B(false)],
            _ => [0x0123_4567_89AB_CDEFu64 & m, m, 0, 1 << (item_bits - 1), 1].iter().map(|r| item_to_v(*kind, *item_bits, *r)).collect(),
        };
        v.dedup();
        v
    }

    fn arr_writes(&self, i: usize, img: &[u8], next: &mut Vec<Vec<u8>>) {
        let l = &self.leaves[i];
        let LeafOps::Arr { set, bytes, .. } = &self.ops.leaves[i] else { panic!() };
        let RKind::Array { len: n, .. } = &l.f().kind else { panic!() };
        let idx: Vec<u64> = if *n <= 16 { (0..*n).collect() } else { vec![0, 1, n / 2, 255.min(n - 3), 256.min(n - 2), n - 2, n - 1] };
        for k in idx {
            for v in self.arr_values(i) {
                let mut want = img.to_vec();
                l.set_item(&mut want, k, &v);
                let mut got = img.to_vec();
                self.ctx.trans();
                let r = self.ctx.call(|| format!("{}.{}[{}] = {:?} on {}", self.name, path(l), k, v, hex(img)), || set(&mut got, k as usize, &v));
                if r.is_err() || got != want {
                    self.ctx.fail(&self.key(l, "set"), || format!("writing {:?} to item {} in {}: got {} {:?}, expected {}", v, k, hex(img), hex(&got), r.err(), hex(&want)));
                } else { next.push(want); }
            }
            if let Some((_, w)) = bytes {
                let mut want = img.to_vec();
                l.set_item(&mut want, k, &V::Int(0xC3));
                let mut got = img.to_vec();
                self.ctx.trans();
                let r = self.ctx.call(|| "byte view".into(), || w(&mut got, k as usize, 0xC3));
                if r.is_err() || got != want { self.ctx.fail(&self.key(l, "as_mut"), || format!("byte view write at {} in {}: got {}, expected {}", k, hex(img), hex(&got), hex(&want))); }
            }
        }
    }

    // ---- C02 ------------------------------------------------------------------------------

    fn sizes(&self) {
        let (c, n) = (self.ctx, self.r.size);
        let key = |w: &str| format!("{}:{}", self.name, w);
        c.state();
        if self.ops.size_const != n { c.fail(&key("SIZE const"), || format!("constant {} expected {}", self.ops.size_const, n)); }
        if self.ops.fixed_size != n { c.fail(&key("FixedSize"), || format!("trait size {} expected {}", self.ops.fixed_size, n)); }
        let got = c.call(|| "size()".into(), || (self.ops.size_of)());
        if got != Ok(n) { c.fail(&key("size()"), || format!("{:?} expected {}", got, n)); }
        let got = c.call(|| "stack".into(), || (self.ops.stack)());
        if got != Ok(vec![0; n]) { c.fail(&key("new_on_stack"), || format!("{:?} expected {} zero bytes", got, n)); }
        for img in dom::images(n + 5) {
            for len in 0..=n + 5 {
                if self.huge() && len > 8 && len + 8 < n && len % 1021 > 1 { continue; }
                c.trans();
                let got = c.call(|| format!("{}::from_slice of {} bytes", self.name, len), || (self.ops.from_slice)(&img[..len]));
                let want = if len < n { Err(EK::Trunc) } else { Ok((n, img[..n].to_vec())) };
                if got.as_ref() != Ok(&want) { c.fail(&key("from_slice"), || format!("{} bytes: got {:?}, expected {:?}", len, got, want)); }
                if len >= n {
                    let mut out = Vec::new();
                    let r = c.call(|| format!("{}::write_to", self.name), || (self.ops.write)(&img[..len], &mut out));
                    if r != Ok(Ok(())) || out != img[..n] { c.fail(&key("write_to"), || format!("buffer of {} bytes: got {:?} {}, expected {}", len, r, hex(&out), hex(&img[..n]))); }
                }
            }
        }
    }

    fn patterns(&self) {
        for img in dom::images(self.r.size) { self.ctx.state(); self.check_reads(&img, true); }
        for k in self.bits() {
            for inv in [0u8, 0xFF] {
                let mut img = vec![inv; self.r.size];
                img[k / 8] ^= 1 << (k % 8);
                self.ctx.state();
                self.ctx.nontriv();
                self.check_reads(&img, false);
            }
        }
        for (i, l) in self.leaves.iter().enumerate() {
            for bg in dom::images(self.r.size) {
                match &self.ops.leaves[i] {
                    LeafOps::Fixed { .. } => {
                        let w = l.f().width;
                        for k in 0..w { for v in [1u64 << k, ones(w) & !(1u64 << k), ones(w)] { self.write(i, &bg, &(None, v, v), "walking bit"); } }
                    }
                    LeafOps::Arr { .. } => self.arr_writes(i, &bg, &mut Vec::new()),
                }
            }
        }
    }

    fn c02(&self) {
        self.sizes();
        self.patterns();
        self.ctx.sample(|| format!("{}: {} bits, {} bytes, {:?} endian, fields {:?}", self.name, self.r.bits, self.r.size, self.r.end,
            self.leaves.iter().map(|l| (path(l), l.base as u64 * 8 + l.f().off, l.f().width)).collect::<Vec<_>>()));
    }

    // ---- C03 / C04 ------------------------------------------------------------------------

    fn views(&self, full: u64) {
        for (i, l) in self.leaves.iter().enumerate() {
            let LeafOps::Fixed { get, .. } = &self.ops.leaves[i] else { continue };
            let f = l.f();
            let RKind::Fixed { kind, view } = &f.kind else { continue };
            if matches!(view, RView::Range(..) | RView::Mult(..)) { continue; }
            let mut raws = dom::raws(f.width, full);
            if let RView::Enum(e) = view {
                for (_, v) in &e.variants { for d in [v.wrapping_sub(1), *v, v.wrapping_add(1)] { raws.push(d & ones(f.width)); } }
                // values equal to a variant after losing bits of a byte, half word or word
                for (_, v) in &e.variants { for k in 0..f.width { raws.push(v ^ (1 << k)); } }
            }
            raws.sort();
            raws.dedup();
            for bg in [vec![0u8; self.r.size], vec![0xFF; self.r.size]] {
                for raw in &raws {
                    let mut img = bg.clone();
                    l.set(&mut img, *raw);
                    self.ctx.state();
                    self.ctx.nontriv();
                    let want = view_get(f, *raw);
                    let got = self.ctx.call(|| format!("{}.get_{} raw {:#x}", self.name, path(l), raw), || get(&img));
                    if got.as_ref() != Ok(&want) { self.ctx.fail(&self.key(l, "get"), || format!("raw {:#x} ({} bits {:?}): got {:?}, expected {:?}", raw, f.width, kind, got, want)); }
                    if matches!(view, RView::None) && (*kind != Kind::Bool || *raw <= 1) { self.write(i, &bg, &(Some(want), 0, *raw), "typed write"); }
                }
                if let RView::Enum(e) = view {
                    for (k, (_, v)) in e.variants.iter().enumerate() { self.write(i, &bg, &(Some(V::Int(k as i128)), 0, *v), "variant write"); }
                }
            }
        }
    }

    fn c03(&self) {
        self.views(if self.ctx.quick() { 12 } else { 16 });
        self.ctx.sample(|| format!("{}: {:?}", self.name, self.leaves.iter().map(|l| (path(l), l.f().width, format!("{:?}", l.f().kind))).collect::<Vec<_>>()));
    }

    fn c04(&self) {
        self.views(if self.ctx.quick() { 12 } else { 16 });
        self.ctx.sample(|| format!("{}: {:?}", self.name, self.leaves.iter().map(|l| (path(l), l.f().width, format!("{:?}", l.f().kind))).collect::<Vec<_>>()));
    }

    // ---- C05 ------------------------------------------------------------------------------

    fn c05(&self) {
        for (i, l) in self.leaves.iter().enumerate() {
            let LeafOps::Fixed { get, set, get_raw, .. } = &self.ops.leaves[i] else { continue };
            let f = l.f();
            let RKind::Fixed { kind: Kind::Float, view } = &f.kind else { continue };
            let (c, w) = (self.ctx, f.width);
            let full = if c.quick() { 11 } else { 15 };
            let max_raw = ones(w);
            let probe = c.call(|| "get".into(), || get(&vec![0u8; self.r.size]));
            let eps = match probe { Ok(V::F32(_)) => f32::EPSILON as f64, _ => f64::EPSILON };
            let (lo, hi, step) = match view {
                RView::Range(a, b) => (*a, *b, (b - a) / max_raw as f64),
                RView::Mult(m) => ((m * max_raw as f64).min(0.0), (m * max_raw as f64).max(0.0), *m),
                _ => {
                    // plain floats: bit-exact
                    for raw in dom::raws(w, 0).into_iter().chain([0x7FC0_0001, 0x7F80_0001, 0xFF80_0000, 0x7FF0_0000_0000_0001 & max_raw, 0x3F80_0000]) {
                        for bg in [0u8, 0xFF] {
                            let bg = vec![bg; self.r.size];
                            c.state();
                            let v = item_to_v(Kind::Float, w, raw);
                            if let Some(img) = self.write(i, &bg, &(Some(v.clone()), 0, raw), "float write") {
                                let got = c.call(|| "get".into(), || get(&img));
                                if got.as_ref() != Ok(&v) { c.fail(&self.key(l, "plain"), || format!("{:#x}: got {:?}, expected {:?}", raw, got, v)); }
                            }
                        }
                    }
                    continue;
                }
            };
            let scale = lo.abs() + hi.abs() + (hi - lo).abs();
            let read = |raw: u64| -> Option<f64> {
                let mut img = vec![0xA5u8; self.r.size];
                l.set(&mut img, raw);
                match c.call(|| format!("{}.get_{} raw {:#x}", self.name, path(l), raw), || get(&img)) {
                    Ok(v) => Some(as_f64(&v)),
                    Err(e) => { c.fail(&self.key(l, "get"), || format!("raw {:#x}: {}", raw, e)); None }
                }
            };
            // for a multiplier the error of r*m is relative to r*m
            let tol = |x: f64| match view { RView::Mult(_) => 8.0 * eps * x.abs(), _ => 16.0 * eps * scale };
            let mut prev: Option<(u64, f64)> = None;
            for raw in dom::raws(w, full) {
                c.state();
                c.nontriv();
                let Some(x) = read(raw) else { continue };
                let want = match view {
                    RView::Range(..) if raw == 0 => lo,
                    RView::Range(..) if raw == max_raw => hi,
                    RView::Range(..) => lo + raw as f64 * step,
                    _ => raw as f64 * step,
                };
                if !((x - want).abs() <= tol(want)) { c.fail(&self.key(l, "affine"), || format!("{:?} width {}: raw {:#x} reads {:e}, expected {:e} (tolerance {:e})", view, w, raw, x, want, tol(want))); }
                if let Some((pr, p)) = prev { if (x - p) * step < 0.0 { c.fail(&self.key(l, "monotone"), || format!("{:?} width {}: raw {:#x} reads {:e} but raw {:#x} reads {:e}", view, w, pr, p, raw, x)); } }
                prev = Some((raw, x));
            }
            // values to write: the grid, both ends, and the reading of each raw value and points between
            let mut vals: Vec<f64> = (0..=64).map(|k| lo + (hi - lo) * k as f64 / 64.0).collect();
            vals[64] = hi;
            for raw in dom::raws(w, full.min(8)) {
                if let Some(x) = read(raw) { vals.push(x); if let RView::Range(..) = view { for d in [0.25, 0.5, 0.75, 0.999] { vals.push(x + d * step); } } }
            }
            if let RView::Mult(m) = view { vals = dom::raws(w, full).into_iter().map(|r| r as f64 * m).collect(); }
            for v in vals {
                let v = match probe { Ok(V::F32(_)) => v as f32 as f64, _ => v };
                if !(v >= lo && v <= hi) { continue; }
                for bg in [0u8, 0xFF] {
                    let img = vec![bg; self.r.size];
                    let mut got = img.clone();
                    c.state();
                    c.trans();
                    let r = c.call(|| format!("{}.set_{}({:e})", self.name, path(l), v), || set(&mut got, &V::F64(v.to_bits())));
                    if let Err(e) = r { c.fail(&self.key(l, "set"), || format!("{:?} width {}: writing {:e}: {}", view, w, v, e)); continue; }
                    let mut want = img.clone();
                    l.set(&mut want, l.get(&got));
                    if want != got { c.fail(&self.key(l, "spill"), || format!("writing {:e} changed other bits: {} -> {}", v, hex(&img), hex(&got))); }
                    let raw = get_raw(&got);
                    if let Some(x) = read(raw) {
                        let t = step.abs() * (1.0 + 1e-6) + 2.0 * tol(v.abs().max(x.abs()));
                        if !((x - v).abs() <= t) { c.fail(&self.key(l, "write-read"), || format!("{:?} width {}: wrote {:e}, read back {:e} (raw {:#x}), more than one step {:e}", view, w, v, x, raw, step)); }
                    }
                }
            }
            c.sample(|| format!("{}.{}: {:?} on {} bits, step {:e}", self.name, path(l), view, w, step));
        }
    }

    // ---- C06 ------------------------------------------------------------------------------

    fn c06(&self) {
        let depth = 2;
        let n = self.leaves.len();
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut frontier = dom::images(self.r.size);
        let cap = if self.ctx.quick() { 3_000 } else { 30_000 };
        'bfs: for d in 0..=depth {
            let mut next = Vec::new();
            for img in &frontier {
                if !seen.insert(img.clone()) { continue; }
                if seen.len() > cap { break 'bfs; }
                self.ctx.state();
                self.ctx.nontriv();
                self.check_reads(img, false);
                if d == depth || (self.r.size > 200 && d == 1) { continue; }
                for i in 0..n {
                    match &self.ops.leaves[i] {
                        LeafOps::Arr { .. } => self.arr_writes(i, img, &mut next),
                        LeafOps::Fixed { .. } => for w in self.writes(i).iter().filter(|w| w.0.is_none()) { if let Some(x) = self.write(i, img, w, "neighbour write") { next.push(x); } },
                    }
                }
            }
            frontier = next;
        }
        for i in 0..n {
            let l = &self.leaves[i];
            let LeafOps::Arr { get, set, get_mut, .. } = &self.ops.leaves[i] else { continue };
            let RKind::Array { len, .. } = &l.f().kind else { panic!() };
            let len = *len as usize;
            for k in [len, len + 1, len + 2, 2 * len, len + 7, 255, 256, 65536, 1 << 32, usize::MAX / 8, usize::MAX / 8 + 1, usize::MAX / 4 + 1, usize::MAX / 2 + 1, usize::MAX / 3 + 1, usize::MAX - 1, usize::MAX] {
                if k < len { continue; }
                for img in dom::images(self.r.size + 64) {
                    self.ctx.trans();
                    let r = self.ctx.call(|| "get".into(), || get(&img, k));
                    if let Ok(v) = r { self.ctx.fail(&self.key(l, "oob get"), || format!("reading item {} of {} returned {:?}", k, len, v)); }
                    let mut copy = img.clone();
                    let r = self.ctx.call(|| "get".into(), || get_mut(&mut copy, k));
                    if let Ok(v) = r { self.ctx.fail(&self.key(l, "oob get"), || format!("reading item {} of {} through the mutable accessor returned {:?}", k, len, v)); }
                    for v in self.arr_values(i) {
                        let mut copy = img.clone();
                        let r = self.ctx.call(|| "set".into(), || set(&mut copy, k, &v));
                        if r.is_ok() || copy != img { self.ctx.fail(&self.key(l, "oob set"), || format!("writing item {} of {}: {:?}, buffer {} -> {}", k, len, r, hex(&img), hex(&copy))); }
                    }
                }
            }
        }
        self.ctx.sample(|| format!("{}: {} distinct images of {:?}", self.name, seen.len(), self.leaves.iter().map(|l| (path(l), format!("{:?}", l.f().kind))).collect::<Vec<_>>()));
    }

    // ---- C07 ------------------------------------------------------------------------------

    fn window(&self, p: &[usize]) -> (usize, Rc<RStruct>) {
        let mut s = self.r.clone();
        let mut base = 0;
        for i in p {
            let RKind::Nested(r) = &s.fields[*i].kind else { panic!() };
            base += (s.fields[*i].off / 8) as usize;
            let r = r.clone();
            s = r;
        }
        (base, s)
    }

    fn c07(&self) {
        let c = self.ctx;
        let mut imgs = dom::images(self.r.size);
        let mut at: Vec<usize> = self.bits().into_iter().map(|k| k / 8).collect();
        at.dedup();
        for k in at { let mut i = vec![0; self.r.size]; i[k] = 0xFF; imgs.push(i); let mut i = vec![0xFF; self.r.size]; i[k] = 0; imgs.push(i); }
        for sub in self.ops.subs {
            let (base, r) = self.window(sub.path);
            for img in &imgs {
                c.state();
                c.nontriv();
                let want = img[base..base + r.size].to_vec();
                let got = c.call(|| format!("{} nested {:?}", self.name, sub.path), || (sub.get)(img));
                if got.as_ref() != Ok(&want) { c.fail(&format!("{}:{:?}:get", self.name, sub.path), || format!("nested bytes {:?}, expected {}", got, hex(&want))); }
                let mut copy = img.clone();
                let got = c.call(|| format!("{} nested {:?}", self.name, sub.path), || (sub.get_mut)(&mut copy));
                if got.as_ref() != Ok(&want) || copy != *img { c.fail(&format!("{}:{:?}:get_mut", self.name, sub.path), || format!("nested bytes {:?}, expected {}", got, hex(&want))); }
            }
        }
        for img in &imgs { self.check_reads(img, true); }
        for (i, l) in self.leaves.iter().enumerate() {
            for img in imgs.iter().take(3) {
                let mut next = Vec::new();
                match &self.ops.leaves[i] {
                    LeafOps::Fixed { .. } => {
                        for w in self.writes(i) { if let Some(x) = self.write(i, img, &w, "nested write") { next.push(x); } }
                        for k in 0..l.f().width { let v = 1u64 << k; if let Some(x) = self.write(i, img, &(None, v, v), "nested write") { next.push(x); } }
                    }
                    LeafOps::Arr { .. } => self.arr_writes(i, img, &mut next),
                }
                for x in next { c.state(); self.check_reads(&x, true); }
            }
            // same operations on the inner structure alone
            if l.path.len() > 1 {
                let (base, r) = self.window(&l.path[..1]);
                let Some(k) = self.unit.structs.iter().position(|s| Rc::ptr_eq(s, &r)) else { continue };
                let inner = leaves(&r);
                let j = inner.iter().position(|x| x.path == l.path[1..]).unwrap();
                if let (LeafOps::Fixed { set_raw, get_raw, .. }, LeafOps::Fixed { set_raw: iset, get_raw: iget, .. }) = (&self.ops.leaves[i], &self.uops.structs[k].leaves[j]) {
                    for img in imgs.iter().take(3) {
                        for v in dom::raws(l.f().width, 4) {
                            let mut a = img.clone();
                            let mut b = img[base..base + r.size].to_vec();
                            c.trans();
                            let res = c.call(|| format!("{} nested {:?}", self.name, l.path), || { set_raw(&mut a, v); iset(&mut b, v); (get_raw(&a), iget(&b)) });
                            let same = matches!(&res, Ok((x, y)) if x == y) && a[base..base + r.size] == b[..] && a[..base] == img[..base] && a[base + r.size..] == img[base + r.size..];
                            if !same { c.fail(&self.key(l, "standalone"), || format!("raw {:#x}: nested {} {:?}, alone {}", v, hex(&a), res, hex(&b))); }
                        }
                    }
                }
            }
        }
        c.sample(|| format!("{}: windows {:?}", self.name, self.ops.subs.iter().map(|s| (s.path, self.window(s.path).0, self.window(s.path).1.size)).collect::<Vec<_>>()));
    }

    // ---- C10 / C15 ------------------------------------------------------------------------

    fn c10(&self) {
        let n = self.r.size;
        for img in dom::images(n + 3) {
            for len in 0..=n + 3 {
                self.ctx.state();
                let r = self.ctx.call(|| format!("{}::from_slice of {} bytes", self.name, len), || (self.ops.from_slice)(&img[..len]));
                match r {
                    Err(e) => self.ctx.fail(&format!("{}:from_slice", self.name), || format!("{} bytes: {}", len, e)),
                    Ok(Ok((size, _))) if size > len => self.ctx.fail(&format!("{}:size", self.name), || format!("size {} out of {} bytes", size, len)),
                    Ok(Ok(_)) => for (i, l) in self.leaves.iter().enumerate() {
                        let r = match &self.ops.leaves[i] {
                            LeafOps::Fixed { get_raw, get, .. } => self.ctx.call(|| format!("{}.{}", self.name, path(l)), || { get_raw(&img[..len]); get(&img[..len]); false }),
                            LeafOps::Arr { len: al, iter, .. } => self.ctx.call(|| format!("{}.{}", self.name, path(l)), || { al(&img[..len]); iter(&img[..len]).contains(&V::Runaway) }),
                        };
                        if r != Ok(false) { self.ctx.fail(&self.key(l, "read"), || format!("reading from {} bytes: {:?}", len, r)); }
                    },
                    Ok(Err(_)) => (),
                }
            }
        }
    }

    fn c15(&self) {
        let img = &dom::images(self.r.size)[0];
        crate::ex_io::faults(self.ctx, &format!("{}:write_to", self.name), img, 2, |w| (self.ops.write)(img, w));
    }
}
