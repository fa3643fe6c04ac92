//! Histories of list and array operations (C17).

use crate::ctx::{hex, Ctx};
use crate::ops::*;
use spec::dom;
use spec::model::*;
use spec::space::Case;
use spec::value::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Op { Push(V), Many(Vec<V>), Edit(bool, u64, bool) }

thread_local! { static LONG: [std::cell::Cell<u32>; 3] = const { [std::cell::Cell::new(0), std::cell::Cell::new(0), std::cell::Cell::new(0)] }; }

enum It<'a> { S(&'a Rc<RStruct>), M(&'a Rc<RMsg>) }

impl It<'_> {
    fn enc(&self, v: &V) -> Result<Vec<u8>, EK> {
        match (self, v) { (It::S(_), V::S(b)) => Ok(b.clone()), (It::M(m), v) => encode(m, v), _ => panic!() }
    }
}

pub fn run(ctx: &Ctx, case: &Case, rp: &[RProto], ops: &CaseOps) {
    let _ = case;
    for (u, uops) in rp.iter().zip(ops.units) {
        for (r, mo) in u.messages.iter().zip(uops.msgs) {
            for (fi, mk) in mo.colls {
                let (pfx, it) = match &r.fields[*fi].ty { RMTy::Arr { pfx, item } => (*pfx, It::S(item)), RMTy::List { pfx, item } => (*pfx, It::M(item)), _ => panic!() };
                let home = dom::msgs(r, 1).into_iter().next().map(|base| Home { r, mo, fi: *fi, base });
                coll(ctx, &format!("{}.{}.{}", u.name, r.name, r.fields[*fi].name), r.end, pfx, &it, *mk, home.as_ref());
            }
        }
    }
}

/// The message a collection is a field of, with the values of its other fields.
struct Home<'a> { r: &'a Rc<RMsg>, mo: &'a MsgOps, fi: usize, base: V }

impl Home<'_> {
    /// The message holding these items, read back from its encoding.
    fn observe(&self, ctx: &Ctx, name: &str, model: &[V], hist: &dyn Fn() -> String) {
        let mut v = self.base.clone();
        let V::M(f) = &mut v else { return };
        let l = V::L(model.to_vec());
        f[self.fi] = if self.r.fields[self.fi].optional { V::Opt(Some(Box::new(l))) } else { l };
        let Ok(bytes) = encode(self.r, &v) else { return };
        let got = ctx.call(|| format!("{} read back", name), || (self.mo.decode)(&bytes));
        if got != Ok(Ok((v, bytes.len()))) { ctx.fail(&format!("{}:read back", name), || format!("history {}: {} items read back as {}", hist(), model.len(), brief(&got))); }
    }
}

fn brief<T: std::fmt::Debug>(v: &T) -> String { let s = format!("{:?}", v); s.chars().take(400).collect() }

fn coll(ctx: &Ctx, name: &str, end: spec::ast::End, pfx: usize, it: &It, mk: fn() -> Box<dyn Coll>, home: Option<&Home>) {
    let (good, bad): (Vec<V>, Vec<V>) = match it {
        It::S(s) => (dom::images(s.size).into_iter().map(V::S).collect(), vec![]),
        It::M(m) => (dom::msgs(m, 3), dom::bad_msgs(m, 2)),
    };
    let mut ops = vec![Op::Push(good[0].clone())];
    if good.len() > 1 { ops.push(Op::Push(good[1].clone())); }
    if good.len() > 2 { ops.push(Op::Push(good[2].clone())); }
    let many: Vec<V> = good.iter().take(2).cloned().collect();
    ops.push(Op::Many(many.clone()));
    for b in &bad { ops.push(Op::Push(b.clone())); }
    if let Some(b) = bad.last() { ops.push(Op::Many(vec![good[0].clone(), b.clone(), good[good.len() - 1].clone()])); }
    if let It::S(s) = it {
        let l = &leaves(s)[0];
        if !matches!(l.f().kind, RKind::Array { .. }) {
            let m = ones(l.f().width);
            ops.push(Op::Edit(false, 0x5A5A_5A5A_5A5A_5A5A & m, false));
            ops.push(Op::Edit(true, m, false));
            ops.push(Op::Edit(true, 1, true));
        }
    }
    ops.push(Op::Many(vec![]));
    let depth = if ctx.quick() { 3 } else { 4 };
    let mut hist = Vec::new();
    go(ctx, name, end, pfx, it, mk, home, &ops, depth, &mut hist);
    // long histories, across the limit of the count prefix: adding may go on or be refused there,
    // but the collection stays what was added and encoding more than the prefix can count is refused
    let limit = if pfx >= 8 { usize::MAX } else { (1usize << (8 * pfx)) - 1 };
    let mut targets = vec![200usize];
    let long = |k: usize, max: u32| !ctx.quick() || LONG.with(|v| v[k].replace(v[k].get() + 1) < max);
    if limit == 255 || limit == 65535 && long(0, 2) { targets.push(limit); }
    if limit > 65535 && long(1 + matches!(it, It::M(_)) as usize, 1) { targets.push(65537); }
    let mut c = mk();
    let mut model = Vec::new();
    let mut k = 0;
    let mut batch = false;
    for t in targets {
        reset();
        while k < t + 3 {
            let v = &good[k % good.len()];
            let before = c.len();
            // single additions and batches of two alternate
            batch = !batch;
            let vs = if batch { vec![v.clone(), good[(k + 1) % good.len()].clone()] } else { vec![v.clone()] };
            let r = ctx.call(|| format!("{} push", name), || if batch { c.push_many(&vs) } else { c.push(v) });
            let added = match r {
                Ok(Ok(())) => vs.len(),
                Ok(Err(_)) if model.len() + vs.len() > limit => c.len().wrapping_sub(before).min(vs.len()),
                _ => { ctx.fail(&format!("{}:push", name), || format!("item {}: {:?}", k, r)); return; }
            };
            model.extend(vs[..added].iter().cloned());
            k += vs.len();
            if k >= t - 2 { observe(ctx, name, end, pfx, it, &mut *c, &model, &|| format!("{} items", k)); if let Some(h) = home { h.observe(ctx, name, &model, &|| format!("{} items", k)); } }
        }
        // every way of changing an item in place, at the far end
        if let It::S(s) = it {
            let l = &leaves(s)[0];
            if matches!(l.f().kind, RKind::Array { .. }) { continue; }
            for (back, iter) in [(1usize, false), (2, true), (1, true), (2, false)] {
                let i = model.len() - back;
                let V::S(img) = &mut model[i] else { panic!() };
                let raw = !l.get(img) & ones(l.f().width);
                let got = ctx.call(|| format!("{} edit", name), || c.edit(i, raw, iter));
                if got != Ok(true) { ctx.fail(&format!("{}:edit", name), || format!("item {} of {}: {:?}", i, model.len(), got)); return; }
                let V::S(img) = &mut model[i] else { panic!() };
                l.set(img, raw);
                observe(ctx, name, end, pfx, it, &mut *c, &model, &|| format!("{} items, the one at {} edited", model.len(), i));
            }
        }
    }
    // building from parts needs exactly the right number of bytes
    if let It::S(s) = it {
        for n in 0..4usize {
            for extra in [-1i64, 0, 1, s.size as i64, -(s.size as i64)] {
                let len = n as i64 * s.size as i64 + extra;
                if len < 0 { continue; }
                let data: Vec<u8> = (0..len).map(|i| i as u8).collect();
                let got = ctx.call(|| format!("{} from_parts", name), || c.parts(&data, n));
                let want: Option<Vec<V>> = if extra == 0 { Some(data.chunks(s.size).map(|x| V::S(x.to_vec())).collect()) } else { None };
                ctx.state();
                if got != Ok(Some(want.clone())) { ctx.fail(&format!("{}:from_parts", name), || format!("{} bytes as {} items: got {:?}, expected {:?}", len, n, got, want)); }
            }
        }
        for n in [usize::MAX, usize::MAX / s.size + 1, usize::MAX / 2 + 1] {
            for len in [0usize, s.size, n.wrapping_mul(s.size) & 0xFFF] {
                let data = vec![0; len];
                let got = ctx.call(|| format!("{} from_parts", name), || c.parts(&data, n));
                if got != Ok(Some(None)) { ctx.fail(&format!("{}:from_parts", name), || format!("{} bytes as {} items: got {:?}, expected None", len, n, got.map(|_| "a value"))); }
            }
        }
    }
    ctx.sample(|| format!("{}: alphabet {:?}, depth {}", name, ops, depth));
}

fn go(ctx: &Ctx, name: &str, end: spec::ast::End, pfx: usize, it: &It, mk: fn() -> Box<dyn Coll>, home: Option<&Home>, ops: &[Op], depth: usize, hist: &mut Vec<Op>) {
    // replay the history on a fresh object; only its last operation is new
    reset();
    let mut c = mk();
    let mut model: Vec<V> = Vec::new();
    let n = hist.len();
    for (k, op) in hist.iter().enumerate() {
        let last = k + 1 == n;
        match op {
            Op::Push(v) => {
                let want = it.enc(v).is_ok();
                let got = ctx.call(|| format!("{} {:?}", name, hist), || c.push(v));
                if last && !matches!((&got, want), (Ok(Ok(())), true) | (Ok(Err(_)), false)) {
                    ctx.fail(&format!("{}:push", name), || format!("history {:?}: got {:?}, expected {}", hist, got, if want { "success" } else { "an error" }));
                    return;
                }
                if want { model.push(v.clone()); }
            }
            Op::Many(vs) => {
                let pre = vs.iter().take_while(|v| it.enc(v).is_ok()).count();
                let before = c.len();
                let got = ctx.call(|| format!("{} {:?}", name, hist), || c.push_many(vs));
                if last && !matches!((&got, pre == vs.len()), (Ok(Ok(())), true) | (Ok(Err(_)), false)) {
                    ctx.fail(&format!("{}:push_many", name), || format!("history {:?}: got {:?}", hist, got));
                    return;
                }
                // a failing batch may keep what was added before the failure, or nothing
                let kept = if pre == vs.len() || c.len() != before { pre } else { 0 };
                model.extend(vs[..kept].iter().cloned());
            }
            Op::Edit(back, raw, iter) => {
                if model.is_empty() { if last { return; } else { continue; } }
                let i = if *back { model.len() - 1 } else { 0 };
                let It::S(s) = it else { panic!() };
                let got = ctx.call(|| format!("{} {:?}", name, hist), || c.edit(i, *raw, *iter));
                if last && got != Ok(true) { ctx.fail(&format!("{}:edit", name), || format!("history {:?}: {:?}", hist, got)); return; }
                let V::S(img) = &mut model[i] else { panic!() };
                leaves(s)[0].set(img, *raw);
            }
        }
    }
    ctx.trans();
    observe(ctx, name, end, pfx, it, &mut *c, &model, &|| format!("{:?}", hist));
    if let Some(h) = home { h.observe(ctx, name, &model, &|| format!("{:?}", hist)); }
    if n == depth { return; }
    for op in ops {
        hist.push(op.clone());
        go(ctx, name, end, pfx, it, mk, home, ops, depth, hist);
        hist.pop();
    }
}

fn observe(ctx: &Ctx, name: &str, end: spec::ast::End, pfx: usize, it: &It, c: &mut dyn Coll, model: &[V], hist: &dyn Fn() -> String) {
    ctx.state();
    if model.len() > 1 { ctx.nontriv(); }
    let n = model.len();
    let len = c.len();
    if len != n { ctx.fail(&format!("{}:len", name), || format!("history {}: {} items, expected {}", hist(), len, n)); return; }
    let got = ctx.call(|| format!("{} iter", name), || c.items(n + 2));
    if got.as_deref() != Ok(model) { ctx.fail(&format!("{}:iter", name), || format!("history {}: got {:?}, expected {:?}", hist(), got, model)); }
    if let Ok(Some(v)) = ctx.call(|| format!("{} iter_offsets", name), || c.items_offs(n + 2)) {
        let ok = v.len() == n && v.iter().zip(model).all(|((x, o), m)| {
            let It::M(mm) = it else { panic!() };
            x == m && encode_offs(mm, m).map(|e| e.1 == *o).unwrap_or(false)
        });
        if !ok { ctx.fail(&format!("{}:iter_offsets", name), || format!("history {}: got {:?}, expected {:?}", hist(), v, model)); }
    } else if let It::M(_) = it { ctx.fail(&format!("{}:iter_offsets", name), || format!("history {}: panicked", hist())); }
    if let It::S(_) = it {
        for (i, m) in model.iter().enumerate() {
            let got = ctx.call(|| format!("{} get", name), || c.get(i));
            if got != Ok(Some(m.clone())) { ctx.fail(&format!("{}:get", name), || format!("history {} item {}: got {:?}, expected {:?}", hist(), i, got, m)); }
        }
        let got = ctx.call(|| format!("{} iter_mut", name), || c.items_mut());
        if got != Ok(Some(model.to_vec())) { ctx.fail(&format!("{}:iter_mut", name), || format!("history {}: got {:?}, expected {:?}", hist(), got, model)); }
        for i in [n, n + 1, usize::MAX] {
            let got = ctx.call(|| format!("{} get", name), || c.get(i));
            if got.is_ok() { ctx.fail(&format!("{}:get", name), || format!("history {} item {} beyond the end: got {:?}", hist(), i, got)); }
        }
    }
    if pfx < 8 && n as u64 > ones(8 * pfx as u64) {
        let got = ctx.call(|| format!("{} encode", name), || c.encode());
        if !matches!(got, Ok(Err(_))) { ctx.fail(&format!("{}:encode", name), || format!("history {}: {} items do not fit the prefix of {} byte(s), got {:?}", hist(), n, pfx, got.map(|r| r.map(|b| b.len())))); }
        return;
    }
    let mut want = vec![0; pfx];
    set_item(&mut want, end, 0, pfx, n as u64);
    for m in model { want.extend(it.enc(m).unwrap()); }
    let got = ctx.call(|| format!("{} encode", name), || c.encode());
    if got != Ok(Ok(want.clone())) { ctx.fail(&format!("{}:encode", name), || format!("history {}: got {:?}, expected {}", hist(), got, hex(&want))); }
}
