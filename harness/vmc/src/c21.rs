//! C21: the same schemas give the same files, whatever the process, its hash seed, its clock and
//! surroundings, the order of work and what was generated before.

use crate::c23::shape;
use crate::compile::{compile, Out as COut};
use crate::shards::case_input;
use crate::util::*;
use crate::worker::{self, Out, Spawn};
use bp3d_protoc::{gen::GeneratorRust, util::SimpleImportSolver, Loader};
use serde_json::json;
use spec::ast::proto;
use spec::mutate;
use spec::space::{cases, Case, Expect, Tier};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::Command;

fn procs(o: &Opts) -> usize { if o.thorough { 256 } else { 32 } }

fn space(o: &Opts) -> Vec<Case> {
    let t = if o.thorough { Tier::Thorough } else { Tier::Quick };
    let mut v: Vec<Case> = ["C20", "C22"].iter().flat_map(|p| cases(p, t)).collect();
    // many items of each kind, so that any unordered map is seen in many orders
    v.push(Case { id: 0, label: "many items".into(), expect: Expect::Any, units: vec![many()] });
    for (n, b) in mutate::bases() { v.push(Case { id: 0, label: n.to_string(), expect: Expect::Any, units: b }); }
    for (i, c) in v.iter_mut().enumerate() { c.id = i; }
    v
}

fn many() -> spec::ast::Proto {
    use spec::ast::*;
    let mut p = proto("many");
    let vars: Vec<(String, u64)> = (0..6).map(|i| (format!("V{}", (i * 5) % 6), i as u64)).collect();
    for i in 0..5 { p.enums.push(EnumD { name: format!("E{}", (i * 3) % 5), variants: vars.clone() }); }
    for i in 0..5 { p.structs.push(st(format!("S{}", (i * 2) % 5), vec![sfv("a", STy::Unsigned(8), View::Enum(format!("E{}", i))), sf("b", STy::Unsigned(8)), sfv("c", STy::Float(16), View::Range(-1.0, 1.0))])); }
    for i in 0..5 { p.unions.push(un(format!("U{}", (i * 4) % 5), &format!("S{}.b", i), &[("x", "1", Some("S0")), ("y", "2", Some("S1")), ("z", "3", None), ("w", "4", Some("S2"))])); }
    for i in 0..5 { p.messages.push(ms(format!("M{}", (i * 3) % 5), vec![mf("h", item(&format!("S{}", i))), mf("u", uni("h", &p.unions.iter().find(|u| u.disc == format!("S{}.b", i)).unwrap().name.clone())), mf("l", list(3, "S0"))])); }
    p
}

fn fnv(h: &mut u64, b: &[u8]) { for x in b { *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3); } *h = (*h ^ 0xff).wrapping_mul(0x100000001b3); }

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { walk(&p, out) } else if p.extension().is_none_or(|x| x != "json5") { out.push(p) }
    }
}

/// Digest of everything below a directory, without the directory's own name.
fn digest(d: &Path) -> u64 {
    let mut v = Vec::new();
    walk(d, &mut v);
    v.sort();
    let mut h = 0xcbf29ce484222325;
    let here = d.display().to_string();
    for p in v {
        fnv(&mut h, p.strip_prefix(d).unwrap().to_string_lossy().as_bytes());
        let b = std::fs::read(&p).unwrap_or_default();
        fnv(&mut h, String::from_utf8_lossy(&b).replace(&here, "@").as_bytes());
    }
    h
}

/// Class and digest of one compilation into `d`.
fn once(d: &Path, c: &Case) -> (String, u64) {
    match compile(d, c) {
        COut::Done(p) => {
            let mut h = digest(d);
            for p in p { fnv(&mut h, p.strip_prefix(d).unwrap_or(&p).to_string_lossy().as_bytes()); }
            ("done".into(), h)
        }
        COut::Reject(k, _) => (format!("rejected at {}", k), 0),
        COut::Panic(k, _) => (format!("panic at {}", k), 0),
        COut::GenFail(k, _) => (format!("not generated at {}", k), 0),
    }
}

/// Several protocols in one loader.
fn several(d: &Path, set: &[usize], opt: usize) -> Result<u64, String> {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
    let names = ["one", "two", "three", "four"];
    let shapes = [15, 31, 5, 26];
    let mut dp = proto("dep");
    dp.enums.push(spec::ast::en("E0", &[("K", 1), ("L", 2)]));
    dp.structs.push(spec::ast::st("H", vec![spec::ast::sf("d", spec::ast::STy::Unsigned(8)), spec::ast::sf("e", spec::ast::STy::Unsigned(8))]));
    dp.structs.push(spec::ast::st("Q", vec![spec::ast::sf("a", spec::ast::STy::Unsigned(16))]));
    dp.messages.push(spec::ast::ms("M0", vec![spec::ast::mf("q", spec::ast::item("Q"))]));
    std::fs::write(d.join("dep.json5"), dp.json()).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut l = Loader::new();
        l.import(d.join("dep.json5"), "crate::dep").map_err(|e| e.to_string())?;
        for k in set {
            let f = d.join(format!("{}.json5", names[*k]));
            std::fs::write(&f, shape(names[*k], shapes[*k]).json()).unwrap();
            l.load(&f).map_err(|e| e.to_string())?;
        }
        let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
        let p = p.set_reads_messages(opt & 1 != 0).set_writes_messages(opt & 2 != 0);
        p.generate::<GeneratorRust>(d).map_err(|e| e.to_string())
    })).map_err(panic_msg)??;
    let mut h = digest(d);
    for p in r { fnv(&mut h, p.name.as_bytes()); fnv(&mut h, p.path.strip_prefix(d).unwrap_or(&p.path).to_string_lossy().as_bytes()); }
    Ok(h)
}

fn sets() -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![vec![]];
    for _ in 0..4 {
        v = v.iter().flat_map(|s| (0..4).filter(|k| !s.contains(k)).map(|k| { let mut t = s.clone(); t.push(k); t }).collect::<Vec<_>>()).collect();
        all.extend(v.clone());
    }
    all
}

fn seed_lib() -> Result<PathBuf, String> {
    let out = Path::new(ROOT).join("target/seed.so");
    std::fs::create_dir_all(out.parent().unwrap()).map_err(|e| e.to_string())?;
    let s = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&out).arg(Path::new(ROOT).join("harness/seed.c")).status().map_err(|e| e.to_string())?;
    if s.success() { Ok(out) } else { Err("the seed library does not build".into()) }
}

pub fn run(o: &Opts) -> Result<Report, String> {
    let lib = seed_lib()?;
    let all = space(o);
    let nsets = sets().len() * 4;
    let _ = std::fs::remove_dir_all(o.work());
    std::fs::create_dir_all(o.work()).map_err(|e| e.to_string())?;
    let spawns: Vec<Spawn> = (0..procs(o)).map(|k| {
        let mut args = vec!["--worker".into(), k.to_string()];
        if let Some(c) = o.case { args.extend(["--case".into(), c.to_string()]); }
        let mut env = vec![("LD_PRELOAD".into(), lib.display().to_string()), ("VMC_SEED".into(), (k + 1).to_string()), ("VMC_TIME".into(), (k as i64 * 40_000_003).to_string())];
        env.push(("LANG".into(), ["C", "de_DE.UTF-8", "tr_TR.UTF-8", ""][k % 4].into()));
        env.push(("TZ".into(), ["UTC", "Asia/Tokyo", "America/Lima"][k % 3].into()));
        env.push(("USER".into(), format!("u{}", k)));
        env.push(("HOSTNAME".into(), format!("h{}", k)));
        env.push(("OUT_DIR".into(), format!("/o{}", k)));
        env.push(("CARGO_PKG_VERSION".into(), format!("{}.0.0", k)));
        Spawn { args, env }
    }).collect();
    let (mut rep, data) = worker::run(o, &spawns, |id| match all.get(id) { Some(c) => (c.label.clone(), case_input(c)), None => ("several".into(), json!(id - all.len())) })?;
    // across processes
    let mut first: BTreeMap<u64, (usize, String)> = BTreeMap::new();
    let mut orders: BTreeSet<String> = BTreeSet::new();
    let mut told = BTreeSet::new();
    for (k, d) in data.iter().enumerate() {
        for v in d {
            if let Some(x) = v["order"].as_str() { orders.insert(x.into()); continue; }
            let (id, h) = (v["id"].as_u64().unwrap(), v["d"].as_str().unwrap().to_string());
            rep.execs += 1;
            let (k0, h0) = first.entry(id).or_insert((k, h.clone()));
            if *h0 != h && told.insert(id) {
                let (label, input) = match all.get(id as usize) { Some(c) => (c.label.clone(), case_input(c)), None => ("several".into(), json!({"set": (id as usize - all.len()) / 4, "options": (id as usize - all.len()) % 4})) };
                rep.viols.push(Viol { case: id as usize, label, key: "processes".into(), what: format!("the processes with hash seeds {} and {} give different results: {} and {}", *k0 + 1, k + 1, h0, h), input });
            }
        }
    }
    if o.case.is_none() && first.len() != all.len() + nsets && rep.viols.is_empty() { return Err("some schemas were not compiled".into()); }
    rep.states = first.len() as u64;
    rep.count("processes", procs(o) as u64);
    rep.count("map_orders_seen_of_24", orders.len() as u64);
    if orders.len() < 24 { return Err(format!("the hash seeds give only {} of the 24 orders of a map of four", orders.len())); }
    rep.viols.sort_by_key(|v| v.case);
    let _ = std::fs::remove_dir_all(o.work());
    Ok(rep)
}

pub fn work(o: &Opts, k: usize) {
    let dir = o.work().join(format!("w{}", k));
    std::fs::create_dir_all(dir.join("cwd")).unwrap();
    std::env::set_current_dir(dir.join("cwd")).unwrap();
    let all = space(o);
    let mut out = Out::new();
    let mut r = Report::default();
    let want = |id: usize| o.case.is_none_or(|c| c == id);
    for i in 0..8 {
        let mut m = HashMap::new();
        for x in ["a", "b", "c", "d"] { m.insert(x, i); }
        out.data(json!({"order": m.keys().copied().collect::<Vec<_>>().join("")}));
    }
    let n = all.len();
    let mut mine: BTreeMap<usize, (String, u64)> = BTreeMap::new();
    // every process takes the schemas in another order
    for j in 0..n {
        let c = &all[if k % 2 == 0 { (j + k * 37) % n } else { (2 * n - 1 - j + k * 41) % n }];
        if !want(c.id) { continue; }
        out.begin(c.id);
        let d = dir.join("case");
        let _ = std::fs::remove_dir_all(&d);
        let a = once(&d, c);
        let b = once(&d, c);
        r.transitions += 2;
        if a != b { out.viol(c.id, &c.label, "again", &format!("compiling again into the same directory gives another result: {:?} and {:?}", a, b), case_input(c)); }
        if a.0 == "done" { r.nontrivial += 1; }
        out.data(json!({"id": c.id, "d": format!("{} {:x}", a.0, a.1)}));
        mine.insert(c.id, a);
        r.sample(|| format!("{}: {}", c.label, c.units.last().unwrap().json()));
    }
    for (i, s) in sets().iter().enumerate() {
        for opt in 0..4 {
            let id = n + i * 4 + opt;
            if !want(id) { continue; }
            out.begin(id);
            let h = several(&dir.join("several"), s, opt);
            r.transitions += 1;
            out.data(json!({"id": id, "d": match h { Ok(h) => format!("{:x}", h), Err(e) => e }}));
        }
    }
    if o.case.is_some() { out.stat(&r); return; }
    // histories within this process
    let pick: Vec<&Case> = {
        let acc: Vec<&Case> = all.iter().filter(|c| mine.get(&c.id).is_some_and(|x| x.0 == "done")).collect();
        let a = if o.thorough { 14 } else { 9 };
        (0..a).map(|i| acc[i * (acc.len() - 1) / (a - 1)]).collect()
    };
    let a = pick.len();
    let depth = 3;
    let total = a.pow(depth);
    for s in (0..total).filter(|s| s % procs(o) == k) {
        let mut x = s;
        let d = dir.join("hist");
        for step in 0..depth {
            let c = pick[x % a];
            x /= a;
            out.begin(c.id);
            // alternately into a fresh directory and over what is there for this schema
            let d = d.join(c.id.to_string());
            if (s + step as usize) % 2 == 0 { let _ = std::fs::remove_dir_all(&d); }
            let got = once(&d, c);
            r.transitions += 1;
            r.count("history_steps", 1);
            if got != mine[&c.id] { out.viol(c.id, &c.label, "history", &format!("the result depends on what was generated before: {:?} and {:?}", got, mine[&c.id]), case_input(c)); }
        }
    }
    // all at once, in threads
    let ids: Vec<usize> = pick.iter().map(|c| c.id).collect();
    if k < 8 {
        out.begin(ids[0]);
        let res: Vec<(usize, (String, u64))> = std::thread::scope(|sc| {
            let hs: Vec<_> = pick.iter().enumerate().map(|(t, c)| { let d = dir.join(format!("t{}", t)); sc.spawn(move || (0..4).map(|_| { let _ = std::fs::remove_dir_all(&d); (c.id, once(&d, c)) }).collect::<Vec<_>>()) }).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
        });
        for (id, got) in res {
            r.transitions += 1;
            r.count("concurrent_runs", 1);
            if got != mine[&id] { out.viol(id, &all[id].label, "threads", &format!("the result depends on what is generated at the same time: {:?} and {:?}", got, mine[&id]), case_input(&all[id])); }
        }
    }
    out.stat(&r);
    let _ = std::fs::remove_dir_all(&dir);
}
