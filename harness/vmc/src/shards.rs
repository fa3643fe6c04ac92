//! Compiles the accepted cases into explorer programs and runs them.

use crate::compile::{compile, compile_as, model, Out};
use crate::glue;
use crate::util::*;
use serde_json::{json, Value};
use spec::space::{cases, Case, Expect, Tier};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn case_input(c: &Case) -> Value { json!({ "schemas": c.units.iter().map(|u| u.json()).collect::<Vec<_>>() }) }

fn viol(c: &Case, key: &str, what: String) -> Viol { Viol { case: c.id, label: c.label.clone(), key: key.into(), what, input: case_input(c) } }

pub const NSHARD: usize = 8;

/// `Err`: the machinery could not decide.
pub fn run(o: &Opts) -> Result<Report, String> {
    let tier = if o.thorough { Tier::Thorough } else { Tier::Quick };
    let mut all = cases(&o.prop, tier);
    if let Some(k) = o.case { all.retain(|c| c.id == k); }
    let work = o.work();
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).map_err(|e| e.to_string())?;
    let gen = work.join("gen");
    let results = par(&all, |c| {
        let mut m = model(c);
        let mut out = compile(&gen.join(format!("c{}", c.id)), c);
        let mut first = None;
        let mut part = None;
        // what can still be had of a valid schema that is refused
        if m.is_ok() && c.expect != Expect::Reject && matches!(out, Out::Reject(..) | Out::Panic(..)) && !matches!(&*o.prop, "C20" | "C22" | "C26") {
            let keep = spec::reduce::reduce(c, &mut |_, v| matches!(compile(&gen.join(format!("p{}", c.id)), &Case { id: c.id, label: String::new(), units: v.to_vec(), expect: c.expect }), Out::Done(_)));
            if let Some(keep) = keep {
                let p = spec::reduce::apply(c, &keep);
                let m2 = model(&p);
                let o2 = compile(&gen.join(format!("c{}", c.id)), &p);
                if m2.is_ok() && matches!(o2, Out::Done(_)) { first = Some(std::mem::replace(&mut out, o2)); m = m2; part = Some(keep); }
            }
        }
        let g = match (&m, &out) { (Ok(r), Out::Done(_)) => Some(glue::generate(c.id, r)), _ => None };
        let mut some: Vec<(usize, Out)> = Vec::new();
        // unions always come with both directions, so their messages need both
        let both = |r: &Vec<spec::model::RProto>| r.iter().flat_map(|p| &p.unions).any(|u| u.cases.iter().any(|c| matches!(c.item, Some(spec::model::RRef::Msg(_)))));
        if o.prop == "C20" && matches!(out, Out::Done(_)) && m.as_ref().is_ok_and(|r| !both(r)) {
            for k in 0..3 { some.push((k, compile_as(&gen.join(format!("o{}", k)).join(format!("c{}", c.id)), c, k == 1, k == 2))); }
        }
        (m.map(|_| ()).map_err(|e| e.1), out, g, first, part, some)
    });
    let mut parts = String::new();
    for (c, r) in all.iter().zip(&results) { if let Some(k) = &r.4 { parts += &spec::reduce::to_text(c.id, k); } }
    std::fs::write(work.join("parts"), parts).map_err(|e| e.to_string())?;
    let mut rep = Report::default();
    rep.count("schemas", all.len() as u64);
    let mut todo: Vec<(&Case, Vec<PathBuf>, String)> = Vec::new();
    let mut partial: [Vec<(&Case, Vec<PathBuf>)>; 3] = Default::default();
    for (c, (m, out, g, first, _, some)) in all.iter().zip(results) {
        if let Some(Out::Reject(k, e) | Out::Panic(k, e)) = first {
            rep.count("unexpectedly_rejected", 1);
            rep.count("explored_in_part", 1);
            eprintln!("note: case {} {} unit {} rejected, explored in part: {}", c.id, c.label, k, e);
        }
        rep.transitions += 1;
        for (k, x) in some {
            match x {
                Out::Done(p) => partial[k].push((c, p)),
                Out::Reject(u, e) | Out::Panic(u, e) | Out::GenFail(u, e) => rep.viols.push(viol(c, &format!("generation {}", PARTS[k]), format!("unit {}: cannot be generated {}: {}", u, PARTS[k], e))),
            }
        }
        let want = match c.expect { Expect::Accept => true, Expect::Reject => false, Expect::Model | Expect::Any => m.is_ok() };
        match out {
            Out::Done(_) if !want => rep.viols.push(viol(c, "accepted", format!("the compiler accepts a schema it must reject ({})", m.err().unwrap_or_default()))),
            Out::Done(p) => todo.push((c, p, g.ok_or_else(|| format!("case {} {}: accepted but the model rejects it: {:?}", c.id, c.label, m))?)),
            Out::GenFail(k, e) => rep.viols.push(viol(c, "generation", format!("unit {}: the compiled protocol cannot be generated: {}", k, e))),
            Out::Panic(k, e) if matches!(&*o.prop, "C19" | "C20") || !want => rep.viols.push(viol(c, "compiler panic", format!("unit {}: the compiler panics: {}", k, e))),
            Out::Reject(k, e) | Out::Panic(k, e) if want => {
                rep.count("unexpectedly_rejected", 1);
                if matches!(&*o.prop, "C22" | "C26") { rep.viols.push(viol(c, "rejected", format!("unit {}: a valid schema is refused: {}", k, e))); }
                else { eprintln!("note: case {} {} unit {} rejected: {}", c.id, c.label, k, e); }
            }
            Out::Reject(k, e) => { if c.expect == Expect::Model && std::env::var_os("VMC_TRACE").is_some() { eprintln!("note: case {} {} unit {} is refused, as predicted: {} ({})", c.id, c.label, k, e, m.err().unwrap_or_default()); } rep.count("rejected_as_expected", 1) }
            Out::Panic(..) => (),
        }
    }
    rep.count("accepted", todo.len() as u64);
    if o.prop == "C22" { rep.merge(crate::c22::paths(o, &all)); }
    if todo.is_empty() && rep.viols.is_empty() { return Err("no schema of the space was accepted".into()); }
    if todo.is_empty() { return Ok(rep); }
    let names = build(o, &work, &todo, &mut rep)?;
    if rep.viols.iter().any(|v| v.key.starts_with("rustc")) { return Ok(rep); }
    if o.prop == "C20" { check_parts(o, &work, &partial, &mut rep)?; }
    if o.prop == "C20" { for (c, ..) in &todo { rep.states += 1; rep.execs += 1; if c.units.len() > 1 { rep.nontrivial += 1; } rep.sample(|| format!("{}: {}", c.label, c.units[0].json())); } }
    let bins = par(&names, |n| run_shard(o, n));
    let by: BTreeMap<usize, &Case> = all.iter().map(|c| (c.id, c)).collect();
    for b in bins {
        let (lines, last, crash) = b?;
        let mut r = parse(lines, |id, key, what| viol(by[&id], key, what));
        if let Some(e) = crash {
            match last.and_then(|l| by.get(&l)) {
                Some(c) => r.viols.push(viol(c, "crash", format!("the program ended abnormally while exploring this schema: {}", e))),
                None => return Err(format!("explorer failed: {}", e)),
            }
        }
        rep.merge(r);
    }
    Ok(rep)
}

/// A report from the lines an explorer prints.
pub fn parse(lines: Vec<String>, viol: impl Fn(usize, &str, String) -> Viol) -> Report {
    let mut r = Report::default();
    for l in lines {
        let Ok(v) = serde_json::from_str::<Value>(&l) else { continue };
        match v["k"].as_str() {
            Some("viol") => r.viols.push(viol(v["case"].as_u64().unwrap() as usize, v["key"].as_str().unwrap(), v["what"].as_str().unwrap().into())),
            Some("stat") => {
                r.states += v["states"].as_u64().unwrap();
                r.transitions += v["transitions"].as_u64().unwrap();
                r.execs += v["execs"].as_u64().unwrap();
                r.nontrivial += v["nontrivial"].as_u64().unwrap();
                for s in v["samples"].as_array().unwrap().iter().take(1) { r.samples.push(s.as_str().unwrap().into()); }
            }
            _ => (),
        }
    }
    r
}

fn weight(p: &[PathBuf], g: &str) -> usize {
    g.len() + p.iter().map(|u| std::fs::read_dir(u.parent().unwrap()).map(|d| d.filter_map(|e| e.ok()?.metadata().ok()).map(|m| m.len() as usize).sum::<usize>()).unwrap_or(0)).sum::<usize>()
}

fn build(o: &Opts, work: &Path, todo: &[(&Case, Vec<PathBuf>, String)], rep: &mut Report) -> Result<Vec<String>, String> {
    let n = NSHARD.min(todo.len());
    let mut order: Vec<(usize, usize)> = todo.iter().enumerate().map(|(i, t)| (weight(&t.1, &t.2), i)).collect();
    order.sort_by(|a, b| b.cmp(a));
    let mut load = vec![(0usize, Vec::<usize>::new()); n];
    for (w, i) in order {
        let k = (0..n).min_by_key(|k| load[*k].0).unwrap();
        load[k].0 += w + 2000;
        load[k].1.push(i);
    }
    rep.count("generated_bytes", load.iter().map(|l| l.0 as u64).sum());
    let ws = work.join("shards");
    let names: Vec<String> = (0..n).map(|k| format!("{}s{}", o.prop.to_lowercase(), k)).collect();
    for (k, (_, mine)) in load.iter_mut().enumerate() {
        mine.sort();
        let d = ws.join(&names[k]).join("src");
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        std::fs::write(ws.join(&names[k]).join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nrt = {{ path = \"{r}/harness/rt\" }}\nbp3d-proto = {{ path = \"/repo/runtime\" }}\n", names[k], r = ROOT)).unwrap();
        let mut m = String::from("#![allow(warnings)]\n");
        for i in mine.iter() {
            let (c, u, g) = &todo[*i];
            m.push_str(&format!("mod s{} {{\n{}\n}}\nmod c{};\n", c.id, u.iter().map(|p| format!("include!({:?});", p.display().to_string())).collect::<Vec<_>>().join("\n"), c.id));
            std::fs::write(d.join(format!("c{}.rs", c.id)), g).unwrap();
        }
        m.push_str(&format!("static ENTRIES: &[(usize, &rt::CaseOps)] = &[{}];\nfn main() {{ rt::main(ENTRIES) }}\n", mine.iter().map(|i| format!("({id}, &c{id}::OPS)", id = todo[*i].0.id)).collect::<Vec<_>>().join(", ")));
        std::fs::write(d.join("main.rs"), m).unwrap();
    }
    let opt = match &*o.prop { "C20" => 0, _ => 1 };
    std::fs::write(ws.join("Cargo.toml"), format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = {}\ndebug = 0\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n\n[profile.dev.package.rt]\nopt-level = 3\n[profile.dev.package.spec]\nopt-level = 3\n",
        names.iter().map(|n| format!("\"{}\"", n)).collect::<Vec<_>>().join(", "), opt)).unwrap();
    std::fs::copy(Path::new(ROOT).join("harness/rt/Cargo.lock"), ws.join("Cargo.lock")).map_err(|e| e.to_string())?;
    let errs = cargo(&ws)?;
    let mut seen = BTreeSet::new();
    for (file_ids, msg) in errs {
        for (c, ..) in todo {
            if file_ids.contains(&c.id) && seen.insert(c.id) {
                rep.viols.push(viol(c, "rustc", format!("the generated code of an accepted schema does not compile or does not offer its promised interface: {}", msg)));
            }
        }
    }
    Ok(names)
}

const PARTS: [&str; 3] = ["without reading and writing", "for reading only", "for writing only"];

/// What is generated with fewer parts compiles as well.
fn check_parts(o: &Opts, work: &Path, partial: &[Vec<(&Case, Vec<PathBuf>)>; 3], rep: &mut Report) -> Result<(), String> {
    let ws = work.join("parts-ws");
    let mut names = Vec::new();
    for (k, v) in partial.iter().enumerate() {
        for h in 0..3 {
            let n = format!("{}p{}x{}", o.prop.to_lowercase(), k, h);
            let d = ws.join(&n).join("src");
            std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            std::fs::write(ws.join(&n).join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nbp3d-proto = {{ path = \"/repo/runtime\" }}\n", n)).unwrap();
            let mut m = String::from("#![allow(warnings)]\n");
            for (c, p) in v.iter().skip(h).step_by(3) {
                rep.execs += 1;
                m.push_str(&format!("pub mod s{} {{\n{}\n}}\n", c.id, p.iter().map(|p| format!("include!({:?});", p.display().to_string())).collect::<Vec<_>>().join("\n")));
            }
            std::fs::write(d.join("lib.rs"), m).unwrap();
            names.push(n);
        }
        rep.count("with_fewer_parts", v.len() as u64);
    }
    std::fs::write(ws.join("Cargo.toml"), format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\ndebug = 0\nincremental = false\n", names.iter().map(|n| format!("\"{}\"", n)).collect::<Vec<_>>().join(", "))).unwrap();
    std::fs::copy(Path::new(ROOT).join("harness/rt/Cargo.lock"), ws.join("Cargo.lock")).map_err(|e| e.to_string())?;
    let mut seen = BTreeSet::new();
    for (ids, msg) in cargo_as(&ws, "check")? {
        for (k, v) in partial.iter().enumerate() {
            if !msg.contains(&format!("/gen/o{}/", k)) { continue; }
            for (c, _) in v {
                if ids.contains(&c.id) && seen.insert((k, c.id)) { rep.viols.push(viol(c, &format!("rustc {}", PARTS[k]), format!("the code generated {} does not compile: {}", PARTS[k], msg))); }
            }
        }
    }
    Ok(())
}

/// Builds a workspace; compile errors attributed to cases, by the files involved.
pub fn cargo(ws: &Path) -> Result<Vec<(BTreeSet<usize>, String)>, String> { cargo_as(ws, "build") }

fn cargo_as(ws: &Path, cmd: &str) -> Result<Vec<(BTreeSet<usize>, String)>, String> {
    let out = Command::new("cargo").args([cmd, "--offline", "--keep-going", "--message-format=json", "-j", "8"]).current_dir(ws)
        .env("CARGO_TARGET_DIR", Path::new(ROOT).join("target/shards")).env("CARGO_NET_OFFLINE", "true").stderr(Stdio::piped()).output().map_err(|e| e.to_string())?;
    if out.status.success() { return Ok(vec![]); }
    let mut errs: Vec<(BTreeSet<usize>, String)> = Vec::new();
    let mut stray = Vec::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" { continue; }
        let mut ids = BTreeSet::new();
        collect(&v["message"], &mut ids);
        let text = v["message"]["rendered"].as_str().unwrap_or("").to_string();
        if ids.is_empty() { stray.push(text) } else { errs.push((ids, text)) }
    }
    if errs.is_empty() {
        return Err(format!("build failed: {}\n{}", stray.join("\n").chars().take(3000).collect::<String>(), String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>()));
    }
    Ok(errs)
}

fn collect(v: &Value, ids: &mut BTreeSet<usize>) {
    match v {
        Value::Object(m) => for (k, x) in m {
            if k == "file_name" { if let Some(id) = x.as_str().and_then(case_of) { ids.insert(id); } }
            collect(x, ids);
        },
        Value::Array(a) => for x in a { collect(x, ids) },
        _ => (),
    }
}

fn case_of(p: &str) -> Option<usize> {
    p.split('/').rev().find_map(|s| s.strip_suffix(".rs").unwrap_or(s).strip_prefix('c')?.parse().ok())
}

pub type Shard = Result<(Vec<String>, Option<usize>, Option<String>), String>;

pub fn run_shard(o: &Opts, name: &str) -> Shard {
    let bin = Path::new(ROOT).join("target/shards/debug").join(name);
    let mut cmd = Command::new("/bin/bash");
    cmd.args(["-c", "ulimit -v 6000000; ulimit -c 0; exec \"$@\"", "shard"]).arg(&bin).args(["--prop", &o.prop, "--tier", o.tier(), "--parts"]).arg(o.work().join("parts"));
    let errf = o.work().join(format!("{}.err", name));
    let outf = o.work().join(format!("{}.out", name));
    let limit: u64 = std::env::var("VMC_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.thorough { 5000 } else { 600 });
    let mut child = cmd.stdin(Stdio::null()).stdout(std::fs::File::create(&outf).unwrap()).stderr(std::fs::File::create(&errf).unwrap()).spawn().map_err(|e| e.to_string())?;
    let t = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? { break s; }
        if t.elapsed().as_secs() > limit { let _ = child.kill(); let _ = child.wait(); return Err(format!("{}: no answer within {} s", name, limit)); }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    let lines: Vec<String> = String::from_utf8_lossy(&std::fs::read(&outf).unwrap_or_default()).lines().map(String::from).collect();
    let err = String::from_utf8_lossy(&std::fs::read(&errf).unwrap_or_default()).to_string();
    let last = err.lines().rev().find_map(|l| l.strip_prefix("case ")?.parse().ok());
    let done = lines.iter().any(|l| l.contains("\"done\""));
    let crash = if status.success() && done { None } else { Some(format!("{} {}", status, err.lines().last().unwrap_or(""))) };
    std::io::stdout().flush().ok();
    Ok((lines, last, crash))
}
