//! Reports, known findings, evidence.

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::time::Instant;

pub const ROOT: &str = "/verif";

#[derive(Clone, Debug)]
pub struct Viol { pub case: usize, pub label: String, pub key: String, pub what: String, pub input: Value }

#[derive(Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    /// further measured counts
    pub counts: BTreeMap<String, u64>,
}

impl Report {
    pub fn viol(&mut self, label: &str, key: &str, what: impl Into<String>, input: Value) {
        self.viols.push(Viol { case: 0, label: label.into(), key: key.into(), what: what.into(), input });
    }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_insert(0) += n; }
    pub fn sample(&mut self, s: impl FnOnce() -> String) { if self.samples.len() < 4 { self.samples.push(s().chars().take(800).collect()); } }
    pub fn merge(&mut self, o: Report) {
        self.viols.extend(o.viols);
        self.states += o.states;
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.nontrivial += o.nontrivial;
        for s in o.samples { if self.samples.len() < 8 { self.samples.push(s); } }
        for (k, v) in o.counts { self.count(&k, v); }
    }
}

pub struct Opts { pub prop: String, pub thorough: bool, pub seed: u64, pub case: Option<usize>, pub start: Instant, pub cache: bool }

impl Opts {
    pub fn tier(&self) -> &'static str { if self.thorough { "thorough" } else { "quick" } }
    pub fn work(&self) -> PathBuf { Path::new(ROOT).join("target/work").join(&self.prop) }
}

/// Runs `f` for every item on all cores, in any order; results in input order.
pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<Option<R>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= items.len() { break; }
                let r = f(&items[i]);
                out.lock().unwrap()[i] = Some(r);
            }).unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

thread_local! { pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Where the last panic of this thread happened, without the local parts of the path.
pub fn panic_at() -> String {
    PANIC_AT.with(|p| { let s = p.borrow().clone(); let v: Vec<&str> = s.split('/').collect(); v[v.len().saturating_sub(3)..].join("/") })
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into())
}

struct Known { prop: String, label: String, key: String, text: String }

fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(Path::new(ROOT).join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: ")?;
        let (head, text) = l.split_once(" :: ")?;
        let get = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k)).map(String::from);
        Some(Known { prop: get("property=")?, label: get("case=")?, key: get("key=")?, text: text.into() })
    }).collect()
}

pub fn level(prop: &str) -> &'static str {
    match prop { "C15" => "fault_enumeration", _ => "model_checking" }
}

/// Prints verdicts, writes evidence; the process exit code.
pub fn conclude(o: &Opts, mut r: Report) -> i32 {
    let kn = known();
    let rdir = Path::new(ROOT).join("evidence/replay");
    let _ = std::fs::create_dir_all(&rdir);
    let mut seen_known: Vec<usize> = Vec::new();
    let mut fresh: Vec<&Viol> = Vec::new();
    for v in &r.viols {
        match kn.iter().position(|k| k.prop == o.prop && k.label == v.label && k.key == v.key) {
            Some(i) => if !seen_known.contains(&i) { seen_known.push(i) },
            None => fresh.push(v),
        }
    }
    for i in &seen_known { println!("KNOWN-FINDING: property={} {}", o.prop, kn[*i].text); }
    for (n, v) in fresh.iter().enumerate().take(20) {
        let p = rdir.join(format!("{}-{}.json", o.prop, n));
        let j = json!({ "property": o.prop, "tier": o.tier(), "case": v.case, "label": v.label, "key": v.key, "what": v.what, "input": v.input });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
        println!("VIOLATION property={} replay={}", o.prop, p.display());
        println!("  case {} ({}) {}: {}", v.case, v.label, v.key, v.what.chars().take(700).collect::<String>());
    }
    if fresh.len() > 20 { println!("  and {} more", fresh.len() - 20); }
    let n = fresh.len();
    if r.samples.is_empty() { r.samples.push("none".into()); }
    let mut cov = serde_json::Map::new();
    if level(&o.prop) == "fault_enumeration" {
        cov.insert("evaluations".into(), json!(r.execs));
        cov.insert("distinct_nontrivial".into(), json!(r.nontrivial));
        cov.insert("rule".into(), json!("one evaluation per (value, sink plan); every plan of at most the bounded number of deviations is tried; non-trivial when at least one deviation was reached"));
        cov.insert("plans".into(), json!(r.states));
    } else {
        cov.insert("states".into(), json!(r.states));
        cov.insert("transitions".into(), json!(r.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(r.execs));
        cov.insert("nontrivial_states".into(), json!(r.nontrivial));
    }
    cov.insert("samples".into(), json!(r.samples));
    cov.insert("known_findings_seen".into(), json!(seen_known.len()));
    cov.insert("exhaustive".into(), json!(o.case.is_none()));
    for (k, v) in &r.counts { cov.insert(k.clone(), json!(v)); }
    let ev = json!({
        "property": o.prop, "tier": o.tier(), "seed": o.seed, "level": level(&o.prop), "coverage": cov,
        "assumptions": ["the reference model in harness/spec states the property", "rustc compiles the generated code correctly", "bounds as given in DESIGN.md"],
        "wall_s": (o.start.elapsed().as_millis() as f64) / 1000.0, "violations": n,
    });
    let _ = std::fs::create_dir_all(Path::new(ROOT).join("evidence"));
    std::fs::write(Path::new(ROOT).join(format!("evidence/{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{} {}: states {} transitions {} executions {} violations {} known {} {:?} in {:.1}s", o.prop, o.tier(), r.states, r.transitions, r.execs, n, seen_known.len(), r.counts, o.start.elapsed().as_secs_f64());
    if n > 0 { 1 } else { 0 }
}
