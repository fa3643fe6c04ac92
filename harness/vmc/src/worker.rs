//! Worker processes of the driver itself: a crash or hang of the code under check is attributed
//! to the item being processed and does not take the driver down.

use crate::util::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

pub struct Out { lock: std::io::Stdout }

impl Out {
    pub fn new() -> Out { Out { lock: std::io::stdout() } }
    pub fn begin(&mut self, id: usize) { let _ = writeln!(self.lock, "@{}", id); }
    pub fn viol(&mut self, id: usize, label: &str, key: &str, what: &str, input: Value) {
        let _ = writeln!(self.lock, "{}", json!({"k": "viol", "case": id, "label": label, "key": key, "what": what, "input": input}));
    }
    pub fn stat(&mut self, r: &Report) {
        let _ = writeln!(self.lock, "{}", json!({"k": "stat", "states": r.states, "transitions": r.transitions, "execs": r.execs, "nontrivial": r.nontrivial, "samples": r.samples, "counts": r.counts}));
        let _ = self.lock.flush();
    }
    pub fn data(&mut self, v: Value) { let _ = writeln!(self.lock, "{}", json!({"k": "data", "v": v})); }
}

pub struct Spawn { pub args: Vec<String>, pub env: Vec<(String, String)> }

/// Runs the workers, at most eight at a time. `describe`: label and input of an item.
pub fn run(o: &Opts, spawns: &[Spawn], describe: impl Fn(usize) -> (String, Value) + Sync) -> Result<(Report, Vec<Vec<Value>>), String> {
    let parts = par(spawns, |s| one(o, s, &describe));
    let mut rep = Report::default();
    let mut data = Vec::new();
    for p in parts { let (r, d) = p?; rep.merge(r); data.push(d); }
    Ok((rep, data))
}

fn one(o: &Opts, s: &Spawn, describe: &(impl Fn(usize) -> (String, Value) + Sync)) -> Result<(Report, Vec<Value>), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut cmd = Command::new("/bin/bash");
    cmd.args(["-c", "ulimit -v 8000000; ulimit -c 0; exec \"$@\"", "worker"]).arg(exe).arg(&o.prop).args(["--tier", o.tier()]).args(&s.args);
    for (k, v) in &s.env { cmd.env(k, v); }
    let mut child = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let out = child.stdout.take().unwrap();
    let beat = Arc::new(AtomicU64::new(0));
    let state: Arc<Mutex<(Report, Vec<Value>, Option<usize>, bool)>> = Arc::new(Mutex::new((Report::default(), vec![], None, false)));
    let (b2, s2) = (beat.clone(), state.clone());
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            b2.fetch_add(1, Relaxed);
            let mut st = s2.lock().unwrap();
            if let Some(id) = l.strip_prefix('@') { st.2 = id.parse().ok(); continue; }
            let Ok(v) = serde_json::from_str::<Value>(&l) else { continue };
            match v["k"].as_str() {
                Some("viol") => st.0.viols.push(Viol { case: v["case"].as_u64().unwrap_or(0) as usize, label: v["label"].as_str().unwrap_or("").into(), key: v["key"].as_str().unwrap_or("").into(), what: v["what"].as_str().unwrap_or("").into(), input: v["input"].clone() }),
                Some("data") => st.1.push(v["v"].clone()),
                Some("stat") => {
                    let r = &mut st.0;
                    r.states += v["states"].as_u64().unwrap_or(0);
                    r.transitions += v["transitions"].as_u64().unwrap_or(0);
                    r.execs += v["execs"].as_u64().unwrap_or(0);
                    r.nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                    for s in v["samples"].as_array().into_iter().flatten() { if r.samples.len() < 2 { r.samples.push(s.as_str().unwrap_or("").into()); } }
                    for (k, n) in v["counts"].as_object().into_iter().flatten() { r.count(k, n.as_u64().unwrap_or(0)); }
                    st.3 = true;
                }
                _ => (),
            }
        }
    });
    let (mut last, mut since) = (0, std::time::Instant::now());
    let mut hung = false;
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? { break s; }
        let b = beat.load(Relaxed);
        if b != last { last = b; since = std::time::Instant::now(); }
        if since.elapsed().as_secs() > 60 { hung = true; let _ = child.kill(); }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let _ = reader.join();
    let mut st = std::mem::take(&mut *state.lock().unwrap());
    if !st.3 {
        let Some(id) = st.2 else { return Err(format!("worker failed before its first item: {}", status)) };
        let (label, input) = describe(id);
        st.0.viols.push(Viol { case: id, label, key: if hung { "hang" } else { "crash" }.into(), what: if hung { "does not terminate".into() } else { format!("the process ends abnormally: {}", status) }, input });
    }
    Ok((st.0, st.1))
}
