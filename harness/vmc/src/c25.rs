//! C25: the codec primitives, instantiated for every type, offset and size of the space.

use crate::shards::{cargo, parse, run_shard, NSHARD};
use crate::util::*;
use serde_json::json;
use std::path::Path;

fn space(o: &Opts) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (t, bits) in [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)] {
        for off in 0..=64usize {
            for size in 1..=bits {
                // far offsets, with buffers of up to 16 bytes
                let far = off >= 8;
                if far && !o.thorough && !((off % 8 <= 1 || off % 8 == 7) && (size <= 2 || size >= bits - 1 || size % 8 == 0) && [8, 9, 15, 16, 31, 33, 56, 63, 64].contains(&off)) { continue; }
                if far && o.thorough && off > 16 && bits > 16 && off % 8 != 0 && off % 8 != 7 && off % 8 != 3 { continue; }
                for e in ["LE", "BE"] {
                    v.push((format!("{} {} offset {} size {}", t, e, off, size), format!("{}, {}, {}, {}", t, e, off, size)));
                }
            }
        }
    }
    v
}

pub fn run(o: &Opts) -> Result<Report, String> {
    let all = space(o);
    let work = o.work();
    let _ = std::fs::remove_dir_all(&work);
    let ws = work.join("shards");
    let names: Vec<String> = (0..NSHARD).map(|k| format!("c25s{}", k)).collect();
    for (k, n) in names.iter().enumerate() {
        let d = ws.join(n).join("src");
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        std::fs::write(ws.join(n).join("Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nrt = {{ path = \"{r}/harness/rt\" }}\nbp3d-proto = {{ path = \"/repo/runtime\" }}\n", n, r = ROOT)).unwrap();
        let mut m = String::from("#![allow(warnings)]\nstatic ENTRIES: &[rt::codec::BitE] = &[\n");
        for (i, e) in all.iter().enumerate() { if i / 2 % NSHARD == k && o.case.is_none_or(|c| c == i) { m.push_str(&format!("rt::bit_entry!({}, {}),\n", i, e.1)); } }
        m.push_str(&format!("];\nfn main() {{ rt::codec::main(ENTRIES, {}) }}\n", k));
        std::fs::write(d.join("main.rs"), m).unwrap();
    }
    std::fs::write(ws.join("Cargo.toml"), format!("[workspace]\nresolver = \"2\"\nmembers = [{}]\n\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n\n[profile.dev.package.rt]\nopt-level = 3\n[profile.dev.package.spec]\nopt-level = 3\n",
        names.iter().map(|n| format!("\"{}\"", n)).collect::<Vec<_>>().join(", "))).unwrap();
    std::fs::copy(Path::new(ROOT).join("harness/rt/Cargo.lock"), ws.join("Cargo.lock")).map_err(|e| e.to_string())?;
    let errs = cargo(&ws)?;
    if !errs.is_empty() { return Err(format!("the codecs cannot be used as documented: {}", errs[0].1)); }
    let mut rep = Report::default();
    let label = |id: usize| all.get(id).map(|e| e.0.clone()).unwrap_or_else(|| format!("byte codec {}", id - rt_bytes()));
    let mk = |id: usize, key: &str, what: String| Viol { case: id, label: label(id).replace(' ', "_"), key: key.replace(' ', "-"), what, input: json!(label(id)) };
    for b in par(&names, |n| run_shard(o, n)) {
        let (lines, last, crash) = b?;
        let mut r = parse(lines, mk);
        if let Some(e) = crash {
            match last { Some(id) => r.viols.push(mk(id, "crash", format!("the program ended abnormally: {}", e))), None => return Err(format!("explorer failed: {}", e)) }
        }
        rep.merge(r);
    }
    rep.count("instantiations", all.len() as u64);
    rep.viols.sort_by_key(|v| v.case);
    Ok(rep)
}

fn rt_bytes() -> usize { 1_000_000 }
