//! C22: generated code refers to imported types at the path their protocol was registered under,
//! whatever the path, the separator and the solver.

use crate::compile::{model, schema_files};
use crate::shards::case_input;
use crate::util::*;
use bp3d_protoc::compiler::{util::ImportResolver, Protocol};
use bp3d_protoc::{gen::GeneratorRust, util::SimpleImportSolver, ImportSolver, Loader};
use spec::space::{Case, Expect};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

/// A solver of a user's own: a path for each type, or none for one of them.
struct Own { known: Vec<(String, Protocol)>, refuse: Option<(String, String)> }

impl ImportSolver for Own {
    fn register(&mut self, base: String, p: Protocol) { self.known.push((base, p)); }
}

impl ImportResolver for Own {
    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> { self.known.iter().rev().find(|x| x.1.name == name).map(|x| &x.1) }
    fn get_full_type_path(&self, p: &str, t: &str) -> Option<String> {
        if self.refuse.as_ref().is_some_and(|r| r.0 == p && r.1 == t) { return None; }
        self.known.iter().rev().find(|x| x.1.name == p).map(|x| format!("own::{}::deep::z_{}", x.0, t))
    }
}

type Files = BTreeMap<String, String>;

fn walk(d: &Path, at: &Path, out: &mut Files) {
    for e in std::fs::read_dir(at).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { walk(d, &p, out) } else { out.insert(p.strip_prefix(d).unwrap().display().to_string(), String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).into_owned()); }
    }
}

/// The files generated for unit `k` of a case, the ones before it imported.
fn files<S: ImportSolver + ImportResolver>(units: &[PathBuf], bases: &[String], k: usize, d: &Path, s: S) -> Result<Files, String> {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
    catch_unwind(AssertUnwindSafe(|| {
        let mut l = Loader::new();
        for i in 0..k { l.import(&units[i], bases[i].clone()).map_err(|e| e.to_string())?; }
        l.load(&units[k]).map_err(|e| e.to_string())?;
        let p = l.compile(s).map_err(|e| e.to_string())?;
        p.set_reads_messages(true).set_writes_messages(true).generate::<GeneratorRust>(d).map_err(|e| e.to_string())
    })).map_err(|e| format!("panic: {}", panic_msg(e)))??;
    let mut f = Files::new();
    walk(d, d, &mut f);
    Ok(f)
}

fn one(c: &Case, dir: &Path) -> Report {
    let mut rep = Report::default();
    if model(c).is_err() || c.expect == Expect::Reject || c.units.len() < 2 { return rep; }
    let names: BTreeSet<&String> = c.units.iter().map(|u| &u.name).collect();
    if names.len() != c.units.len() { return rep; }
    let units = schema_files(&dir.join("schemas"), c);
    let out = dir.join("out");
    let plain: Vec<String> = (0..units.len()).map(|i| format!("crate::qq{}qq", i)).collect();
    let own = |p: &str, t: &str| { let u = c.units.iter().find(|u| u.name == p)?; Some(u.enums.iter().map(|x| &x.name).chain(u.structs.iter().map(|x| &x.name)).chain(u.unions.iter().map(|x| &x.name)).chain(u.messages.iter().map(|x| &x.name)).any(|x| x == t)) };
    let fail = |rep: &mut Report, key: &str, what: String| rep.viols.push(Viol { case: c.id, label: c.label.clone(), key: key.into(), what, input: case_input(c) });
    for k in 1..units.len() {
        // refusals are judged elsewhere
        let Ok(want) = files(&units, &plain, k, &out, SimpleImportSolver::new("::")) else { continue };
        let text: String = want.values().cloned().collect();
        let check = |rep: &mut Report, how: &str, got: Result<Files, String>, from: &dyn Fn(usize) -> String| {
            rep.states += 1;
            rep.execs += 1;
            let want: Files = want.iter().map(|(n, t)| {
                let mut t = t.clone();
                for i in 0..units.len() { t = t.replace(&format!("{}::", plain[i]), &from(i)); }
                (n.clone(), t)
            }).collect();
            if text.contains("qq::") { rep.nontrivial += 1; }
            match got {
                Err(e) => fail(rep, "path", format!("unit {}, {}: refused: {}", k, how, e)),
                Ok(f) => for (n, w) in &want {
                    let g = f.get(n).cloned().unwrap_or_default();
                    if g != *w {
                        let (a, b) = g.lines().zip(w.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
                        fail(rep, "path", format!("unit {}, {}: {} has {:?} where the registered path gives {:?}", k, how, n, a, b));
                        break;
                    }
                },
            }
        };
        check(&mut rep, "default solver", files(&units, &plain, k, &out, SimpleImportSolver::default()), &|i| format!("{}::", plain[i]));
        for base in ["crate", "super::super", "a", "r#mod::B2"] {
            for sep in ["::", "::in_::", "::x_"] {
                let bases: Vec<String> = (0..units.len()).map(|i| format!("{}::m{}", base, i)).collect();
                let got = files(&units, &bases, k, &out, SimpleImportSolver::new(sep));
                check(&mut rep, &format!("base path {} and separator {}", base, sep), got, &|i| format!("{}{}", bases[i], sep));
            }
        }
        // all protocols registered under one path
        let same: Vec<String> = units.iter().map(|_| "one::place".to_string()).collect();
        let got = files(&units, &same, k, &out, SimpleImportSolver::new("::"));
        check(&mut rep, "one base path for all", got, &|_| "one::place::".into());
        let bases: Vec<String> = (0..units.len()).map(|i| format!("b{}", i)).collect();
        let got = files(&units, &bases, k, &out, Own { known: Vec::new(), refuse: None });
        check(&mut rep, "own solver", got, &|i| format!("own::{}::deep::z_", bases[i]));
        // a solver which has no path for one of the imported types
        let imported: BTreeSet<(String, String)> = c.units[..=k].iter().flat_map(|u| u.imports.clone()).filter(|(p, t)| own(p, t) == Some(true)).collect();
        for r in imported {
            rep.states += 1;
            rep.execs += 1;
            let how = format!("own solver without a path for {}::{}", r.0, r.1);
            match files(&units, &bases, k, &out, Own { known: Vec::new(), refuse: Some(r) }) {
                Ok(_) => fail(&mut rep, "no path", format!("unit {}, {}: accepted", k, how)),
                Err(e) if e.starts_with("panic") => fail(&mut rep, "no path", format!("unit {}, {}: {}", k, how, e)),
                Err(_) => (),
            }
        }
    }
    rep
}

pub fn paths(o: &Opts, all: &[Case]) -> Report {
    let dir = o.work().join("paths");
    let mut rep = Report::default();
    for r in par(all, |c| one(c, &dir.join(c.id.to_string()))) { rep.merge(r); }
    let n = rep.states;
    rep.count("import_paths", n);
    rep
}
