//! Runs the real schema compiler and generator.

use crate::util::panic_msg;
use bp3d_protoc::{gen::GeneratorRust, util::SimpleImportSolver, Loader};
use spec::model::RProto;
use spec::space::Case;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub enum Out { Done(Vec<PathBuf>), Reject(usize, String), Panic(usize, String), GenFail(usize, String) }

pub fn schema_files(dir: &Path, c: &Case) -> Vec<PathBuf> {
    std::fs::create_dir_all(dir).unwrap();
    c.units.iter().enumerate().map(|(i, u)| {
        let p = dir.join(format!("u{}.json5", i));
        std::fs::write(&p, u.json()).unwrap();
        p
    }).collect()
}

enum One { Ok(PathBuf), Rej(String), Gen(String) }

fn unit(files: &[PathBuf], imports: &[String], k: usize, dir: &Path, read: bool, write: bool) -> One {
    let mut l = Loader::new();
    for i in 0..k {
        if let Err(e) = l.import(&files[i], imports[i].clone()) { return One::Rej(format!("import: {}", e)); }
    }
    if let Err(e) = l.load(&files[k]) { return One::Rej(format!("load: {}", e)); }
    let p = match l.compile(SimpleImportSolver::new("::")) { Ok(p) => p, Err(e) => return One::Rej(e.to_string()) };
    let p = p.set_reads_messages(read).set_writes_messages(write);
    match std::panic::catch_unwind(AssertUnwindSafe(|| p.generate::<GeneratorRust>(dir))) {
        Err(e) => One::Gen(format!("panic: {}", panic_msg(e))),
        Ok(Err(e)) => One::Gen(e.to_string()),
        Ok(Ok(v)) if v.len() == 1 => One::Ok(v[0].path.clone()),
        Ok(Ok(v)) => One::Gen(format!("{} protocols generated for one", v.len())),
    }
}

pub fn compile(dir: &Path, c: &Case) -> Out { compile_as(dir, c, true, true) }

/// With the parts for reading and writing messages as requested.
pub fn compile_as(dir: &Path, c: &Case, read: bool, write: bool) -> Out {
    let files = schema_files(dir, c);
    let imports: Vec<String> = c.units.iter().map(|u| format!("crate::s{}::{}", c.id, u.name)).collect();
    let mut done = Vec::new();
    for k in 0..files.len() {
        match catch_unwind(AssertUnwindSafe(|| unit(&files, &imports, k, dir, read, write))) {
            Err(e) => return Out::Panic(k, panic_msg(e)),
            Ok(One::Rej(e)) => return Out::Reject(k, e),
            Ok(One::Gen(e)) => return Out::GenFail(k, e),
            Ok(One::Ok(p)) => done.push(p),
        }
    }
    Out::Done(done)
}

/// The reference model's view of a case.
pub fn model(c: &Case) -> Result<Vec<RProto>, (usize, String)> {
    let mut r = Vec::new();
    for (k, u) in c.units.iter().enumerate() {
        let p = RProto::resolve(u, &r).map_err(|e| (k, e))?;
        r.push(p);
    }
    Ok(r)
}
