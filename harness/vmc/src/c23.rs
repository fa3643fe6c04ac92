//! C23: generation options, earlier runs into the same directory, faults at the output files and
//! the build-script entry point.

use crate::util::*;
use crate::worker::{self, Out, Spawn};
use bp3d_protoc::{gen::{File, FileType, Generator, GeneratorRust}, generate_rust, util::SimpleImportSolver, Loader, Proto, Protoc};
use quote::ToTokens;
use serde_json::{json, Value};
use spec::ast::{self, *};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use syn::parse::Parser;

const N: usize = 8;
const PART: [&str; 6] = ["messages", "reads", "writes", "structs", "enums", "unions"];
const FULL: usize = 0b1111;

/// Sections of a shape: 1 enums, 2 structs, 4 messages, 8 unions, 16 larger definitions; 32 other
/// names and values of the same lengths.
pub fn shape(name: &str, s: usize) -> ast::Proto {
    let mut p = proto(name);
    p.imports = vec![("dep".into(), "H".into()), ("dep".into(), "E0".into()), ("dep".into(), "M0".into()), ("dep".into(), "Q".into())];
    let big = s & 16 != 0;
    let k = if big { 3 } else { 1 };
    if s & 1 != 0 {
        for i in 0..=k { p.enums.push(en(format!("En{}", i), &[("A", i), ("B", i + 2), ("C", 3 * i + 5)][..if big { 3 } else { 2 }])); }
    }
    if s & 2 != 0 {
        for i in 0..k {
            let mut f = vec![sf("d", STy::Unsigned(8)), sfv("e", STy::Unsigned(8), View::Enum(if s & 1 != 0 { "En0" } else { "E0" }.into())), sf("q", STy::Struct("Q".into()))];
            if big { f.push(sfa("arr", STy::Signed(16), 4)); f.push(sfv("r", STy::Float(8), View::Range(0.0, 1.0))); }
            p.structs.push(st(format!("St{}", i), f));
        }
    }
    let disc = if s & 2 != 0 { "St0" } else { "H" };
    if s & 8 != 0 {
        for i in 0..k { p.unions.push(un(format!("Un{}", i), &format!("{}.d", disc), &[("x", "1", Some("M0")), ("y", "2", Some("Q")), ("z", "3", None)][..if big { 3 } else { 2 }])); }
    }
    if s & 4 != 0 {
        p.messages.push(ms("Ms0", vec![mf("s", MTy::Str(None)), mo("h", item("H"))]));
        let mut f = vec![mf("h", item(disc)), mf("n", item("Ms0"))];
        if s & 8 != 0 { f.push(mf("u", uni("h", "Un0"))); }
        if big { f.push(mf("l", list(300, "Q"))); f.push(mf("v", MTy::Str(Some(70000)))); }
        f.push(mf("p", MTy::Payload));
        p.messages.push(ms("Ms1", f));
        if big { p.messages.push(ms("Ms2", vec![mo("o", item("Ms0")), mf("t", list(10, "M0"))])); }
    }
    if s & 32 != 0 {
        for e in &mut p.enums { for v in &mut e.variants { v.0 = v.0.replace('A', "Z"); v.1 = (v.1 + 1).min(if v.1 > 9 { 99 } else { 9 }); } }
        for s in &mut p.structs { for f in &mut s.fields { if f.name == "q" { f.name = "w".into(); }} }
        for m in &mut p.messages { for f in &mut m.fields { if f.name == "s" { f.name = "z".into(); } if f.name == "p" { f.name = "b".into(); } } }
        for u in &mut p.unions { for c in &mut u.cases { c.case = c.case.replace('1', "6"); } }
    }
    p
}

fn dep() -> ast::Proto {
    let mut p = proto("dep");
    p.enums.push(en("E0", &[("K", 1), ("L", 2)]));
    p.structs.push(st("H", vec![sf("d", STy::Unsigned(8)), sf("e", STy::Unsigned(8))]));
    p.structs.push(st("Q", vec![sf("a", STy::Unsigned(16))]));
    p.messages.push(ms("M0", vec![mf("q", item("Q"))]));
    p
}

fn options(p: Protoc, o: usize) -> Protoc {
    let b = |i: usize| o >> i & 1 == 1;
    p.set_use_messages(b(0)).set_reads_messages(b(1)).set_writes_messages(b(2)).set_use_structs(b(3)).set_use_enums(b(4)).set_use_unions(b(5))
}

/// What is generated when an option is left alone: everything but message reading and writing code.
const LEFT: usize = 0b111001;

/// Options which are left alone (0), switched off (1) or on (2), set in one order or the other, some
/// of them set to the opposite first.
fn some_options(p: Protoc, set: &[usize; 6], way: usize) -> Protoc {
    let put = |p: Protoc, i: usize, b: bool| match i { 0 => p.set_use_messages(b), 1 => p.set_reads_messages(b), 2 => p.set_writes_messages(b), 3 => p.set_use_structs(b), 4 => p.set_use_enums(b), _ => p.set_use_unions(b) };
    let mut order: Vec<usize> = (0..6).collect();
    if way & 1 == 1 { order.reverse(); }
    let mut p = p;
    if way & 2 == 2 { for i in &order { if set[*i] > 0 { p = put(p, *i, set[*i] == 1); } } }
    for i in order { if set[i] > 0 { p = put(p, i, set[i] == 2); } }
    p
}

fn some_of(i: usize) -> [usize; 6] { std::array::from_fn(|k| i / 3usize.pow(k as u32) % 3) }
fn some_means(set: &[usize; 6]) -> usize { (0..6).filter(|i| match set[*i] { 0 => LEFT >> i & 1 == 1, v => v == 2 }).fold(0, |a, i| a | 1 << i) }
fn some_text(set: &[usize; 6]) -> String { (0..6).map(|i| format!("{}: {}", PART[i], ["left alone", "off", "on"][set[i]])).collect::<Vec<_>>().join(", ") }
/// Runs which are interrupted.
fn torn_states(o: &Opts) -> Vec<(usize, usize)> {
    let shapes = if o.thorough { vec![FULL, FULL | 16, 26, 5, FULL | 32, 2, 4] } else { vec![FULL, FULL | 32] };
    shapes.into_iter().flat_map(|s| (0..64).map(move |p| (s, p))).filter(|(_, p)| o.thorough || [63, 7, 1, 2, 8, 26].contains(p)).collect()
}

/// What an interruption leaves of a file.
fn torn(b: &[u8], k: usize) -> Vec<u8> {
    match k { 0 => vec![], 1 => b[..b.len() / 2].to_vec(), 2 => b[..b.len() - 1].to_vec(), 3 => vec![0; b.len()], _ => b[..1].to_vec() }
}
const TORN: usize = 5;

const SOME: usize = 729;
const SOME_SHAPES: [usize; 2] = [FULL, 26];

fn opt_text(o: usize) -> String { let v: Vec<&str> = (0..6).filter(|i| o >> i & 1 == 1).map(|i| PART[i]).collect(); if v.is_empty() { "nothing".into() } else { v.join("+") } }

/// Schema files of a worker, made on first use.
struct Schemas { dir: PathBuf, made: BTreeMap<(String, usize), PathBuf> }

impl Schemas {
    fn new(dir: PathBuf) -> Schemas {
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("dep.json5"), dep().json()).unwrap();
        Schemas { dir, made: BTreeMap::new() }
    }
    fn dep(&self) -> PathBuf { self.dir.join("dep.json5") }
    fn get(&mut self, name: &str, s: usize) -> PathBuf {
        let d = self.dir.clone();
        self.made.entry((name.into(), s)).or_insert_with(|| {
            let p = d.join(format!("{}-{}.json5", name, s));
            std::fs::write(&p, shape(name, s).json()).unwrap();
            p
        }).clone()
    }
    fn run(&mut self, what: &[(&str, usize)], o: usize, out: &Path) -> Result<Vec<Proto>, String> { self.run_with(what, |p| options(p, o), out) }
    fn run_with(&mut self, what: &[(&str, usize)], o: impl FnOnce(Protoc) -> Protoc, out: &Path) -> Result<Vec<Proto>, String> {
        let files: Vec<PathBuf> = what.iter().map(|(n, s)| self.get(n, *s)).collect();
        let dep = self.dep();
        match catch_unwind(AssertUnwindSafe(|| {
            let mut l = Loader::new();
            l.import(&dep, "crate::dep").map_err(|e| format!("schema: {}", e))?;
            for f in &files { l.load(f).map_err(|e| format!("schema: {}", e))?; }
            let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| format!("schema: {}", e))?;
            o(p).generate::<GeneratorRust>(out).map_err(|e| e.to_string())
        })) { Ok(r) => r, Err(e) => Err(format!("panic: {}", panic_msg(e))) }
    }
}

/// What one generated protocol consists of, as its users see it.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Seen { entry: String, parts: Vec<(PathBuf, String)>, items: Vec<String> }

fn canon(i: &syn::Item) -> String { i.to_token_stream().to_string() }

/// `Err`: the entry file is not what was promised.
fn look(name: &str, entry: &Path) -> Result<Seen, String> {
    let text = std::fs::read_to_string(entry).map_err(|e| format!("entry file {}: {}", entry.display(), e))?;
    let f = syn::parse_file(&text).map_err(|e| format!("the entry file is not Rust code: {}", e))?;
    let [syn::Item::Mod(m)] = &f.items[..] else { return Err(format!("the entry file has {} items instead of one module", f.items.len())) };
    if m.ident != name { return Err(format!("the module is called {} and not {}", m.ident, name)); }
    if !matches!(m.vis, syn::Visibility::Public(_)) { return Err("the module is not public".into()); }
    let Some((_, items)) = &m.content else { return Err("the module has no body".into()) };
    let (mut parts, mut all) = (Vec::new(), Vec::new());
    for i in items {
        match i {
            syn::Item::Macro(k) if k.mac.path.segments.last().is_some_and(|s| s.ident == "include") => {
                let lit = (|s: syn::parse::ParseStream| s.parse::<syn::LitStr>()).parse2(k.mac.tokens.clone()).map_err(|e| format!("include: {}", e))?;
                let p = PathBuf::from(lit.value());
                let text = std::fs::read_to_string(&p).map_err(|e| format!("included file {:?}: {}", p, e))?;
                let f = syn::parse_file(&text).map_err(|e| format!("included file {:?} is not Rust code: {}", p, e))?;
                if f.items.is_empty() { return Err(format!("included file {:?} has nothing in it", p)); }
                all.extend(f.items.iter().map(canon));
                if parts.iter().any(|(q, _)| *q == p) { return Err(format!("{:?} is included twice", p)); }
                parts.push((p, text));
            }
            i => all.push(canon(i)),
        }
    }
    all.sort();
    Ok(Seen { entry: text, parts, items: all })
}

/// The promised item an item is, if it is one: which part, and its key.
fn promised(item: &str) -> Option<(usize, String)> {
    let i: syn::Item = syn::parse_str(item).ok()?;
    let pre = |s: String, p: &[&str]| p.iter().any(|p| s.starts_with(p) && s[p.len()..].chars().all(|c| c.is_ascii_digit()));
    match i {
        syn::Item::Struct(s) => {
            let n = s.ident.to_string();
            if pre(n.clone(), &["St"]) { Some((3, n)) } else if pre(n.clone(), &["Ms"]) { Some((0, n)) } else if n.strip_suffix("Offsets").is_some_and(|b| pre(b.into(), &["Ms"])) { Some((1, n)) } else { None }
        }
        syn::Item::Enum(s) => {
            let n = s.ident.to_string();
            if pre(n.clone(), &["En"]) { Some((4, n)) } else if pre(n.clone(), &["Un"]) { Some((5, n)) } else { None }
        }
        syn::Item::Impl(m) => {
            let tr = m.trait_.as_ref()?.1.segments.last()?.ident.to_string();
            let syn::Type::Path(t) = *m.self_ty else { return None };
            let n = t.path.segments.last()?.ident.to_string();
            if !pre(n.clone(), &["Ms"]) { return None; }
            match &*tr { "FromSlice" | "FromSliceWithOffsets" => Some((1, format!("{} for {}", tr, n))), "WriteTo" => Some((2, format!("{} for {}", tr, n))), _ => None }
        }
        _ => None,
    }
}

fn wanted(s: usize, o: usize) -> Vec<(usize, String)> {
    let p = shape("x", s);
    let mut v = Vec::new();
    for m in &p.messages {
        v.push((0, m.name.clone()));
        v.push((1, format!("{}Offsets", m.name)));
        v.push((1, format!("FromSlice for {}", m.name)));
        v.push((1, format!("FromSliceWithOffsets for {}", m.name)));
        v.push((2, format!("WriteTo for {}", m.name)));
    }
    v.extend(p.structs.iter().map(|s| (3, s.name.clone())));
    v.extend(p.enums.iter().map(|s| (4, s.name.clone())));
    v.extend(p.unions.iter().map(|s| (5, s.name.clone())));
    v.retain(|(k, _)| o >> k & 1 == 1);
    v.sort();
    v
}

fn wipe(d: &Path) {
    match std::fs::symlink_metadata(d) {
        Ok(m) if m.is_dir() => { let _ = std::fs::remove_dir_all(d); }
        Ok(_) => { let _ = std::fs::remove_file(d); }
        Err(_) => (),
    }
}

fn files(d: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() { out.extend(files(&p)); } else { out.insert(p); }
    }
    out
}

fn desc(s: usize, o: usize) -> Value { json!({"schema": shape("prot", s).json(), "options": opt_text(o)}) }

struct Run { sch: Schemas, out: PathBuf, fresh: BTreeMap<(usize, usize), Seen>, r: Report, o: Out }

impl Run {
    fn bad(&mut self, id: usize, key: &str, what: String, input: Value) { self.o.viol(id, "options", key, &what, input); }

    /// Runs into a fresh directory.
    fn fresh(&mut self, id: usize, s: usize, o: usize) -> Option<Seen> {
        if let Some(x) = self.fresh.get(&(s, o)) { return Some(x.clone()); }
        wipe(&self.out);
        std::fs::create_dir_all(&self.out).unwrap();
        let out = self.out.clone();
        let seen = match self.one(s, o) { Ok(x) => x, Err(e) => { self.bad(id, "fresh", e, desc(s, o)); return None } };
        let mut have = files(&out);
        for (p, _) in &seen.parts { have.remove(p); }
        have.remove(&out.join("prot/umbrella.rs"));
        if !have.is_empty() { self.bad(id, "stray files", format!("files are written which are not part of the result: {:?}", have), desc(s, o)); }
        let mut got: Vec<(usize, String)> = seen.items.iter().filter_map(|i| promised(i)).collect();
        got.sort();
        let want = wanted(s, o);
        if got != want {
            let miss: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
            let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
            self.bad(id, "parts", format!("options {} give the wrong items: missing {:?}, not asked for {:?}, {} against {}", opt_text(o), miss, extra, got.len(), want.len()), desc(s, o));
        }
        if o.count_ones() != 1 {
            let mut sum = Vec::new();
            for b in 0..6 { if o >> b & 1 == 1 { sum.extend(self.fresh(id, s, 1 << b)?.items); } }
            sum.sort();
            if sum != seen.items { self.bad(id, "composition", format!("options {} do not give the items the single options give together", opt_text(o)), desc(s, o)); }
        }
        self.r.states += 1;
        self.r.count("fresh_runs", 1);
        self.fresh.insert((s, o), seen.clone());
        Some(seen)
    }

    fn one(&mut self, s: usize, o: usize) -> Result<Seen, String> { self.one_with(s, |p| options(p, o)) }
    fn one_with(&mut self, s: usize, o: impl FnOnce(Protoc) -> Protoc) -> Result<Seen, String> {
        self.r.transitions += 1;
        let out = self.out.clone();
        let v = self.sch.run_with(&[("prot", s)], o, &out)?;
        let [p] = &v[..] else { return Err(format!("{} protocols are reported instead of one", v.len())) };
        if p.name != "prot" { return Err(format!("the protocol is reported as {:?}", p.name)); }
        look("prot", &p.path).map_err(|e| format!("result: {}", e))
    }
}

fn states(o: &Opts) -> (Vec<(usize, usize)>, Vec<(usize, usize)>) {
    let prod = |shapes: Vec<usize>| -> Vec<(usize, usize)> { shapes.into_iter().flat_map(|s| (0..64).map(move |o| (s, o))).collect() };
    let mut twins = prod(vec![FULL | 32, 26 | 32, 5 | 32]);
    if o.thorough { twins.extend(prod((0..32).collect())); return (twins, prod(vec![FULL, 0, 5, 26, 31, 12])); }
    twins.retain(|(_, o)| [63, 1, 2, 4, 8, 16, 32, 7].contains(o));
    twins.extend(prod(vec![FULL, FULL | 16]));
    (twins, prod(vec![FULL, 0, 5, 26]))
}

fn odd_dirs() -> Vec<&'static str> { vec!["plain", "with space", "quote\"d", "back\\slash", "uni\u{e9}\u{4f60}", "comb\u{301}", "new\nline", "tab\t", "{brace}", "#hash", "'single'", "a.rs"] }

/// Ids: one per shape/option pair, then one per earlier run, then faults, then multi, then directories, then build scripts,
/// then generators of a user's own, then options some of which are left alone, then interrupted runs.
struct Ids { fresh: usize, prev: usize, fault: usize, multi: usize, dirs: usize, gr: usize, own: usize, some: usize, torn: usize, end: usize }

const FAULT_SHAPES: [usize; 3] = [FULL, 5, 26];
const MULTI: [&str; 3] = ["one", "Two_2", "three"];

fn ids(o: &Opts) -> Ids {
    let fresh = 0;
    let prev = fresh + 32 * 64;
    let fault = prev + states(o).0.len();
    let multi = fault + FAULT_SHAPES.len() * 64;
    let dirs = multi + 64;
    let gr = dirs + odd_dirs().len();
    let own = gr + scripts().len();
    let some = own + OWN + 1;
    let torn = some + SOME;
    Ids { fresh, prev, fault, multi, dirs, gr, own, some, torn, end: torn + torn_states(o).len() }
}

// ---- the build-script entry point ---------------------------------------------------------------

#[derive(Clone)]
struct Script { label: String, load: Vec<String>, opts: usize, out: &'static str, ok: bool }

/// Load steps: `i<file>` import, `l<file>` load, `!` the load function fails, `?` it ignores the next failure.
fn scripts() -> Vec<Script> {
    let mut v = Vec::new();
    let mut add = |label: &str, load: &[&str], opts: usize, out: &'static str, ok: bool| v.push(Script { label: label.into(), load: load.iter().map(|s| s.to_string()).collect(), opts, out, ok });
    for o in 0..64 { add("two protocols", &["idep", "lprot:15", "lMixed_9:31"], o, "dir", true); }
    for (l, steps) in [("none", &["idep"][..]), ("one", &["idep", "lp:5"]), ("upper", &["idep", "lPROT:2"]), ("camel", &["idep", "laBcD:15"]), ("digits", &["idep", "lp0_1__2:15"]), ("three", &["idep", "lc:1", "la:2", "lb:4"]), ("empty protocol", &["idep", "lz:0", "ly:0"]), ("no import", &["lself"])] {
        for o in [63, 0, 1, 14] { add(l, steps, o, "dir", true); }
    }
    for o in [63, 0] {
        add("missing schema", &["lnothere"], o, "dir", false);
        add("missing second schema", &["idep", "lprot:15", "lnothere"], o, "dir", false);
        add("missing import", &["inothere", "lself"], o, "dir", false);
        add("malformed schema", &["lbadjson"], o, "dir", false);
        add("malformed import", &["ibadjson", "lself"], o, "dir", false);
        add("wrong member types", &["lbadtype"], o, "dir", false);
        add("invalid schema", &["lbadref"], o, "dir", false);
        add("invalid second schema", &["idep", "lprot:15", "lbadref"], o, "dir", false);
        add("invalid first schema", &["idep", "lbadref", "lprot:15"], o, "dir", false);
        add("invalid import", &["ibadref", "lself"], o, "dir", false);
        add("unknown import", &["lprot:15"], o, "dir", false);
        add("import registered later", &["iprot:15", "idep", "lself"], o, "dir", false);
        add("the load function fails", &["!"], o, "dir", false);
        add("the load function fails after loading", &["idep", "lprot:15", "!"], o, "dir", false);
        add("no OUT_DIR", &["lself"], o, "unset", false);
        add("missing OUT_DIR", &["lself"], o, "missing", false);
        add("OUT_DIR is a file", &["lself"], o, "file", false);
        add("entry file blocked", &["lself"], o, "block", false);
        add("second entry file blocked", &["idep", "lprot:15", "lself"], o, "block", false);
        add("protocol directory blocked", &["lself"], o, "blockdir", false);
    }
    add("part blocked", &["lself"], 63, "blockpart", false);
    v
}

fn script_file(sch: &mut Schemas, s: &str) -> PathBuf {
    let d = sch.dir.clone();
    let w = |n: &str, t: &str| { let p = d.join(n); std::fs::write(&p, t).unwrap(); p };
    match s {
        "dep" => sch.dep(),
        "self" => w("self.json5", "{ name: \"selfc\", structs: [{ name: \"S\", fields: [{ name: \"a\", info: { type: \"unsigned\", bits: 8 } }] }] }"),
        "badjson" => w("badjson.json5", "{ name: \"x\", structs: [ }"),
        "badtype" => w("badtype.json5", "{ name: \"x\", structs: 4 }"),
        "badref" => w("badref.json5", "{ name: \"x\", messages: [{ name: \"M\", fields: [{ name: \"a\", info: { type: \"item\", item_type: \"Nope\" } }] }] }"),
        "nothere" => d.join("nothere.json5"),
        s => { let (n, k) = s.split_once(':').unwrap(); sch.get(n, k.parse().unwrap()) }
    }
}

/// The process standing for a build script.
pub fn script_main(arg: &str) -> ! {
    let v: Value = serde_json::from_str(arg).unwrap();
    let o = v["opts"].as_u64().unwrap() as usize;
    generate_rust(|l| {
        for s in v["load"].as_array().unwrap() {
            let s = s.as_str().unwrap();
            let (k, f) = s.split_at(1);
            match k {
                "i" => { let n = f.rsplit('/').next().unwrap().split(['-', '.']).next().unwrap(); l.import(f, format!("crate::{}", n))? }
                "l" => l.load(f)?,
                _ => return Err(bp3d_protoc::Error::Io(std::io::Error::other("asked to fail"))),
            }
        }
        Ok(())
    }, |p| options(p, o));
    std::process::exit(0)
}

fn run_script(sch: &mut Schemas, out: &Path, s: &Script, r: &mut Report) -> Result<(), (String, String)> {
    wipe(out);
    let steps: Vec<String> = s.load.iter().map(|x| if x == "!" { "!".into() } else { format!("{}{}", &x[..1], script_file(sch, &x[1..]).display()) }).collect();
    match s.out {
        "missing" | "unset" => (),
        "file" => std::fs::write(out, "x").unwrap(),
        "block" => std::fs::create_dir_all(out.join("selfc/umbrella.rs")).unwrap(),
        "blockpart" => std::fs::create_dir_all(out.join("selfc/structures.rs")).unwrap(),
        "blockdir" => { std::fs::create_dir_all(out).unwrap(); std::fs::write(out.join("selfc"), "x").unwrap() }
        _ => std::fs::create_dir_all(out).unwrap(),
    }
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["C23", "--script", &json!({"load": steps, "opts": s.opts}).to_string()]).env_remove("OUT_DIR").stdin(Stdio::null());
    if s.out != "unset" { c.env("OUT_DIR", out); }
    let got = c.output().map_err(|e| ("spawn".to_string(), e.to_string()))?;
    r.transitions += 1;
    let bad = |k: &str, w: String| Err((k.to_string(), format!("build script {} with {}: {}", s.label, opt_text(s.opts), w)));
    if !s.ok {
        // with the output in its way the run may still manage; then the entry file must be right
        if got.status.success() { return bad("silent failure", "ends successfully although it cannot have done its work".into()); }
        return Ok(());
    }
    if !got.status.success() { return bad("fails", format!("{}: {}", got.status, String::from_utf8_lossy(&got.stderr))); }
    let text = String::from_utf8_lossy(&got.stdout).to_string();
    let lines: Vec<&str> = text.lines().filter(|l| l.contains("rustc-env")).collect();
    let loads: Vec<(String, usize)> = s.load.iter().filter(|x| x.starts_with('l')).map(|x| if x == "lself" { ("selfc".into(), 0) } else { let (n, k) = x[1..].split_once(':').unwrap(); (n.to_string(), k.parse().unwrap()) }).collect();
    let mut want: Vec<String> = Vec::new();
    let mut seen: Vec<Seen> = Vec::new();
    for (n, k) in &loads {
        let key = format!("BP3D_PROTOC_{}=", n.to_ascii_uppercase());
        let Some(l) = lines.iter().find(|l| l.strip_prefix("cargo::rustc-env=").or(l.strip_prefix("cargo:rustc-env=")).is_some_and(|x| x.starts_with(&key))) else { return bad("entry", format!("no entry file is reported for {}: {:?}", n, lines)) };
        let p = &l[l.find(&key).unwrap() + key.len()..];
        let x = look(n, Path::new(p)).map_err(|e| ("entry".to_string(), e))?;
        if n != "selfc" {
            let mut g: Vec<_> = x.items.iter().filter_map(|i| promised(i)).collect();
            g.sort();
            if g != wanted(*k, s.opts) { return bad("parts", format!("{} has the wrong parts", n)); }
        }
        want.push(l.to_string());
        seen.push(x);
    }
    if lines.len() != want.len() { return bad("entry", format!("{} entry files are reported for {} protocols: {:?}", lines.len(), want.len(), lines)); }
    if !loads.iter().any(|l| l.0 == "selfc") {
        // the same as the direct interface
        wipe(out);
        std::fs::create_dir_all(out).unwrap();
        let l: Vec<(&str, usize)> = loads.iter().map(|(n, k)| (n.as_str(), *k)).collect();
        let v = sch.run(&l, s.opts, out).map_err(|e| ("direct".to_string(), e))?;
        for (k, p) in v.iter().enumerate() {
            let x = look(&p.name, &p.path).map_err(|e| ("direct".to_string(), e))?;
            if x != seen[k] || want[k].split_once('=').and_then(|x| x.1.split_once('=')).is_none_or(|x| Path::new(x.1) != p.path) { return bad("entry", format!("the entry file of {} differs from the one of a direct run", p.name)); }
        }
    }
    Ok(())
}

// ---- exploration --------------------------------------------------------------------------------

// ---- generators of a user's own -----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Says { Nothing, Text, FilesFail, EntryFails }

#[derive(Clone)]
struct Plan { files: Vec<(FileType, String, String)>, entry: Says, seen: Vec<(String, Vec<PathBuf>)> }

thread_local!(static PLAN: std::cell::RefCell<Plan> = const { std::cell::RefCell::new(Plan { files: vec![], entry: Says::Nothing, seen: vec![] }) });

const ENTRY: &str = "the entry text";

struct Own;

impl Generator for Own {
    type Error = std::io::Error;
    fn generate(_: bp3d_protoc::compiler::Protocol) -> Result<Vec<File>, Self::Error> {
        PLAN.with_borrow(|p| if p.entry == Says::FilesFail { Err(std::io::Error::other("asked to fail")) } else { Ok(p.files.iter().map(|(t, n, d)| File::new(*t, n.clone(), d.clone())).collect()) })
    }
    fn generate_umbrella<'a>(name: &str, parts: impl Iterator<Item = &'a Path>) -> Result<String, Self::Error> {
        let parts: Vec<PathBuf> = parts.map(|p| p.to_path_buf()).collect();
        PLAN.with_borrow_mut(|p| {
            p.seen.push((name.into(), parts));
            match p.entry { Says::EntryFails => Err(std::io::Error::other("asked to fail")), Says::Text => Ok(ENTRY.into()), _ => Ok(String::new()) }
        })
    }
}

const TYPES: [FileType; 6] = [FileType::Message, FileType::MessageReading, FileType::MessageWriting, FileType::Structure, FileType::Enum, FileType::Union];
const PLACES: [&str; 4] = ["", "sub/", "other/", "sub/deep/"];

/// The `i`-th choice of a file: what it holds, where it goes, whether anything is in it.
fn own_file(i: usize, pos: usize) -> (FileType, String, String) {
    let (t, w, full) = (i % 6, i / 6 % 4, i / 24 == 0);
    (TYPES[t], format!("{}f{}.txt", PLACES[w], pos), if full && (i + pos) % 2 == 0 { format!("{}\n", char::from(b'0' + i as u8)) } else if full { format!("content {} of {}\n", i, pos) } else { String::new() })
}
const OWN: usize = 48;

fn own_run(sch: &mut Schemas, names: &[&str], files: &[(FileType, String, String)], entry: Says, o: usize, out: &Path) -> Result<(), String> {
    PLAN.with_borrow_mut(|p| *p = Plan { files: files.to_vec(), entry, seen: vec![] });
    let schemas: Vec<PathBuf> = names.iter().map(|n| sch.get(n, 0)).collect();
    let dep = sch.dep();
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut l = Loader::new();
        l.import(&dep, "crate::dep").map_err(|e| e.to_string())?;
        for s in &schemas { l.load(s).map_err(|e| e.to_string())?; }
        let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
        options(p, o).generate::<Own>(out).map_err(|e| e.to_string())
    }));
    let res = match res { Ok(r) => r, Err(e) => return Err(format!("the run panics: {}", panic_msg(e))) };
    let fails = entry == Says::FilesFail || entry == Says::EntryFails;
    let got = match (res, fails) { (Ok(_), true) => return Err("the generator fails but the run reports success".into()), (Err(_), true) => return Ok(()), (Err(e), _) => return Err(format!("the run fails: {}", e)), (Ok(g), _) => g };
    if got.iter().map(|g| &*g.name).ne(names.iter().copied()) { return Err(format!("the protocols are reported as {:?}", got.iter().map(|g| &g.name).collect::<Vec<_>>())); }
    let seen = PLAN.with_borrow(|p| p.seen.clone());
    if seen.iter().map(|s| &*s.0).ne(names.iter().copied()) { return Err(format!("the entry text is asked for {:?}", seen)); }
    for (g, s) in got.iter().zip(&seen) {
        let dir = out.join(&g.name);
        let want: BTreeMap<PathBuf, &str> = files.iter().filter(|(t, _, d)| o >> TYPES.iter().position(|x| x == t).unwrap() & 1 == 1 && !d.is_empty()).map(|(_, n, d)| (dir.join(n), &**d)).collect();
        let told: BTreeSet<&PathBuf> = s.1.iter().collect();
        if told.len() != s.1.len() || told != want.keys().collect() { return Err(format!("the entry text is made of {:?} and not {:?}", s.1, want.keys())); }
        for (p, d) in &want {
            match std::fs::read_to_string(p) { Ok(t) if t == *d => (), other => return Err(format!("{:?} holds {:?} and not {:?}", p, other, d)) }
        }
        let entry_path = if entry == Says::Text { dir.join("umbrella.rs") } else { dir.clone() };
        if g.path != entry_path { return Err(format!("{:?} is reported as the result and not {:?}", g.path, entry_path)); }
        if entry == Says::Text && std::fs::read_to_string(&entry_path).ok().as_deref() != Some(ENTRY) { return Err("the entry file does not hold the entry text".into()); }
    }
    Ok(())
}

/// Nothing but what was asked for is in a directory which was empty before.
fn own_stray(names: &[&str], files_: &[(FileType, String, String)], entry: Says, o: usize, out: &Path) -> Result<(), String> {
    let mut want = BTreeSet::new();
    for n in names {
        let dir = out.join(n);
        want.extend(files_.iter().filter(|(t, _, d)| o >> TYPES.iter().position(|x| x == t).unwrap() & 1 == 1 && !d.is_empty()).map(|(_, n, _)| dir.join(n)));
        if entry == Says::Text { want.insert(dir.join("umbrella.rs")); }
    }
    let have = files(out);
    if have != want { return Err(format!("{:?} is written and not {:?}", have, want)); }
    Ok(())
}

/// Every sequence of files beginning with the `first`-th choice (none at all for `OWN`).
fn own_item(o: &Opts, first: usize, sch: &mut Schemas, out: &Path, r: &mut Report) -> Result<(), (String, String, Value)> {
    let mut seqs: Vec<Vec<usize>> = vec![if first == OWN { vec![] } else { vec![first] }];
    if first != OWN {
        for b in 0..OWN {
            seqs.push(vec![first, b]);
            // three files: all of them non-empty in the quick tier's share
            for c in 0..OWN { if o.thorough || (first < 24 && b < 24 && c < 24 && first % 6 != b % 6 && (first + b + c) % 6 == 0) { seqs.push(vec![first, b, c]); } }
        }
    }
    for q in seqs {
        let fs: Vec<_> = q.iter().enumerate().map(|(i, k)| own_file(*k, i)).collect();
        // options of parts nobody provides: all off or all on
        let used = q.iter().fold(0usize, |m, k| m | 1 << (k % 6));
        let os: Vec<usize> = (0..64).filter(|p| q.len() < 2 || p & !used == 0 || p & !used == 63 & !used).collect();
        for p in os {
            let entries: &[Says] = if q.len() < 2 { &[Says::Nothing, Says::Text, Says::FilesFail, Says::EntryFails] } else if p % 2 == 0 { &[Says::Nothing] } else { &[Says::Text] };
            for entry in entries {
                let names: &[&str] = if q.len() < 2 { &["one", "Two_2"] } else { &["one"] };
                let inp = || json!({"files": fs.iter().map(|f| json!([format!("{:?}", f.0), f.1, f.2])).collect::<Vec<_>>(), "options": opt_text(p), "entry": format!("{:?}", entry)});
                wipe(out);
                std::fs::create_dir_all(out).unwrap();
                r.execs += 1;
                r.transitions += 2;
                r.count("own_generator_runs", 2);
                own_run(sch, names, &fs, *entry, p, out).map_err(|e| ("own generator".into(), e, inp()))?;
                let fails = matches!(entry, Says::FilesFail | Says::EntryFails);
                if !fails { own_stray(names, &fs, *entry, p, out).map_err(|e| ("own generator, stray files".into(), e, inp()))?; }
                own_run(sch, names, &fs, *entry, p, out).map_err(|e| ("own generator, once more".into(), e, inp()))?;
                if q.len() == 2 && !fails {
                    // the other way round, on top of what is there
                    let back: Vec<_> = q.iter().rev().enumerate().map(|(i, k)| own_file(*k, i)).collect();
                    own_run(sch, names, &back, *entry, p, out).map_err(|e| ("own generator, after another".into(), e, inp()))?;
                    r.transitions += 1;
                    r.count("own_generator_runs", 1);
                }
                if q.len() > 1 { r.nontrivial += 1; }
            }
        }
    }
    Ok(())
}

fn snapshot(d: &Path) -> Vec<(PathBuf, Vec<u8>)> { files(d).into_iter().map(|p| { let b = std::fs::read(&p).unwrap(); (p, b) }).collect() }

fn restore(d: &Path, s: &[(PathBuf, Vec<u8>)]) {
    wipe(d);
    std::fs::create_dir_all(d.join("prot")).unwrap();
    for (p, b) in s { let _ = std::fs::create_dir_all(p.parent().unwrap()); std::fs::write(p, b).unwrap(); }
}

fn describe(o: &Opts, id: usize) -> (String, Value) {
    let i = ids(o);
    let w = if id < i.prev { desc((id - i.fresh) / 64, (id - i.fresh) % 64) }
        else if id < i.fault { let (s, p) = states(o).0[id - i.prev]; json!({"earlier": desc(s, p)}) }
        else if id < i.multi { desc(FAULT_SHAPES[(id - i.fault) / 64], (id - i.fault) % 64) }
        else if id < i.dirs { json!({"options": opt_text(id - i.multi)}) }
        else if id < i.gr { json!(odd_dirs()[id - i.dirs]) }
        else if id < i.own { json!(scripts()[id - i.gr].label) }
        else if id >= i.torn { let (s, p) = torn_states(o)[id - i.torn]; json!({"interrupted": desc(s, p)}) }
        else if id >= i.some { json!(some_text(&some_of(id - i.some))) }
        else { json!({"files of a generator of one's own, beginning with": id - i.own}) };
    ("options".into(), w)
}

pub fn run(o: &Opts) -> Result<Report, String> {
    let _ = std::fs::remove_dir_all(o.work());
    std::fs::create_dir_all(o.work()).map_err(|e| e.to_string())?;
    let spawns: Vec<Spawn> = (0..N).map(|k| {
        let mut args = vec!["--worker".into(), k.to_string()];
        if let Some(c) = o.case { args.extend(["--case".into(), c.to_string()]); }
        Spawn { args, env: vec![] }
    }).collect();
    let (mut rep, _) = worker::run(o, &spawns, |id| describe(o, id))?;
    rep.viols.sort_by_key(|v| v.case);
    let _ = std::fs::remove_dir_all(o.work());
    Ok(rep)
}

pub fn work(o: &Opts, k: usize) {
    let base = o.work().join(format!("w{}", k));
    let mut x = Run { sch: Schemas::new(base.join("schemas")), out: base.join("out"), fresh: BTreeMap::new(), r: Report::default(), o: Out::new() };
    let i = ids(o);
    let mine = |id: usize| id % N == k && o.case.is_none_or(|c| c == id);
    for id in (i.fresh..i.prev).filter(|d| mine(*d)) {
        x.o.begin(id);
        let (s, p) = ((id - i.fresh) / 64, (id - i.fresh) % 64);
        x.fresh(id, s, p);
        x.r.sample(|| format!("sections {:05b}, options {}", s, opt_text(p)));
    }
    let (prev, this) = states(o);
    for id in (i.prev..i.fault).filter(|d| mine(*d)) {
        x.o.begin(id);
        let (ps, po) = prev[id - i.prev];
        let out = x.out.clone();
        wipe(&out);
        std::fs::create_dir_all(&out).unwrap();
        if let Err(e) = x.one(ps, po) { x.bad(id, "earlier", e, desc(ps, po)); continue; }
        let snap = snapshot(&out);
        for (s, p) in &this {
            let Some(want) = x.fresh(id, *s, *p) else { continue };
            restore(&out, &snap);
            let got = x.one(*s, *p);
            x.r.execs += 1;
            if (ps, po) != (*s, *p) { x.r.nontrivial += 1; }
            x.r.count("earlier_run_pairs", 1);
            let inp = json!({"earlier": desc(ps, po), "now": desc(*s, *p)});
            match got {
                Err(e) => x.bad(id, "after earlier run", e, inp),
                Ok(g) if g != want => x.bad(id, "after earlier run", format!("the result differs from the one in a fresh directory: {} parts against {}", g.parts.len(), want.parts.len()), inp),
                _ => (),
            }
        }
        // a longer history: every state once more on top of what is there now
        for (s, p) in this.iter().rev() {
            let Some(want) = x.fresh.get(&(*s, *p)).cloned() else { continue };
            let got = x.one(*s, *p);
            x.r.count("history_runs", 1);
            if got.as_ref() != Ok(&want) { x.bad(id, "after a history", format!("the result differs from the one in a fresh directory: {:?}", got.map(|g| g.parts.len())), json!({"start": desc(ps, po), "now": desc(*s, *p)})); }
        }
        x.o.begin(id);
    }
    for id in (i.fault..i.multi).filter(|d| mine(*d)) {
        x.o.begin(id);
        let (s, p) = (FAULT_SHAPES[(id - i.fault) / 64], (id - i.fault) % 64);
        let (Some(all), Some(want)) = (x.fresh(id, FULL | 16, 63), x.fresh(id, s, p)) else { continue };
        let out = x.out.clone();
        let mut targets: Vec<PathBuf> = all.parts.iter().map(|q| q.0.clone()).collect();
        targets.push(out.join("prot/umbrella.rs"));
        targets.push(out.join("prot"));
        targets.push(out.clone());
        let singles: Vec<Vec<usize>> = (0..targets.len()).map(|a| vec![a]).collect();
        let pairs: Vec<Vec<usize>> = (0..targets.len() - 2).flat_map(|a| (0..a).map(move |b| vec![b, a])).collect();
        for set in singles.into_iter().chain(pairs) {
            for kind in ["directory", "full", "dangling"] {
                wipe(&out);
                for t in &set {
                    let t = &targets[*t];
                    std::fs::create_dir_all(t.parent().unwrap()).unwrap();
                    match (kind, *t == out || *t == out.join("prot")) {
                        ("directory", true) => std::fs::write(t, "in the way").unwrap(),
                        ("directory", false) => std::fs::create_dir_all(t).unwrap(),
                        ("full", _) => std::os::unix::fs::symlink("/dev/full", t).unwrap(),
                        _ => std::os::unix::fs::symlink(base.join("nowhere/at/all"), t).unwrap(),
                    }
                }
                if !set.iter().any(|t| targets[*t] == out) { std::fs::create_dir_all(out.clone()).unwrap(); }
                let hit = set.iter().any(|t| { let t = &targets[*t]; *t == out || *t == out.join("prot") || t.ends_with("umbrella.rs") || want.parts.iter().any(|q| q.0 == *t) });
                let got = x.one(s, p);
                x.r.execs += 1;
                x.r.count("fault_runs", 1);
                if hit { x.r.nontrivial += 1; }
                let inp = json!({"blocked": set.iter().map(|t| targets[*t].display().to_string()).collect::<Vec<_>>(), "by": kind, "run": desc(s, p)});
                match got {
                    Ok(g) if g != want => x.bad(id, "fault", "the run reports success but its result is not the requested one".into(), inp),
                    Err(e) if e.starts_with("panic") => x.bad(id, "fault", format!("the run panics: {}", e), inp),
                    Err(e) if e.starts_with("result") => x.bad(id, "fault", format!("the run reports success but its result is not the requested one: {}", e), inp),
                    _ => (),
                }
            }
        }
    }
    for id in (i.multi..i.dirs).filter(|d| mine(*d)) {
        x.o.begin(id);
        let p = id - i.multi;
        let out = x.out.clone();
        for set in [vec![], vec![0], vec![0, 1], vec![1, 0], vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]] {
            for sh in [[FULL, 0, 5], [1, 2, 4], [26, FULL, 16]] {
                wipe(&out);
                std::fs::create_dir_all(&out).unwrap();
                let l: Vec<(&str, usize)> = set.iter().map(|j| (MULTI[*j], sh[*j])).collect();
                let inp = json!({"protocols": l.iter().map(|(n, s)| json!([n, shape(n, *s).json()])).collect::<Vec<_>>(), "options": opt_text(p)});
                x.r.execs += 1;
                x.r.transitions += 1;
                x.r.count("multi_runs", 1);
                let got = match x.sch.run(&l, p, &out) { Ok(g) => g, Err(e) => { x.bad(id, "several", e, inp); continue } };
                if got.iter().map(|g| &*g.name).collect::<Vec<_>>() != l.iter().map(|l| l.0).collect::<Vec<_>>() { x.bad(id, "several", format!("the protocols are reported as {:?}", got.iter().map(|g| &g.name).collect::<Vec<_>>()), inp); continue; }
                for (g, (n, s)) in got.iter().zip(&l) {
                    match look(n, &g.path) {
                        Err(e) => x.bad(id, "several", e, inp.clone()),
                        Ok(v) => {
                            let mut w: Vec<_> = v.items.iter().filter_map(|i| promised(i)).collect();
                            w.sort();
                            if w != wanted(*s, p) { x.bad(id, "several", format!("{} has the wrong parts", n), inp.clone()); }
                            if let Some(f) = x.fresh.get(&(*s, p)) { if f.items != v.items { x.bad(id, "several", format!("{} differs from the same protocol generated alone", n), inp.clone()); } }
                        }
                    }
                }
            }
        }
    }
    for id in (i.dirs..i.gr).filter(|d| mine(*d)) {
        x.o.begin(id);
        let keep = x.out.clone();
        x.out = base.join(odd_dirs()[id - i.dirs]);
        x.fresh.clear();
        for p in [63, 0, 1, 26] { x.fresh(id, FULL, p); x.r.count("odd_directories", 1); }
        wipe(&x.out);
        x.fresh.clear();
        x.out = keep;
    }
    let gd = base.join("gr");
    for id in (i.gr..i.own).filter(|d| mine(*d)) {
        x.o.begin(id);
        let s = scripts()[id - i.gr].clone();
        let mut r = std::mem::take(&mut x.r);
        let res = run_script(&mut x.sch, &gd, &s, &mut r);
        x.r = r;
        x.r.execs += 1;
        x.r.count("build_scripts", 1);
        if let Err((key, e)) = res { x.o.viol(id, "build script", &key, &e, json!({"load": s.load, "options": opt_text(s.opts), "out_dir": s.out})); }
    }
    let od = base.join("own");
    for id in (i.own..i.some).filter(|d| mine(*d)) {
        x.o.begin(id);
        let mut r = std::mem::take(&mut x.r);
        let res = own_item(o, id - i.own, &mut x.sch, &od, &mut r);
        x.r = r;
        if let Err((key, e, inp)) = res { x.o.viol(id, "own generator", &key, &e, inp); }
    }
    for id in (i.some..i.torn).filter(|d| mine(*d)) {
        x.o.begin(id);
        let set = some_of(id - i.some);
        for sh in SOME_SHAPES {
            let Some(want) = x.fresh(id, sh, some_means(&set)) else { continue };
            for way in 0..4 {
                let out = x.out.clone();
                wipe(&out);
                std::fs::create_dir_all(&out).unwrap();
                let got = x.one_with(sh, |p| some_options(p, &set, way));
                x.r.execs += 1;
                x.r.count("partly_set_options", 1);
                if got.as_ref() != Ok(&want) { x.bad(id, "partly set", format!("with {} ({}, {}) the result is not the one of {}: {:?}", some_text(&set), if way & 1 == 0 { "in order" } else { "in the opposite order" }, if way & 2 == 0 { "once" } else { "the other way first" }, opt_text(some_means(&set)), got.map(|g| g.parts.len())), json!({"schema": shape("prot", sh).json(), "options": some_text(&set)})); }
            }
        }
    }
    for id in (i.torn..i.end).filter(|d| mine(*d)) {
        x.o.begin(id);
        let (ps, po) = torn_states(o)[id - i.torn];
        let out = x.out.clone();
        wipe(&out);
        std::fs::create_dir_all(&out).unwrap();
        let seen = match x.one(ps, po) { Ok(v) => v, Err(e) => { x.bad(id, "interrupted", e, desc(ps, po)); continue } };
        let snap = snapshot(&out);
        // in the order in which they are written
        let order: Vec<PathBuf> = seen.parts.iter().map(|p| p.0.clone()).chain([out.join("prot/umbrella.rs")]).collect();
        let mut left: BTreeSet<Vec<(PathBuf, Vec<u8>)>> = BTreeSet::new();
        for (at, f) in order.iter().enumerate() {
            let Some(b) = snap.iter().find(|s| s.0 == *f) else { continue };
            for k in 0..TORN {
                for rest in 0..3 {
                    // the others: those written before it, all (of a run before), none
                    let mut st: Vec<_> = snap.iter().filter(|s| s.0 != *f && (rest == 1 || (rest == 0 && order[..at].contains(&s.0)))).cloned().collect();
                    st.push((f.clone(), torn(&b.1, k)));
                    st.sort();
                    left.insert(st);
                }
            }
        }
        // the run the interruption is followed by: the same one, or others
        let mut next = vec![(ps, po), (FULL, 63), (FULL | 32, po), (5, po)];
        if o.thorough { next.extend([(ps, 63), (0, po), (26, 63), (FULL, po)]); }
        next.sort();
        next.dedup();
        for (s, p) in next {
            let Some(want) = x.fresh(id, s, p) else { continue };
            for st in &left {
                restore(&out, st);
                let got = x.one(s, p);
                x.r.execs += 1;
                x.r.nontrivial += 1;
                x.r.count("interrupted_runs", 1);
                if got.as_ref() != Ok(&want) { x.bad(id, "after an interrupted run", format!("the result differs from the one in a fresh directory: {:?}", got.map(|g| g.parts.len())), json!({"left": st.iter().map(|(f, b)| json!([f.display().to_string(), b.len()])).collect::<Vec<_>>(), "of": desc(ps, po), "now": desc(s, p)})); break; }
            }
        }
    }
    let r = std::mem::take(&mut x.r);
    x.o.stat(&r);
}
