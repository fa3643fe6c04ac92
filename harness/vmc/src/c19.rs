//! C19: acceptance, rejection and the absence of panics over mutated schemas.

use crate::compile::{compile, Out as COut};
use crate::shards::case_input;
use crate::util::*;
use crate::worker::{self, Out, Spawn};
use bp3d_protoc::{util::SimpleImportSolver, Loader};
use serde_json::{json, Value};
use spec::mutate;
use spec::space::{cases, Case, Expect, Tier};
use std::panic::{catch_unwind, AssertUnwindSafe};

const N: usize = 8;

fn tier(o: &Opts) -> Tier { if o.thorough { Tier::Thorough } else { Tier::Quick } }

/// Numbers: mutants first, then the schemas of C20 and C22, then texts.
fn further(o: &Opts) -> Vec<Case> {
    let mut v = Vec::new();
    for p in ["C20", "C22"] { v.extend(cases(p, tier(o))); }
    let n = mutate::each(tier(o), &|_| false, &mut |_| ());
    for (i, c) in v.iter_mut().enumerate() { c.id = n + i; }
    v
}

fn find(o: &Opts, more: &[Case], tx: &[Text], id: usize) -> (String, Value) {
    let n = more[0].id;
    if id >= n + more.len() + tx.len() { let k = id - n - more.len() - tx.len(); return ("file".into(), json!(FILES[k / 2].0)); }
    if id >= n + more.len() { let t = &tx[id - n - more.len()]; return (t.label.clone(), json!(t.text)); }
    if id >= n { let c = &more[id - n]; return (c.label.clone(), case_input(c)); }
    let mut r = ("mutant".into(), json!(null));
    mutate::each(tier(o), &|i| i == id, &mut |c| r = (c.label.clone(), case_input(&c)));
    r
}

/// A schema text and whether it must be refused.
struct Text { label: String, text: String, must_fail: bool }

/// What is where a schema file should be.
const FILES: [(&str, &[u8]); 9] = [
    ("nothing there", b""), ("a directory", b""), ("a link to nowhere", b""), ("a file below a file", b""), ("no bytes", b""),
    ("one byte which is no text", b"\xff"), ("a name which is no text", b"{name:\"a\x80\"}"), ("a comment which is no text", b"{name:\"a\"} // \xc3"), ("UTF-16", b"\xff\xfe{\0}\0"),
];

/// Puts the `k`-th of them there; the path to load.
fn put(dir: &std::path::Path, k: usize) -> std::path::PathBuf {
    let p = dir.join(format!("file{}.json5", k));
    match k {
        0 => (),
        1 => { let _ = std::fs::create_dir(&p); }
        2 => { let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &p); }
        3 => { std::fs::write(&p, "{name:\"a\"}").unwrap(); return p.join("x.json5"); }
        _ => std::fs::write(&p, FILES[k].1).unwrap(),
    }
    p
}

fn tokens(t: &str) -> Vec<String> {
    let mut out = Vec::new();
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let s = i;
        if c[i].is_whitespace() { i += 1; continue; }
        if c[i] == '"' { i += 1; while c[i] != '"' { i += 1; } i += 1; }
        else if c[i].is_alphanumeric() || c[i] == '-' || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || "-_.".contains(c[i])) { i += 1; } }
        else { i += 1; }
        out.push(c[s..i].iter().collect());
    }
    out
}

/// Paths of all members of a JSON value.
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => for (k, x) in m { at.push(k.clone()); out.push(at.clone()); paths(x, at, out); at.pop(); },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(i.to_string()); paths(x, at, out); at.pop(); },
        _ => (),
    }
}
fn at_mut<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    p.iter().fold(v, |v, k| match v { Value::Array(a) => &mut a[k.parse::<usize>().unwrap()], v => &mut v[k.as_str()] })
}

fn texts() -> Vec<Text> {
    let mut out = Vec::new();
    for (bn, base) in mutate::bases() {
        let p = base.last().unwrap();
        let t = p.json();
        let toks = tokens(&t);
        let join = |v: &[String]| v.join(" ");
        for i in 0..toks.len() {
            let mut d = toks.clone();
            d.remove(i);
            let bracket = ["{", "}", "[", "]", ":"].contains(&&*toks[i]);
            out.push(Text { label: format!("{}: token {} {:?} removed", bn, i, toks[i]), text: join(&d), must_fail: bracket });
            let mut d = toks.clone();
            d.insert(i, toks[i].clone());
            out.push(Text { label: format!("{}: token {} {:?} doubled", bn, i, toks[i]), text: join(&d), must_fail: ["}", "]", ":", ","].contains(&&*toks[i]) });
            out.push(Text { label: format!("{}: text ends before token {} {:?}", bn, i, toks[i]), text: join(&toks[..i]), must_fail: true });
            for r in ["0", "-1", "1.5", "1e400", "-0", "NaN", "Infinity", "0x10", "9223372036854775807", "18446744073709551615", "18446744073709551616", "null", "true", "\"zz\"", "\"\"", "\"\u{e9}\u{0}\"", "[", "{", "}", "]", ",", "//"] {
                let mut d = toks.clone();
                d[i] = r.into();
                out.push(Text { label: format!("{}: token {} {:?} replaced by {:?}", bn, i, toks[i], r), text: join(&d), must_fail: bracket && r.len() > 2 });
            }
        }
        // structured edits
        let v = ast_value(p);
        let mut ps = Vec::new();
        paths(&v, &mut vec![], &mut ps);
        for q in ps {
            let key = q.last().unwrap().clone();
            let parent: Vec<String> = q[..q.len() - 1].to_vec();
            let in_variants = parent.last().is_some_and(|k| k == "variants");
            let optional = ["endianness", "imports", "structs", "messages", "enums", "unions", "view", "array_len", "optional"].contains(&&*key)
                || (key == "max_len" && at_mut(&mut v.clone(), &parent)["type"] == "string")
                || (key == "item_type" && parent.len() >= 2 && parent[parent.len() - 2] == "cases");
            let needed = !optional && !in_variants;
            let mut w = v.clone();
            at_mut(&mut w, &parent).as_object_mut().unwrap().remove(&key);
            out.push(Text { label: format!("{}: {} missing", bn, q.join(".")), text: w.to_string(), must_fail: needed });
            let cur = at_mut(&mut w.clone(), &parent).clone();
            let _ = cur;
            let old = at_mut(&mut v.clone(), &q).clone();
            for r in [json!(null), json!(true), json!([]), json!({}), json!("zz"), json!(-1), json!(0.5), json!([[]]), json!([null])] {
                let mut w = v.clone();
                *at_mut(&mut w, &q) = r.clone();
                let kind = |v: &Value| match v { Value::Null => 0, Value::Bool(_) => 1, Value::Number(_) => 2, Value::String(_) => 3, Value::Array(_) => 4, Value::Object(_) => 5 };
                // a member of another JSON kind cannot be a valid schema; null stands for absence
                let tag = key == "type" || key == "endianness";
                let bad = if r.is_null() { !optional } else { kind(&r) != kind(&old) || (tag && r == "zz") || (r == json!(-1) && ["bits", "max_len", "array_len"].contains(&&*key)) || r == json!([[]]) || r == json!([null]) };
                // serde accepts a sequence in the place of a structure
                let lenient = matches!(r, Value::Array(_)) && kind(&old) == 5;
                out.push(Text { label: format!("{}: {} = {}", bn, q.join("."), r), text: w.to_string(), must_fail: bad && !lenient });
            }
            let mut w = v.clone();
            at_mut(&mut w, &parent).as_object_mut().unwrap().insert("unknown_member".into(), json!(1));
            out.push(Text { label: format!("{}: extra member beside {}", bn, q.join(".")), text: w.to_string(), must_fail: false });
        }
    }
    for (l, t) in [("empty text", ""), ("number", "1"), ("array", "[]"), ("string", "\"x\""), ("null", "null"), ("comment", "// x"), ("two values", "{name:\"a\"} {name:\"b\"}"), ("no name", "{}"), ("invalid utf-8 is not text", "\u{0}")] {
        out.push(Text { label: l.into(), text: t.into(), must_fail: true });
    }
    for (l, t) in [("minimal", "{name:\"a\"}"), ("comments and trailing commas", "/* x */ {name: 'a', structs: [],} // y"), ("deep", "{name:\"a\",structs:[{name:\"S\",fields:[{name:\"f\",info:{type:\"unsigned\",bits:8,},},],},],}")] {
        out.push(Text { label: format!("valid {}", l), text: t.into(), must_fail: false });
    }
    for (l, t) in ladders() { out.push(Text { label: format!("valid ladder: {}", l), text: t, must_fail: false }); }
    // deep nesting must not exhaust the stack
    out.push(Text { label: "deeply nested arrays".into(), text: format!("{{name:\"a\",structs:{}{}}}", "[".repeat(200), "]".repeat(200)), must_fail: true });
    out
}

/// Types of which each holds the one before it twice: a number of occurrences exponential in the
/// number of types, which loading, compiling and generating must not take the time of.
fn ladders() -> Vec<(String, String)> {
    const DEPTH: usize = 44;
    let mut out = Vec::new();
    let u8f = |n: &str| json!({"name": n, "info": {"type": "unsigned", "bits": 8}});
    for (optional, leaf) in [(false, "u8"), (true, "u8"), (false, "string")] {
        let mut messages = vec![json!({"name": "M0", "fields": [if leaf == "u8" { json!({"name": "x", "info": {"type": "item", "item_type": "F"}}) } else { json!({"name": "x", "info": {"type": "string"}}) }]})];
        for n in 1..=DEPTH {
            let f = |name: &str| json!({"name": name, "info": {"type": "item", "item_type": format!("M{}", n - 1)}, "optional": optional});
            messages.push(json!({"name": format!("M{}", n), "fields": [f("a"), f("b")]}));
        }
        let p = json!({"name": "a", "structs": [{"name": "F", "fields": [u8f("t")]}], "messages": messages});
        out.push((format!("{}messages of {}", if optional { "optional " } else { "" }, leaf), p.to_string()));
    }
    for arrays in [false, true] {
        let mut structs = vec![json!({"name": "S0", "fields": [u8f("x")]})];
        for n in 1..=DEPTH {
            let f = |name: &str| { let mut i = json!({"type": "struct", "item_type": format!("S{}", n - 1)}); if arrays { i["array_len"] = json!(2); } json!({"name": name, "info": i}) };
            structs.push(json!({"name": format!("S{}", n), "fields": if arrays { vec![f("a")] } else { vec![f("a"), f("b")] }}));
        }
        out.push((if arrays { "arrays of structures" } else { "structures" }.into(), json!({"name": "a", "structs": structs}).to_string()));
    }
    out
}

/// Plain JSON of a protocol.
fn ast_value(p: &spec::ast::Proto) -> Value {
    use spec::ast::*;
    let mut o = serde_json::Map::new();
    o.insert("name".into(), json!(p.name));
    o.insert("endianness".into(), json!(if p.endian == Some(End::Big) { "big" } else { "little" }));
    if !p.imports.is_empty() { o.insert("imports".into(), p.imports.iter().map(|(a, b)| json!({"protocol": a, "type": b})).collect()); }
    let sty = |t: &STy| match t { STy::Signed(b) => json!({"type": "signed", "bits": b}), STy::Unsigned(b) => json!({"type": "unsigned", "bits": b}), STy::Float(b) => json!({"type": "float", "bits": b}), STy::Bool(b) => json!({"type": "boolean", "bits": b}), STy::Struct(n) => json!({"type": "struct", "item_type": n}) };
    let sfield = |f: &SField| {
        let mut o = json!({"name": f.name, "info": sty(&f.ty)});
        if let Some(v) = &f.view { o["view"] = match v { View::Enum(n) => json!({"type": "enum", "name": n}), View::Range(a, b) => json!({"type": "float-range", "min": a, "max": b}), View::Mult(m) => json!({"type": "float-multiplier", "multiplier": m}) }; }
        if let Some(n) = f.array_len { o["array_len"] = json!(n); }
        o
    };
    let mfield = |f: &MField| {
        let mut o = json!({"name": f.name, "info": match &f.ty { MTy::Item(n) => json!({"type": "item", "item_type": n}), MTy::List { max, item } => json!({"type": "list", "max_len": max, "item_type": item}), MTy::Str(None) => json!({"type": "string"}), MTy::Str(Some(n)) => json!({"type": "string", "max_len": n}), MTy::Payload => json!({"type": "payload"}), MTy::Union { on, item } => json!({"type": "union", "on": on, "item_type": item}) }});
        if f.optional { o["optional"] = json!(true); }
        o
    };
    o.insert("structs".into(), p.structs.iter().map(|s| json!({"name": s.name, "fields": s.fields.iter().map(sfield).collect::<Vec<_>>()})).collect());
    o.insert("messages".into(), p.messages.iter().map(|s| json!({"name": s.name, "fields": s.fields.iter().map(mfield).collect::<Vec<_>>()})).collect());
    o.insert("enums".into(), p.enums.iter().map(|e| json!({"name": e.name, "variants": e.variants.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>()})).collect());
    o.insert("unions".into(), p.unions.iter().map(|u| json!({"name": u.name, "discriminant": u.disc, "cases": u.cases.iter().map(|c| { let mut o = json!({"name": c.name, "case": c.case}); if let Some(i) = &c.item { o["item_type"] = json!(i); } o }).collect::<Vec<_>>()})).collect());
    Value::Object(o)
}

pub fn run(o: &Opts) -> Result<Report, String> {
    let more = further(o);
    let tx = texts();
    let _ = std::fs::remove_dir_all(o.work());
    std::fs::create_dir_all(o.work()).map_err(|e| e.to_string())?;
    let spawns: Vec<Spawn> = (0..N).map(|k| {
        let mut args = vec!["--worker".into(), k.to_string()];
        if let Some(c) = o.case { args.extend(["--case".into(), c.to_string()]); }
        Spawn { args, env: vec![] }
    }).collect();
    let (mut rep, _) = worker::run(o, &spawns, |id| find(o, &more, &tx, id))?;
    rep.viols.sort_by_key(|v| v.case);
    let _ = std::fs::remove_dir_all(o.work());
    Ok(rep)
}

pub fn work(o: &Opts, k: usize) {
    let dir = o.work().join(format!("w{}", k));
    std::fs::create_dir_all(&dir).unwrap();
    let more = further(o);
    let mut out = Out::new();
    let mut r = Report::default();
    let mine = |id: usize| id % N == k && o.case.is_none_or(|c| c == id);
    let mut one = |c: &Case| {
        out.begin(c.id);
        r.transitions += 1;
        r.states += c.units.iter().map(|u| (u.structs.len() + u.messages.len() + u.unions.len() + u.enums.len()) as u64).sum::<u64>();
        let want = match c.expect { Expect::Accept => Some(Ok(())), Expect::Reject => Some(Err("declared invalid".to_string())), Expect::Model => Some(mutate::predicted(c)), Expect::Any => None };
        let got = compile(&dir, c);
        let mut v = |key: &str, what: String| out.viol(c.id, &c.label, key, &what, case_input(c));
        match (&got, &want) {
            (COut::Panic(u, e), _) => v("panic", format!("unit {}: the compiler panics: {}", u, e)),
            (COut::GenFail(u, e), _) => v("generation", format!("unit {}: the compiled protocol cannot be generated: {}", u, e)),
            (COut::Done(_), Some(Err(e))) => v("accepted", format!("the compiler accepts a schema it must reject: {}", e)),
            (COut::Reject(u, e), Some(Ok(()))) => v("rejected", format!("unit {}: the compiler refuses a valid schema: {}", u, e)),
            _ => (),
        }
        match got { COut::Done(_) => r.count("accepted", 1), COut::Reject(..) => r.count("rejected", 1), _ => () }
        if want.is_none() { r.count("panic_freedom_only", 1); } else { r.execs += 1; }
        if matches!(want, Some(Err(_))) { r.nontrivial += 1; }
        r.sample(|| format!("{}: {}", c.label, c.units.last().unwrap().json()));
    };
    mutate::each(tier(o), &mine, &mut |c| one(&c));
    for c in more.iter().filter(|c| mine(c.id)) { one(c); }
    let all = more[0].id + more.len();
    let tx = texts();
    // the imports base needs its exporter
    let dep = dir.join("dep.json5");
    std::fs::write(&dep, mutate::bases()[2].1[0].json()).unwrap();
    for (i, t) in tx.iter().enumerate() {
        let id = all + i;
        if !mine(id) { continue; }
        out.begin(id);
        r.count("texts", 1);
        r.transitions += 1;
        let f = dir.join("text.json5");
        std::fs::write(&f, &t.text).unwrap();
        let g = dir.join("out");
        let _ = std::fs::create_dir(&g);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut l = Loader::new();
            l.import(&dep, "crate::q").map_err(|e| format!("import: {}", e)).unwrap();
            l.load(&f).map_err(|e| e.to_string())?;
            let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
            Ok::<_, String>(p)
        }));
        match res {
            Err(e) => out.viol(id, "text", &format!("panic@{}", panic_at()), &format!("{}: the compiler panics: {}", t.label, panic_msg(e)), json!(t.text)),
            Ok(Ok(_)) if t.must_fail => out.viol(id, "text", "accepted", &format!("{}: a malformed schema is accepted", t.label), json!(t.text)),
            Ok(Err(e)) if t.label.starts_with("valid") => out.viol(id, "text", "rejected", &format!("{}: a valid schema is refused: {}", t.label, e), json!(t.text)),
            Ok(Ok(p)) => {
                r.count("texts_accepted", 1);
                // names of arbitrary text may not be usable as file names; only panics count
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| { if let Err(e) = p.generate::<bp3d_protoc::gen::GeneratorRust>(&g) {
                    if t.label.starts_with("valid") { out.viol(id, "text", "generation", &format!("{}: a compiled protocol cannot be generated: {}", t.label, e), json!(t.text)); }
                } })) {
                    out.viol(id, "text", "generation panic", &format!("{}: generation panics: {}", t.label, panic_msg(e)), json!(t.text));
                }
            }
            Ok(Err(_)) => (),
        }
        r.execs += 1;
        // the same text as a protocol to import from
        r.transitions += 1;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut l = Loader::new();
            l.import(&dep, "crate::q").map_err(|e| format!("import: {}", e)).unwrap();
            l.import(&f, "crate::r").map_err(|e| e.to_string())?;
            l.compile(SimpleImportSolver::new("::")).map(|_| ()).map_err(|e| e.to_string())
        }));
        match res {
            Err(e) => out.viol(id, "text", &format!("panic@{}", panic_at()), &format!("{}: importing panics: {}", t.label, panic_msg(e)), json!(t.text)),
            Ok(Ok(_)) if t.must_fail => out.viol(id, "text", "imported", &format!("{}: a malformed schema can be imported", t.label), json!(t.text)),
            Ok(Err(e)) if t.label.starts_with("valid") => out.viol(id, "text", "import rejected", &format!("{}: a valid schema cannot be imported: {}", t.label, e), json!(t.text)),
            _ => (),
        }
    }
    // something else than a text where the file should be: an error, and the loader stays usable
    let good = dir.join("good.json5");
    std::fs::write(&good, "{name:\"good\", structs:[{name:\"S\",fields:[{name:\"f\",info:{type:\"unsigned\",bits:8}}]}]}").unwrap();
    for k in 0..FILES.len() {
        for import in [false, true] {
            let id = all + tx.len() + 2 * k + import as usize;
            if !mine(id) { continue; }
            out.begin(id);
            r.count("odd_files", 1);
            r.transitions += 3;
            r.execs += 1;
            let f = put(&dir, k);
            let res = catch_unwind(AssertUnwindSafe(|| {
                let mut l = Loader::new();
                let mut get = |p: &std::path::Path, imp: bool| if imp { l.import(p, "crate::z") } else { l.load(p) }.map_err(|e| e.to_string());
                let odd = get(&f, import);
                let rest = get(&good, false);
                (odd, rest.and_then(|_| l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?.generate::<bp3d_protoc::gen::GeneratorRust>(&dir).map(|p| p.len()).map_err(|e| e.to_string())))
            }));
            match res {
                Err(e) => out.viol(id, "file", &format!("panic@{}", panic_at()), &format!("{}: the compiler panics: {}", FILES[k].0, panic_msg(e)), json!(FILES[k].0)),
                Ok((Ok(()), _)) => out.viol(id, "file", "accepted", &format!("{} in the place of a schema is accepted", FILES[k].0), json!(FILES[k].0)),
                Ok((Err(_), Ok(1))) => (),
                Ok((Err(e), n)) => out.viol(id, "file", "loader", &format!("after {} ({}) the loader yields {:?}", FILES[k].0, e, n), json!(FILES[k].0)),
            }
        }
    }
    out.stat(&r);
}
