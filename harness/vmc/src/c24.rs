//! C24: template rendering against a reference interpreter.

use crate::util::*;
use crate::worker::{self, Out, Spawn};
use bp3d_protoc::gen::template::{Error, FunctionMap, Scope, Template};
use serde_json::json;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const N: usize = 8;

type Vars = BTreeMap<&'static str, String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ek { Utf8, Pop, NoFrag, Frag, Var, Fun }

fn ek(e: &Error) -> Ek {
    match e {
        Error::InvalidUTF8 => Ek::Utf8,
        Error::InvalidPop => Ek::Pop,
        Error::NoFragment => Ek::NoFrag,
        Error::FragmentNotFound(_) => Ek::Frag,
        Error::VariableNotFound(_) => Ek::Var,
        Error::FunctionNotFound(_) => Ek::Fun,
    }
}

// ---- the reference ------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tok { Text(&'static str), Open, Close, Var(&'static str, Option<&'static str>) }

fn tok_text(t: &Tok) -> String {
    match t {
        Tok::Text(s) => s.to_string(),
        Tok::Open => "{{".into(),
        Tok::Close => "}}".into(),
        Tok::Var(v, None) => format!("{{{}}}", v),
        Tok::Var(v, Some(f)) => format!("{{{}:{}}}", v, f),
    }
}

fn call(f: &str, v: &str) -> Option<String> {
    Some(match f {
        "upper" => v.to_uppercase(),
        "lower" => v.to_lowercase(),
        "capitalize" => { let mut c = v.chars(); match c.next() { Some(x) => x.to_uppercase().collect::<String>() + c.as_str(), None => String::new() } }
        _ => return None,
    })
}

fn tok_render(t: &Tok, vars: &Vars) -> Result<String, Ek> {
    Ok(match t {
        Tok::Text(s) => s.to_string(),
        Tok::Open => "{".into(),
        Tok::Close => "}".into(),
        Tok::Var(v, f) => {
            let x = vars.get(v).ok_or(Ek::Var)?;
            match f { None => x.clone(), Some(f) => call(f, x).ok_or(Ek::Fun)? }
        }
    })
}

fn envs() -> Vec<Vars> {
    let mk = |v: &[(&'static str, &str)]| v.iter().map(|(k, v)| (*k, v.to_string())).collect::<Vars>();
    vec![mk(&[]), mk(&[("x", "aB"), ("y", "")]), mk(&[("x", "{y}"), ("y", "q}}\nz:upper")]), mk(&[("x", "\u{e9}t"), ("y", "1"), ("n", "zz"), ("", "empty")]), mk(&[("x", "\u{df}Q"), ("y", "Zed")]),
        mk(&[("x", "aB"), ("y", "cD"), ("a b", "1"), (" x", "2"), ("x ", "3"), ("a.x", "4Q"), ("\u{e9}\u{4f60}", "\u{e9}z"), ("\"", "5"), ("", "eMpty"), ("x:lower", "6"), ("x:upper", "7")])]
}

const TOKS: &[Tok] = &[Tok::Text("ab"), Tok::Text(" "), Tok::Text("\u{e9}:"), Tok::Open, Tok::Close, Tok::Var("x", None), Tok::Var("y", Some("upper")), Tok::Var("x", Some("lower")), Tok::Var("x", Some("capitalize")), Tok::Var("n", None), Tok::Var("y", Some("nofn"))];

/// Odd names, functions and texts, in shorter sequences.
const ODD: &[Tok] = &[Tok::Text(":"), Tok::Text("a:b"), Tok::Text("\"q\\"), Tok::Text(" #fragment pop"), Tok::Text("\t"), Tok::Text("$x%s"), Tok::Open, Tok::Close, Tok::Var("x", None), Tok::Var("y", Some("upper")),
    Tok::Var("x", Some("upper:lower")), Tok::Var("x", Some("lower:upper")), Tok::Var("x", Some("")), Tok::Var("x", Some(" upper")), Tok::Var("x", Some("Upper")), Tok::Var("x", Some("upper ")), Tok::Var("a b", None), Tok::Var(" x", None), Tok::Var("x ", None), Tok::Var("a.x", Some("lower")), Tok::Var("\u{e9}\u{4f60}", Some("capitalize")), Tok::Var("\"", None), Tok::Var("", Some("upper"))];

struct Run<'a> { out: &'a mut Out, r: Report, id: usize, fails: BTreeMap<String, u32>, only: Option<usize> }

impl Run<'_> {
    fn fail(&mut self, key: &str, what: String, input: String) {
        let n = self.fails.entry(key.into()).or_insert(0);
        *n += 1;
        if *n <= 2 { self.out.viol(self.id, "template", key, &what, json!(input)); }
    }
    fn next(&mut self) -> bool {
        self.id += 1;
        self.r.states += 1;
        if self.id % 256 == 1 { self.out.begin(self.id); }
        self.only.is_none_or(|o| o == self.id)
    }
}

fn same(a: &Result<String, Ek>, b: &Result<String, Ek>) -> bool { a == b }

fn check_line(run: &mut Run, seqs: &[Vec<Tok>]) {
    if !run.next() { return; }
    let body: Vec<String> = seqs.iter().map(|s| s.iter().map(tok_text).collect::<String>()).collect();
    let doc = format!("#fragment push f\n{}\n#fragment pop\n", body.join("\n"));
    if seqs.iter().any(|s| s.is_empty()) { return; }
    let bad_fn = seqs.iter().flatten().any(|t| matches!(t, Tok::Var(_, Some(f)) if call(f, "").is_none()));
    let res = catch_unwind(AssertUnwindSafe(|| Template::compile(doc.as_bytes()).map(|t| {
        envs().iter().map(|e| {
            let mut s = t.scope();
            for (k, v) in e { s.var(k, v.as_str()); }
            s.render("", &["f"]).map_err(|e| ek(&e))
        }).collect::<Vec<_>>()
    }).map_err(|e| ek(&e))));
    run.r.execs += 1;
    match res {
        Err(e) => run.fail("line:panic", format!("panic: {}", panic_msg(e)), doc),
        Ok(Err(Ek::Fun)) if bad_fn => run.r.nontrivial += 1,
        Ok(Err(e)) => run.fail("line:compile", format!("compiling fails with {:?}", e), doc),
        Ok(Ok(_)) if bad_fn => run.fail("line:function", "an unknown function is accepted".into(), doc),
        Ok(Ok(got)) => for (g, e) in got.iter().zip(envs()) {
            run.r.transitions += 1;
            let want: Result<String, Ek> = seqs.iter().map(|s| s.iter().map(|t| tok_render(t, &e)).collect::<Result<String, Ek>>().map(|x| x + "\n")).collect::<Result<String, Ek>>();
            if !same(g, &want) { run.fail("line:render", format!("renders {:?} with {:?}, expected {:?}", g, e, want), doc.clone()); }
        },
    }
}

// ---- fragment structure -------------------------------------------------------------------

const LINES: &[&str] = &["#fragment push a", "#fragment push b", "#fragment pop", "T{x}", "u", ""];

fn structure(lines: &[&str]) -> Result<BTreeMap<String, Vec<String>>, Ek> {
    let mut stack: Vec<(String, Vec<String>)> = Vec::new();
    let mut out = BTreeMap::new();
    for l in lines {
        if l.is_empty() { continue; }
        if let Some(n) = l.strip_prefix("#fragment push ") { stack.push((n.to_string(), vec![])); continue; }
        if *l == "#fragment pop" {
            let path = stack.iter().map(|s| s.0.clone()).collect::<Vec<_>>().join(".");
            let (_, body) = stack.pop().ok_or(Ek::Pop)?;
            out.insert(path, body);
            continue;
        }
        stack.last_mut().ok_or(Ek::NoFrag)?.1.push(l.to_string());
    }
    Ok(out)
}

const QUERIES: &[(&str, &[&str])] = &[("", &["a"]), ("", &["b"]), ("", &["a.b"]), ("a", &["b"]), ("a", &["a"]), ("b", &["a", "b"]), ("", &["a", "b"]), ("", &["b", "a"]), ("a.b", &["a"]), ("a", &["b.a"]), ("", &[]), ("", &["c"]), ("c", &["a"]), ("a", &[""]), ("", &["a", "a"])];

fn check_structure(run: &mut Run, lines: &[&str], eol: &str, tail: bool) {
    if !run.next() { return; }
    let mut doc = lines.join(eol);
    if tail { doc += eol; }
    let want = structure(lines);
    let res = catch_unwind(AssertUnwindSafe(|| Template::compile(doc.as_bytes()).map(|mut t| {
        t.var("x", "1");
        QUERIES.iter().map(|(p, f)| t.render(p, f).map_err(|e| ek(&e))).collect::<Vec<_>>()
    }).map_err(|e| ek(&e))));
    run.r.execs += 1;
    match (res, want) {
        (Err(e), _) => run.fail("structure:panic", format!("panic: {}", panic_msg(e)), doc),
        (Ok(Err(_)), Err(_)) => run.r.nontrivial += 1,
        (Ok(Err(e)), Ok(_)) => run.fail("structure:compile", format!("compiling fails with {:?}", e), doc),
        (Ok(Ok(_)), Err(e)) => run.fail("structure:accepted", format!("compiles, expected {:?}", e), doc),
        (Ok(Ok(got)), Ok(fr)) => for (g, (p, f)) in got.iter().zip(QUERIES) {
            run.r.transitions += 1;
            let want: Result<String, Ek> = f.iter().map(|n| {
                let path = if p.is_empty() { n.to_string() } else { format!("{}.{}", p, n) };
                fr.get(&path).map(|b| b.iter().map(|l| l.replace("{x}", "1") + "\n").collect::<String>()).ok_or(Ek::Frag)
            }).collect();
            if !same(g, &want) { run.fail("structure:render", format!("render({:?}, {:?}) = {:?}, expected {:?}", p, f, g, want), doc.clone()); }
        },
    }
}

// ---- scopes -------------------------------------------------------------------------------

const SCOPE_DOC: &str = "#fragment push s\n<{x}|{y}>\n#fragment push in\n{y}{x:upper}\n#fragment pop\n#fragment pop\n#fragment push k\nk\n#fragment pop\n#fragment push z\n{z}\n#fragment pop\n#fragment push e\n#fragment pop\n";
const SCOPE_Q: &[(&str, &[&str])] = &[("", &["s"]), ("s", &["in"]), ("", &["z"]), ("", &["s.in", "k"])];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op { TVar(&'static str, &'static str), TVarD(&'static str, i32), New, Clone, Var(usize, &'static str, &'static str), VarD(usize, &'static str, i32), To(usize, &'static str, &'static [&'static str], &'static str) }

const OPS: &[Op] = &[Op::TVar("x", "p"), Op::TVar("x", "{y}"), Op::TVar("y", "q"), Op::TVarD("y", -7), Op::New, Op::Clone, Op::Var(0, "x", "v"), Op::Var(1, "x", "w"), Op::Var(1, "y", "u"), Op::VarD(0, "y", 12),
    Op::To(0, "", &["s"], "x"), Op::To(1, "s", &["in"], "z"), Op::To(0, "", &["k", "k"], "z"), Op::To(1, "", &["nope"], "x"),
    Op::To(0, "", &["e"], "x"), Op::To(1, "", &[], "y")];

#[derive(Default, Clone)]
struct SModel { t: Vars, s: Vec<Vars> }

fn sfrag(path: &str, vars: &Vars) -> Result<String, Ek> {
    let g = |k: &'static str| vars.get(k).cloned().ok_or(Ek::Var);
    match path {
        "s" => Ok(format!("<{}|{}>\n", g("x")?, g("y")?)),
        "s.in" => Ok(format!("{}{}\n", g("y")?, g("x")?.to_uppercase())),
        "k" => Ok("k\n".into()),
        "e" => Ok(String::new()),
        "z" => Ok(format!("{}\n", g("z")?)),
        _ => Err(Ek::Frag),
    }
}
fn squery(p: &str, f: &[&str], vars: &Vars) -> Result<String, Ek> {
    f.iter().map(|n| sfrag(&if p.is_empty() { n.to_string() } else { format!("{}.{}", p, n) }, vars)).collect()
}

/// A prefix of operations is meaningful when every scope it names exists.
fn enabled(m: &SModel, op: Op) -> bool {
    match op {
        Op::TVar(..) | Op::TVarD(..) => true,
        Op::New => m.s.len() < 2,
        Op::Clone => m.s.len() == 1,
        Op::Var(i, ..) | Op::VarD(i, ..) | Op::To(i, ..) => i < m.s.len(),
    }
}

fn step(m: &mut SModel, op: Op) -> Result<(), Ek> {
    match op {
        // the template can only be changed while no scope of it is alive
        Op::TVar(k, v) => { m.s.clear(); m.t.insert(k, v.into()); }
        Op::TVarD(k, v) => { m.s.clear(); m.t.insert(k, v.to_string()); }
        Op::New => m.s.push(m.t.clone()),
        Op::Clone => { let c = m.s[0].clone(); m.s.push(c); }
        Op::Var(i, k, v) => { m.s[i].insert(k, v.into()); }
        Op::VarD(i, k, v) => { m.s[i].insert(k, v.to_string()); }
        Op::To(i, p, f, k) => { let r = squery(p, f, &m.s[i])?; m.s[i].insert(k, r); }
    }
    Ok(())
}

/// Runs a history on the real code; observations at its end, and the results of render_to_var.
fn real(ops: &[Op]) -> (Vec<bool>, Vec<Result<String, Ek>>) {
    let mut t = Template::compile(SCOPE_DOC.as_bytes()).expect("template");
    let mut oks = Vec::new();
    let mut obs = Vec::new();
    let mut i = 0;
    let q = |s: &Scope| SCOPE_Q.iter().map(|(p, f)| s.render(p, f).map_err(|e| ek(&e))).collect::<Vec<_>>();
    loop {
        while i < ops.len() {
            match ops[i] { Op::TVar(k, v) => { t.var(k, v); } Op::TVarD(k, v) => { t.var_d(k, v); } _ => break }
            i += 1;
        }
        {
            let mut s: Vec<Scope> = Vec::new();
            while i < ops.len() {
                match ops[i] {
                    Op::TVar(..) | Op::TVarD(..) => break,
                    Op::New => s.push(t.scope()),
                    Op::Clone => { let c = s[0].clone(); s.push(c); }
                    Op::Var(k, n, v) => { s[k].var(n, v); }
                    Op::VarD(k, n, v) => { s[k].var_d(n, v); }
                    Op::To(k, p, f, n) => oks.push(s[k].render_to_var(p, f, n).is_ok()),
                }
                i += 1;
            }
            if i >= ops.len() {
                obs.extend(SCOPE_Q.iter().map(|(p, f)| t.render(p, f).map_err(|e| ek(&e))));
                for x in &s { obs.extend(q(x)); }
                return (oks, obs);
            }
        }
    }
}

fn scopes(run: &mut Run, k: usize, ops: &mut Vec<Op>, m: &SModel, oks: &mut Vec<bool>, depth: usize) {
    if !ops.is_empty() && run.next() {
        let res = catch_unwind(AssertUnwindSafe(|| real(ops)));
        run.r.execs += 1;
        let mut want: Vec<Result<String, Ek>> = SCOPE_Q.iter().map(|(p, f)| squery(p, f, &m.t)).collect();
        for s in &m.s { want.extend(SCOPE_Q.iter().map(|(p, f)| squery(p, f, s))); }
        if m.s.len() == 2 { run.r.nontrivial += 1; }
        match res {
            Err(e) => run.fail("scope:panic", format!("panic: {}", panic_msg(e)), format!("{:?}", ops)),
            Ok((o, g)) => if o != *oks || g != want { run.fail("scope:state", format!("after {:?}: observed {:?} {:?}, expected {:?} {:?}", ops, o, g, oks, want), format!("{:?}", ops)); },
        }
    }
    if depth == 0 { return; }
    for (i, op) in OPS.iter().enumerate() {
        if ops.is_empty() && i % N != k { continue; }
        if !enabled(m, *op) { continue; }
        let mut m2 = m.clone();
        let r = step(&mut m2, *op);
        run.r.transitions += 1;
        ops.push(*op);
        let is_to = matches!(op, Op::To(..));
        if is_to { oks.push(r.is_ok()); }
        scopes(run, k, ops, &m2, oks, depth - 1);
        if is_to { oks.pop(); }
        ops.pop();
    }
}

fn seqs<T: Copy>(alpha: &[T], len: usize, f: &mut impl FnMut(&[T])) {
    fn go<T: Copy>(alpha: &[T], cur: &mut Vec<T>, left: usize, f: &mut impl FnMut(&[T])) {
        if left == 0 { f(cur); return; }
        for a in alpha { cur.push(*a); go(alpha, cur, left - 1, f); cur.pop(); }
    }
    go(alpha, &mut vec![], len, f);
}

fn twice(v: &str) -> std::borrow::Cow<'_, str> { (v.to_string() + v).into() }

fn singles(run: &mut Run) {
    // text that is not UTF-8, in every position of the alphabet's lines
    for pre in ["", "a", "{x}", "{{"] { for post in ["", "b", "{x}", "}}"] { for bad in [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80"] {
        if !run.next() { continue; }
        let mut d = b"#fragment push f\n".to_vec();
        d.extend(pre.as_bytes());
        d.extend(bad);
        d.extend(post.as_bytes());
        d.extend(b"\n#fragment pop\n");
        run.r.execs += 1;
        match catch_unwind(AssertUnwindSafe(|| Template::compile(&d).map(|_| ()).map_err(|e| ek(&e)))) {
            Ok(Err(Ek::Utf8)) => (),
            r => run.fail("bytes:utf8", format!("invalid text gives {:?}", r.map_err(panic_msg)), format!("{:?}", d)),
        }
        let mut d = b"#fragment push ".to_vec();
        d.extend(bad);
        d.extend(b"\nx\n#fragment pop\n");
        match catch_unwind(AssertUnwindSafe(|| Template::compile(&d).map(|_| ()).map_err(|e| ek(&e)))) {
            Ok(Err(Ek::Utf8)) => (),
            r => run.fail("bytes:utf8name", format!("invalid fragment name gives {:?}", r.map_err(panic_msg)), format!("{:?}", d)),
        }
    } } }
    // function maps
    let doc = b"#fragment push f\n{x:twice}{x}\n#fragment pop\n#fragment push g\n{x:upper}\n#fragment pop\n";
    let only = b"#fragment push f\n{x:twice}{x}\n#fragment pop\n";
    if run.next() {
        let mut m = FunctionMap::new();
        m.add("twice", twice);
        let r = Template::compile_with_function_map(only, m).map(|mut t| t.var("x", "ab").render("", &["f"]).map_err(|e| ek(&e))).map_err(|e| ek(&e));
        if r != Ok(Ok("abab".to_string() + "ab\n")) { run.fail("functions:own", format!("{:?}", r), "twice".into()); }
        let mut m = FunctionMap::new();
        m.add("twice", twice);
        let r = Template::compile_with_function_map(doc, m).map(|_| ()).map_err(|e| ek(&e));
        if r != Err(Ek::Fun) { run.fail("functions:missing", format!("{:?}", r), "upper without defaults".into()); }
        let mut m = FunctionMap::default();
        m.add("twice", twice);
        let r = Template::compile_with_function_map(doc, m).map(|mut t| t.var("x", "ab").render("", &["f", "g"]).map_err(|e| ek(&e))).map_err(|e| ek(&e));
        if r != Ok(Ok("ababab\nAB\n".to_string())) { run.fail("functions:defaults", format!("{:?}", r), "twice and upper".into()); }
        let mut m = FunctionMap::default();
        m.add("upper", twice);
        let r = Template::compile_with_function_map(&doc[doc.len() - 41..], m).map(|mut t| t.var("x", "ab").render("", &["g"]).map_err(|e| ek(&e))).map_err(|e| ek(&e));
        if r != Ok(Ok("abab\n".to_string())) { run.fail("functions:replaced", format!("{:?}", r), "upper replaced".into()); }
        let mut m = FunctionMap::new();
        m.add("a:b", twice);
        let r = Template::compile_with_function_map(b"#fragment push f\n{x:a:b}\n#fragment pop\n", m).map(|mut t| t.var("x", "ab").var("x:a", "no").render("", &["f"]).map_err(|e| ek(&e))).map_err(|e| ek(&e));
        if r != Ok(Ok("abab\n".to_string())) { run.fail("functions:colon", format!("{:?}", r), "a function called a:b".into()); }
        run.r.execs += 5;
    }
}

pub fn run(o: &Opts) -> Result<Report, String> {
    let spawns: Vec<Spawn> = (0..N).map(|k| Spawn { args: vec!["--worker".into(), k.to_string()], env: vec![] }).collect();
    let (mut rep, _) = worker::run(o, &spawns, |id| (format!("item {}", id), json!(null)))?;
    for s in ["#fragment push f | {{{x}}}{y:upper} | #fragment pop", "scope history [TVar(x,p), New, Clone, Var(1,x,w), To(0,s,x)]"] { rep.sample(|| s.into()); }
    Ok(rep)
}

pub fn work(o: &Opts, k: usize) {
    let mut out = Out::new();
    out.begin(0);
    let mut run = Run { out: &mut out, r: Report::default(), id: 0, fails: BTreeMap::new(), only: None };
    let (line, lines2, strct, depth) = if o.thorough { (7, 3, 9, 8) } else { (6, 2, 8, 7) };
    // one line
    for len in 1..=line {
        let mut n = 0;
        seqs(TOKS, len, &mut |s| { n += 1; if n % N == k { check_line(&mut run, &[s.to_vec()]); } });
    }
    for len in 1..=if o.thorough { 4 } else { 3 } {
        let mut n = 0;
        seqs(ODD, len, &mut |s| { n += 1; if n % N == k { check_line(&mut run, &[s.to_vec()]); } });
    }
    // two lines
    let mut all: Vec<Vec<Tok>> = Vec::new();
    for len in 1..=lines2 { seqs(TOKS, len, &mut |s| all.push(s.to_vec())); }
    for (i, a) in all.iter().enumerate() {
        if i % N != k { continue; }
        for b in &all { check_line(&mut run, &[a.clone(), b.clone()]); }
    }
    // fragment structure
    for len in 1..=strct {
        let mut n = 0;
        seqs(LINES, len, &mut |s| {
            n += 1;
            if n % N != k { return; }
            check_structure(&mut run, s, "\n", true);
            if len <= 5 { check_structure(&mut run, s, "\n", false); }
            if len <= 6 && !s.contains(&"") { check_structure(&mut run, s, "\r\n", len % 2 == 0); }
        });
    }
    scopes(&mut run, k, &mut vec![], &SModel::default(), &mut vec![], depth);
    if k == 0 { singles(&mut run); }
    let r = run.r;
    out.stat(&r);
}
