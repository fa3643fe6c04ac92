//! Generates, for one case, the tables through which the explorer reaches the generated code.
//! Only the promised interface of generated code is used, with the promised types spelled out.

use spec::model::*;
use spec::value::{leaves, Leaf};
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub struct Glue<'a> {
    case: usize,
    units: &'a [RProto],
    /// address of a resolved declaration -> (protocol, name)
    of: HashMap<usize, (String, String)>,
    o: String,
}

fn addr<T>(r: &Rc<T>) -> usize { Rc::as_ptr(r) as *const u8 as usize }

pub fn capitalize(s: &str) -> String {
    let mut c = s.chars();
    match c.next() { Some(f) => f.to_uppercase().collect::<String>() + c.as_str(), None => String::new() }
}

pub fn scalar(kind: Kind, bits: u64) -> &'static str {
    match kind {
        Kind::Bool => "bool",
        Kind::Float => if bits == 32 { "f32" } else { "f64" },
        Kind::Unsigned => match carrier_bytes(kind, bits) { 1 => "u8", 2 => "u16", 4 => "u32", _ => "u64" },
        Kind::Signed => match carrier_bytes(kind, bits) { 1 => "i8", 2 => "i16", 4 => "i32", _ => "i64" },
    }
}

pub fn generate(case: usize, units: &[RProto]) -> String {
    let mut of = HashMap::new();
    for u in units {
        for x in &u.enums { of.insert(addr(x), (u.name.clone(), x.name.clone())); }
        for x in &u.structs { of.insert(addr(x), (u.name.clone(), x.name.clone())); }
        for x in &u.unions { of.insert(addr(x), (u.name.clone(), x.name.clone())); }
        for x in &u.messages { of.insert(addr(x), (u.name.clone(), x.name.clone())); }
    }
    let mut g = Glue { case, units, of, o: String::new() };
    g.run();
    g.o
}

impl Glue<'_> {
    fn path<T>(&self, r: &Rc<T>) -> String {
        let (p, n) = &self.of[&addr(r)];
        format!("crate::s{}::{}::{}", self.case, p, n)
    }
    fn id<T>(&self, pre: &str, r: &Rc<T>) -> String {
        let (p, n) = &self.of[&addr(r)];
        format!("{}_{}_{}", pre, p, n)
    }

    fn run(&mut self) {
        self.o.push_str("#![allow(warnings)]\nuse rt::*;\nuse bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};\nuse bp3d_proto::message::util::{Array, List};\nuse bp3d_proto::util::{FixedSize, Size};\nuse std::io::Write;\n\nfn plain<T: Copy + Clone + std::fmt::Debug>(_: &T) {}\nfn eqs<T: Copy + Clone + std::fmt::Debug + Eq>(_: &T) {}\n\n");
        let units = self.units;
        for u in units {
            for e in &u.enums { self.en(e); }
            for x in &u.unions { self.un_fns(x); }
            for m in &u.messages { self.msg_fns(m); }
        }
        self.o.push_str("pub static OPS: CaseOps = CaseOps { units: &[\n");
        for u in units {
            self.o.push_str("UnitOps { structs: &[\n");
            for s in &u.structs { self.st(s); }
            self.o.push_str("], unions: &[\n");
            for x in &u.unions { self.un(x); }
            self.o.push_str("], msgs: &[\n");
            for m in &u.messages { self.msg(m); }
            self.o.push_str("] },\n");
        }
        self.o.push_str("] };\n");
    }

    // ---- enums ----------------------------------------------------------------------------

    fn en(&mut self, e: &Rc<REnum>) {
        let t = self.path(e);
        let (o, b) = (self.id("oe", e), self.id("be", e));
        let _ = writeln!(self.o, "fn {}(x: {}) -> i128 {{ eqs(&x); match x {{ {} }} }}", o, t,
            e.variants.iter().enumerate().map(|(i, v)| format!("{}::{} => {}", t, v.0, i)).collect::<Vec<_>>().join(", "));
        let _ = writeln!(self.o, "fn {}(v: &V) -> {} {{ match vint(v) {{ {}, _ => panic!() }} }}", b, t,
            e.variants.iter().enumerate().map(|(i, v)| format!("{} => {}::{}", i, t, v.0)).collect::<Vec<_>>().join(", "));
    }

    // ---- structures -----------------------------------------------------------------------

    fn st(&mut self, s: &Rc<RStruct>) {
        let t = self.path(s);
        let (p, n) = self.of[&addr(s)].clone();
        let _ = writeln!(self.o, "StructOps {{ size_const: crate::s{}::{}::SIZE_{}, fixed_size: <{}<&'static [u8]> as FixedSize>::SIZE, size_of: || {{ let s = {}::new_on_stack(); plain(&s.to_ref()); s.size() }},",
            self.case, p, n.to_uppercase(), t, t);
        let _ = writeln!(self.o, "  stack: || bytes_of(&{t}::new_on_stack().to_ref()), default_size: || {{ let s: {t}<Vec<u8>> = Default::default(); let q: {t}<Vec<u8>> = Vec::<u8>::new().into(); s.size() + q.size() * 0 }},", t = t);
        let _ = writeln!(self.o, "  write: |b, o| wr(&{t}::new(b), o), from_slice: |b| {{ let (n, x) = split({t}::from_slice(b).map_err(ek)?); Ok((n, bytes_of(&x))) }},", t = t);
        self.o.push_str("  leaves: &[\n");
        for l in leaves(s) { self.leaf(&t, &l); }
        self.o.push_str("  ], subs: &[\n");
        self.subs(&t, s, &mut vec![], &mut vec![]);
        self.o.push_str("  ] },\n");
    }

    fn subs(&mut self, t: &str, s: &Rc<RStruct>, path: &mut Vec<usize>, names: &mut Vec<String>) {
        for (i, f) in s.fields.iter().enumerate() {
            if let RKind::Nested(r) = &f.kind {
                path.push(i);
                names.push(f.name.clone());
                let g: String = names.iter().map(|n| format!(".get_{}()", n)).collect();
                let m: String = names.iter().map(|n| format!(".get_{}_mut()", n)).collect();
                let rt = self.path(r);
                let _ = writeln!(self.o, "    SubOps {{ path: &{:?}, get: |b| {{ let s = {t}::new(b); fn f(x: &{rt}<&[u8]>) -> Vec<u8> {{ bytes_of(x) }} f(&s{g}) }}, get_mut: |b| {{ let mut s = {t}::new(b); fn f(x: &mut {rt}<&mut [u8]>) -> Vec<u8> {{ bytes_of(&x.to_ref()) }} f(&mut s{m}) }} }},",
                    path, t = t, rt = rt, g = g, m = m);
                self.subs(t, r, path, names);
                path.pop();
                names.pop();
            }
        }
    }

    fn leaf(&mut self, t: &str, l: &Leaf) {
        let f = l.f();
        let n = l.names.len() - 1;
        let g: String = l.names[..n].iter().map(|n| format!(".get_{}()", n)).collect();
        let m: String = l.names[..n].iter().map(|n| format!(".get_{}_mut()", n)).collect();
        let x = &f.name;
        match &f.kind {
            RKind::Fixed { kind, view } => {
                let (get, set) = match view {
                    RView::None => { let s = scalar(*kind, f.width); (format!("tov::<{}>(S.get_{}())", s, x), format!("fromv::<{}>(v)", s)) }
                    RView::Enum(e) => { let (o, b) = (self.id("oe", e), self.id("be", e)); (format!("oenum(S.get_{}().map({}))", x, o), format!("{}(v)", b)) }
                    RView::Range(..) | RView::Mult(..) => (format!("tov(S.get_{}())", x), "fromv(v)".to_string()),
                };
                let _ = writeln!(self.o, "    LeafOps::Fixed {{ get_raw: |b| {t}::new(b){g}.get_raw_{x}() as u64, set_raw: |b, v| {{ {t}::new(b){m}.set_raw_{x}(v as _); }}, get: |b| {get}, set: |b, v| {{ {t}::new(b){m}.set_{x}({set}); }}, stack: |v| {{ let mut s = {t}::new_on_stack(); s{m}.set_raw_{x}(v as _); bytes_of(&s.to_ref()) }} }},",
                    t = t, g = g, m = m, x = x, get = get.replacen('S', &format!("{}::new(b){}", t, g), 1), set = set);
            }
            RKind::Array { kind, item_bits, .. } => {
                let s = scalar(*kind, *item_bits);
                let bytes = if s == "u8" {
                    format!("Some((|b| {{ let s = {t}::new(b); let r: Vec<u8> = AsRef::<[u8]>::as_ref(&s{g}.get_{x}()).to_vec(); r }}, |b, i, v| {{ AsMut::<[u8]>::as_mut(&mut {t}::new(b){m}.get_{x}_mut())[i] = v; }}))", t = t, g = g, m = m, x = x)
                } else { "None".into() };
                let _ = writeln!(self.o, "    LeafOps::Arr {{ len: |b| {t}::new(b){g}.get_{x}().len(), get: |b, i| tov::<{s}>({t}::new(b){g}.get_{x}().get_raw(i)), iter: |b| {{ let s = {t}::new(b); let r = oarr(s{g}.get_{x}().iter_raw(), s{g}.get_{x}().len(), tov::<{s}>); r }}, set: |b, i, v| {{ {t}::new(b){m}.get_{x}_mut().set_raw(i, fromv::<{s}>(v)); }}, get_mut: |b, i| tov::<{s}>({t}::new(b){m}.get_{x}_mut().get_raw(i)), bytes: {bytes} }},",
                    t = t, g = g, m = m, x = x, s = s, bytes = bytes);
            }
            RKind::Nested(_) => unreachable!(),
        }
    }

    // ---- references -----------------------------------------------------------------------

    fn build_ref(&self, r: &RRef, v: &str) -> String {
        match r { RRef::Struct(s) => format!("{}::new(vs({}))", self.path(s), v), RRef::Msg(m) => format!("{}({})?", self.id("b", m), v) }
    }
    fn obs_ref(&self, r: &RRef, x: &str) -> String {
        match r { RRef::Struct(_) => format!("V::S(bytes_of({}))", x), RRef::Msg(m) => format!("{}({})", self.id("o", m), x) }
    }

    // ---- unions ---------------------------------------------------------------------------

    fn un_fns(&mut self, u: &Rc<RUnion>) {
        let t = self.path(u);
        let (b, o) = (self.id("bu", u), self.id("ou", u));
        let mut x = String::new();
        let _ = writeln!(x, "fn {}(v: &V) -> Result<{}, EK> {{ let V::U(k, p) = v else {{ panic!() }}; Ok(match k {{", b, t);
        for (i, c) in u.cases.iter().enumerate() {
            match &c.item {
                None => { let _ = writeln!(x, "  {} => {}::{},", i, t, c.name); }
                Some(r) => { let _ = writeln!(x, "  {} => {{ let p = p.as_ref().unwrap(); {}::{}({}) }},", i, t, c.name, self.build_ref(r, "p")); }
            }
        }
        let _ = writeln!(x, "  _ => panic!() }}) }}");
        let _ = writeln!(x, "fn {}(x: &{}) -> V {{ plain(x); match x {{", o, t);
        for (i, c) in u.cases.iter().enumerate() {
            match &c.item {
                None => { let _ = writeln!(x, "  {}::{} => V::U({}, None),", t, c.name, i); }
                Some(r) => { let _ = writeln!(x, "  {}::{}(p) => V::U({}, Some(Box::new({}))),", t, c.name, i, self.obs_ref(r, "p")); }
            }
        }
        let _ = writeln!(x, "}} }}");
        self.o.push_str(&x);
    }

    fn un(&mut self, u: &Rc<RUnion>) {
        let t = self.path(u);
        let d = self.path(&u.root);
        let (b, o) = (self.id("bu", u), self.id("ou", u));
        let acc: Vec<String> = u.cases.iter().map(|c| match &c.item {
            None => format!("if x.is_{}() {{ Some(V::B(true)) }} else {{ None }}", c.name.to_lowercase()),
            Some(r) => format!("x.as_{}().map(|p| {})", c.name.to_lowercase(), self.obs_ref(r, "p")),
        }).collect();
        let _ = writeln!(self.o, "UnionOps {{ from_slice: |b, h| {{ let (n, x) = split({t}::from_slice(b, &{d}::new(h)).map_err(ek)?); Ok(({o}(&x), n)) }}, write: |v, h, out| {t}::write_to(&{b}(v)?, &{d}::new(h), out).map_err(ek), set_disc: |v, h| {{ {b}(v)?.set_discriminant(&mut {d}::new(h)); Ok(()) }}, acc: |v| {{ let x = {b}(v)?; Ok(vec![{acc}]) }} }},",
            t = t, d = d, b = b, o = o, acc = acc.join(", "));
    }

    // ---- messages -------------------------------------------------------------------------

    fn coll_ty(&self, m: &Rc<RMsg>, f: &RMField) -> String { format!("{}{}", self.path(m), capitalize(&f.name)) }

    fn build_field(&self, m: &Rc<RMsg>, f: &RMField, v: &str) -> String {
        match &f.ty {
            RMTy::Scalar { kind, bits, .. } => format!("fromv::<{}>({})", scalar(*kind, *bits), v),
            RMTy::Struct(s) => self.build_ref(&RRef::Struct(s.clone()), v),
            RMTy::Msg(r) => self.build_ref(&RRef::Msg(r.clone()), v),
            RMTy::StrNul | RMTy::StrLen { .. } => format!("vstr({})", v),
            RMTy::Payload => format!("vbytes({})", v),
            RMTy::Arr { item, .. } => format!("{{ let mut buf = Vec::new(); let n = {{ let mut w = {}::new(&mut buf); for i in vl({}) {{ w.write_item(&{}::new(vs(i))).map_err(ek)?; }} w.len() }}; Array::from_parts(keep(buf), n).ok_or(EK::Other)? }}",
                self.coll_ty(m, f), v, self.path(item)),
            RMTy::List { item, .. } => format!("{{ let mut buf = Vec::new(); let n = {{ let mut w = {}::new(&mut buf); for i in vl({}) {{ w.write_item(&{}(i)?).map_err(ek)?; }} w.len() }}; unsafe {{ List::from_raw_parts(keep(buf), n) }} }}",
                self.coll_ty(m, f), v, self.id("b", item)),
            RMTy::Union { u, .. } => format!("{}({})?", self.id("bu", u), v),
        }
    }

    /// `x`: expression of reference type.
    fn obs_field(&self, f: &RMField, x: &str) -> String {
        match &f.ty {
            RMTy::Scalar { kind, bits, .. } => format!("tov::<{}>(*{})", scalar(*kind, *bits), x),
            RMTy::Struct(_) => format!("V::S(bytes_of({}))", x),
            RMTy::Msg(r) => self.obs_ref(&RRef::Msg(r.clone()), x),
            RMTy::StrNul | RMTy::StrLen { .. } => format!("V::Str(str::to_string({}))", x),
            RMTy::Payload => format!("V::Bytes(<[u8]>::to_vec({}))", x),
            RMTy::Arr { item, .. } => format!("V::L(oarr({x}.iter::<{}<&[u8]>>(), {x}.len(), |i| V::S(bytes_of(&i))))", self.path(item), x = x),
            RMTy::List { item, .. } => format!("olist({x}.iter(), {x}.iter_offsets(), {x}.len(), |i| {}(&i))", self.id("o", item), x = x),
            RMTy::Union { u, .. } => format!("{}({})", self.id("ou", u), x),
        }
    }

    fn msg_fns(&mut self, m: &Rc<RMsg>) {
        let t = self.path(m);
        let mut x = String::new();
        let _ = writeln!(x, "fn {}(v: &V) -> Result<{}, EK> {{ let f = vm(v); Ok({} {{", self.id("b", m), t, t);
        for (i, f) in m.fields.iter().enumerate() {
            if f.optional { let _ = writeln!(x, "  {}: vopt(&f[{}], |v| Ok({}))?,", f.name, i, self.build_field(m, f, "v")); }
            else { let _ = writeln!(x, "  {}: {{ let v = &f[{}]; {} }},", f.name, i, self.build_field(m, f, "v")); }
        }
        let _ = writeln!(x, "}}) }}");
        let _ = writeln!(x, "fn {}(x: &{}) -> V {{ plain(x); V::M(vec![", self.id("o", m), t);
        for f in &m.fields {
            if f.optional { let _ = writeln!(x, "  oopt(&x.{}, |v| {}),", f.name, self.obs_field(f, "v")); }
            else { let _ = writeln!(x, "  {{ let v = &x.{}; {} }},", f.name, self.obs_field(f, "v")); }
        }
        let _ = writeln!(x, "]) }}");
        let _ = writeln!(x, "fn {}(x: &{}Offsets) -> Offs {{ plain(x); Offs(vec![", self.id("f", m), t);
        for f in &m.fields {
            let nest = match (&f.ty, f.optional) {
                (RMTy::Msg(r), false) => format!("ONest::Msg({}(&x.{}_offsets))", self.id("f", r), f.name),
                (RMTy::Msg(r), true) => format!("match &x.{}_offsets {{ None => ONest::Absent, Some(y) => ONest::Msg({}(y)) }}", f.name, self.id("f", r)),
                _ => "ONest::NotMsg".into(),
            };
            let _ = writeln!(x, "  (x.{n}.start, span(&x.{n}), {nest}),", n = f.name, nest = nest);
        }
        let _ = writeln!(x, "]) }}");
        self.o.push_str(&x);
    }

    fn msg(&mut self, m: &Rc<RMsg>) {
        let t = self.path(m);
        let (b, o, f) = (self.id("b", m), self.id("o", m), self.id("f", m));
        let _ = writeln!(self.o, "MsgOps {{ encode: |v, out| wr(&{b}(v)?, out), size_of: |v| bp3d_proto::message::util::size_of(&{b}(v)?).map_err(ek), decode: |b| {{ let (n, x) = split({t}::from_slice(b).map_err(ek)?); Ok(({o}(&x), n)) }},
  decode_offs: |b| {{ let (n, (x, y)) = split({t}::from_slice_with_offsets(b).map_err(ek)?); Ok(({o}(&x), n, {f}(&y))) }},
  recode: |b| {{ let x = {t}::from_slice(b).map_err(ek)?.into_inner(); let mut out = Vec::new(); let s = bp3d_proto::message::util::size_of(&x).map_err(ek); Ok((s, wr(&x, &mut out).map(|_| out))) }}, colls: &[", t = t, b = b, o = o, f = f);
        for (i, f) in m.fields.iter().enumerate() {
            match &f.ty {
                RMTy::Arr { item, .. } => {
                    let s = self.path(item);
                    let w = self.coll_ty(m, f);
                    let first = &leaves(item)[0];
                    let n = first.names.len() - 1;
                    let chain: String = first.names[..n].iter().map(|n| format!(".get_{}_mut()", n)).collect();
                    let edit = match first.f().kind {
                        RKind::Fixed { .. } => format!("Some(|w, i, raw, it| {{ if it {{ match w.iter_mut().nth(i) {{ Some(mut s) => {{ s{c}.set_raw_{x}(raw as _); true }}, None => false }} }} else {{ w.get_mut(i){c}.set_raw_{x}(raw as _); true }} }})", c = chain, x = first.f().name),
                        _ => "None".into(),
                    };
                    let _ = writeln!(self.o, "  ({i}, || Box::new(CollImpl {{ x: {w}::new(Vec::<u8>::new()), push: |w, v| w.write_item(&{s}::new(vs(v))).map_err(ek), push_many: |w, v| w.write_items(&v.iter().map(|v| {s}::new(vs(v))).collect::<Vec<_>>()).map_err(ek), len: |w| w.len(), items: |w, _| oarr(w.iter(), w.len(), |s| V::S(bytes_of(&s))), items_offs: None, get: Some(|w, i| V::S(bytes_of(&w.get(i)))), edit: {edit}, encode: |w, o| wr(&w.to_ref(), o), items_mut: Some(|w| {{ let n = w.len(); oarr(w.iter_mut(), n, |s| V::S(bytes_of(&s.to_ref()))) }}), parts: Some(|d, n| {{ let a = {w}::from_parts(d.to_vec(), n).map(|w| oarr(w.iter(), w.len(), |s| V::S(bytes_of(&s)))); let b = bp3d_proto::message::util::Array::from_parts(d.to_vec(), n).map({w}::from_array).map(|w| (0..w.len()).map(|i| V::S(bytes_of(&w.get(i)))).collect::<Vec<_>>()); if a == b {{ a }} else {{ Some(vec![V::Opt(None)]) }} }}) }})),", i = i, w = w, s = s, edit = edit);
                }
                RMTy::List { item, .. } => {
                    let w = self.coll_ty(m, f);
                    let it = self.path(item);
                    let (b, o, f) = (self.id("b", item), self.id("o", item), self.id("f", item));
                    let _ = writeln!(self.o, "  ({i}, || Box::new(CollImpl {{ x: {w}::new(Vec::<u8>::new()), push: |w, v| w.write_item(&{b}(v)?).map_err(ek), push_many: |w, v| w.write_items(&v.iter().map(|v| {b}(v)).collect::<Result<Vec<_>, EK>>()?).map_err(ek), len: |w| w.len(), items: |w, _| {{ let r = w.to_ref::<{it}>(); oiter(r.iter(), r.len(), |x| {o}(&x)) }}, items_offs: Some(|w, cap| {{ let r = w.to_ref::<{it}>(); let v = r.iter_offsets().take(cap).map(|x| match x {{ Ok((x, y)) => ({o}(&x), {f}(&y)), Err(e) => (V::Err(ek(e)), Offs(vec![])) }}).collect(); v }}), get: None, edit: None, encode: |w, o| wr(w, o), items_mut: None, parts: None }})),", i = i, w = w, it = it, b = b, o = o, f = f);
                }
                _ => (),
            }
        }
        self.o.push_str("] },\n");
    }
}
