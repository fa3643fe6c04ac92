//! Schema syntax trees and their JSON5 text. Independent of the compiler under check.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum End { Little, Big }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Proto {
    pub name: String,
    pub endian: Option<End>,
    pub imports: Vec<(String, String)>,
    pub enums: Vec<EnumD>,
    pub structs: Vec<StructD>,
    pub unions: Vec<UnionD>,
    pub messages: Vec<MsgD>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumD { pub name: String, pub variants: Vec<(String, u64)> }

#[derive(Clone, Debug, PartialEq)]
pub struct StructD { pub name: String, pub fields: Vec<SField> }

#[derive(Clone, Debug, PartialEq)]
pub struct SField { pub name: String, pub ty: STy, pub view: Option<View>, pub array_len: Option<u64> }

#[derive(Clone, Debug, PartialEq)]
pub enum STy { Signed(u64), Unsigned(u64), Float(u64), Bool(u64), Struct(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum View { Enum(String), Range(f64, f64), Mult(f64) }

#[derive(Clone, Debug, PartialEq)]
pub struct UnionD { pub name: String, pub disc: String, pub cases: Vec<UCase> }

#[derive(Clone, Debug, PartialEq)]
pub struct UCase { pub name: String, pub case: String, pub item: Option<String> }

#[derive(Clone, Debug, PartialEq)]
pub struct MsgD { pub name: String, pub fields: Vec<MField> }

#[derive(Clone, Debug, PartialEq)]
pub struct MField { pub name: String, pub ty: MTy, pub optional: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum MTy {
    Item(String),
    List { max: u64, item: String },
    Str(Option<u64>),
    Payload,
    Union { on: String, item: String },
}

// ---- short constructors -------------------------------------------------------------------

pub fn proto(name: &str) -> Proto { Proto { name: name.into(), ..Default::default() } }
pub fn sf(name: impl Into<String>, ty: STy) -> SField { SField { name: name.into(), ty, view: None, array_len: None } }
pub fn sfv(name: impl Into<String>, ty: STy, v: View) -> SField { SField { name: name.into(), ty, view: Some(v), array_len: None } }
pub fn sfa(name: impl Into<String>, ty: STy, n: u64) -> SField { SField { name: name.into(), ty, view: None, array_len: Some(n) } }
pub fn st(name: impl Into<String>, fields: Vec<SField>) -> StructD { StructD { name: name.into(), fields } }
pub fn en(name: impl Into<String>, vs: &[(&str, u64)]) -> EnumD {
    EnumD { name: name.into(), variants: vs.iter().map(|(k, v)| (k.to_string(), *v)).collect() }
}
pub fn un(name: impl Into<String>, disc: &str, cases: &[(&str, &str, Option<&str>)]) -> UnionD {
    UnionD {
        name: name.into(),
        disc: disc.into(),
        cases: cases.iter().map(|(n, c, i)| UCase { name: n.to_string(), case: c.to_string(), item: i.map(String::from) }).collect(),
    }
}
pub fn ms(name: impl Into<String>, fields: Vec<MField>) -> MsgD { MsgD { name: name.into(), fields } }
pub fn mf(name: impl Into<String>, ty: MTy) -> MField { MField { name: name.into(), ty, optional: false } }
pub fn mo(name: impl Into<String>, ty: MTy) -> MField { MField { name: name.into(), ty, optional: true } }
pub fn item(n: &str) -> MTy { MTy::Item(n.into()) }
pub fn list(max: u64, n: &str) -> MTy { MTy::List { max, item: n.into() } }
pub fn uni(on: &str, n: &str) -> MTy { MTy::Union { on: on.into(), item: n.into() } }

// ---- JSON5 --------------------------------------------------------------------------------

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn num(f: f64) -> String { format!("{:?}", f) }

impl SField {
    pub fn json(&self) -> String {
        let info = match &self.ty {
            STy::Signed(b) => format!("{{ type: \"signed\", bits: {} }}", b),
            STy::Unsigned(b) => format!("{{ type: \"unsigned\", bits: {} }}", b),
            STy::Float(b) => format!("{{ type: \"float\", bits: {} }}", b),
            STy::Bool(b) => format!("{{ type: \"boolean\", bits: {} }}", b),
            STy::Struct(n) => format!("{{ type: \"struct\", item_type: {} }}", q(n)),
        };
        let view = match &self.view {
            None => String::new(),
            Some(View::Enum(n)) => format!(", view: {{ type: \"enum\", name: {} }}", q(n)),
            Some(View::Range(a, b)) => format!(", view: {{ type: \"float-range\", min: {}, max: {} }}", num(*a), num(*b)),
            Some(View::Mult(m)) => format!(", view: {{ type: \"float-multiplier\", multiplier: {} }}", num(*m)),
        };
        let arr = self.array_len.map(|n| format!(", array_len: {}", n)).unwrap_or_default();
        format!("{{ name: {}, info: {}{}{} }}", q(&self.name), info, view, arr)
    }
}

impl MField {
    pub fn json(&self) -> String {
        let info = match &self.ty {
            MTy::Item(n) => format!("{{ type: \"item\", item_type: {} }}", q(n)),
            MTy::List { max, item } => format!("{{ type: \"list\", max_len: {}, item_type: {} }}", max, q(item)),
            MTy::Str(None) => "{ type: \"string\" }".into(),
            MTy::Str(Some(n)) => format!("{{ type: \"string\", max_len: {} }}", n),
            MTy::Payload => "{ type: \"payload\" }".into(),
            MTy::Union { on, item } => format!("{{ type: \"union\", on: {}, item_type: {} }}", q(on), q(item)),
        };
        format!("{{ name: {}, info: {}{} }}", q(&self.name), info, if self.optional { ", optional: true" } else { "" })
    }
}

impl Proto {
    pub fn json(&self) -> String {
        let mut o = format!("{{\n  name: {}", q(&self.name));
        match self.endian {
            None => (),
            Some(End::Little) => o.push_str(",\n  endianness: \"little\""),
            Some(End::Big) => o.push_str(",\n  endianness: \"big\""),
        }
        let mut sec = |name: &str, items: Vec<String>| {
            if !items.is_empty() {
                o.push_str(&format!(",\n  {}: [\n    {}\n  ]", name, items.join(",\n    ")));
            }
        };
        sec("imports", self.imports.iter().map(|(p, t)| format!("{{ protocol: {}, type: {} }}", q(p), q(t))).collect());
        sec("structs", self.structs.iter().map(|s| format!("{{ name: {}, fields: [{}] }}", q(&s.name),
            s.fields.iter().map(|f| f.json()).collect::<Vec<_>>().join(", "))).collect());
        sec("messages", self.messages.iter().map(|s| format!("{{ name: {}, fields: [{}] }}", q(&s.name),
            s.fields.iter().map(|f| f.json()).collect::<Vec<_>>().join(", "))).collect());
        sec("enums", self.enums.iter().map(|e| format!("{{ name: {}, variants: {{ {} }} }}", q(&e.name),
            e.variants.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "))).collect());
        sec("unions", self.unions.iter().map(|u| format!("{{ name: {}, discriminant: {}, cases: [{}] }}", q(&u.name), q(&u.disc),
            u.cases.iter().map(|c| format!("{{ name: {}, case: {}{} }}", q(&c.name), q(&c.case),
                c.item.as_ref().map(|i| format!(", item_type: {}", q(i))).unwrap_or_default())).collect::<Vec<_>>().join(", "))).collect());
        o.push_str("\n}\n");
        o
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
