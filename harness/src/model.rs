//! Schemas as data. Everything the harness expects of a context is derived from these.

use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    Double,
    Float,
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Bool,
    String,
    Bytes,
}

pub const KINDS: [K; 15] = [
    K::Double,
    K::Float,
    K::Int32,
    K::Int64,
    K::UInt32,
    K::UInt64,
    K::SInt32,
    K::SInt64,
    K::Fixed32,
    K::Fixed64,
    K::SFixed32,
    K::SFixed64,
    K::Bool,
    K::String,
    K::Bytes,
];

impl K {
    pub fn name(self) -> &'static str {
        match self {
            K::Double => "double",
            K::Float => "float",
            K::Int32 => "int32",
            K::Int64 => "int64",
            K::UInt32 => "uint32",
            K::UInt64 => "uint64",
            K::SInt32 => "sint32",
            K::SInt64 => "sint64",
            K::Fixed32 => "fixed32",
            K::Fixed64 => "fixed64",
            K::SFixed32 => "sfixed32",
            K::SFixed64 => "sfixed64",
            K::Bool => "bool",
            K::String => "string",
            K::Bytes => "bytes",
        }
    }
    pub fn wire(self) -> u8 {
        match self {
            K::Double | K::Fixed64 | K::SFixed64 => 1,
            K::Float | K::Fixed32 | K::SFixed32 => 5,
            K::String | K::Bytes => 2,
            _ => 0,
        }
    }
    /// Numeric or bool: the types a packed array can hold.
    pub fn numeric(self) -> bool {
        self != K::String && self != K::Bytes
    }
}

/// Index into `Schema::types`.
pub type Tid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    S(K),
    T(Tid),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mult {
    Single,
    Optional,
    Repeated,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Const {
    Ident(String),
    Int(i64),
    /// Bits; NaNs compare equal.
    Float(u64),
    Str(Vec<u8>),
    Bool(bool),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Opt {
    /// As the context has to report it.
    pub name: String,
    pub value: Const,
    /// As written: a sign or nothing, and one token.
    pub lit: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub number: u64,
    pub ty: Ty,
    pub mult: Mult,
    pub opts: Vec<Opt>,
    pub oneof: Option<usize>,
    /// How the type is written if it is not built in.
    pub spelling: String,
    /// How the number is written.
    pub num_lit: String,
}

#[derive(Clone, Debug)]
pub struct Oneof {
    pub name: String,
    pub opts: Vec<Opt>,
}

/// Member of a body, in the order of the text.
#[derive(Clone, Debug)]
pub enum Item {
    Field(usize),
    Oneof(usize),
    Type(Tid),
    Value(usize),
    Rpc(usize),
    Service(usize),
    /// Index into the options of the owner.
    Opt(usize),
    Reserved(Vec<String>),
    Import(Vec<String>),
    Empty,
}

#[derive(Clone, Debug, Default)]
pub struct Msg {
    pub fields: Vec<Field>,
    pub oneofs: Vec<Oneof>,
    pub inner: Vec<Tid>,
    /// Options of the message itself; contexts do not keep them.
    pub opts: Vec<Opt>,
    pub body: Vec<Item>,
    pub oneof_bodies: Vec<Vec<Item>>,
}

#[derive(Clone, Debug)]
pub struct EnumValue {
    pub name: String,
    pub value: i64,
    pub lit: Vec<String>,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug, Default)]
pub struct Enum {
    pub values: Vec<EnumValue>,
    pub opts: Vec<Opt>,
    pub body: Vec<Item>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Msg(Msg),
    Enum(Enum),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Parent {
    File(usize),
    Type(Tid),
}

#[derive(Clone, Debug)]
pub struct Type {
    pub name: String,
    pub full: String,
    pub parent: Parent,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct Rpc {
    pub name: String,
    pub input: Tid,
    pub input_spelling: String,
    pub input_stream: bool,
    pub output: Tid,
    pub output_spelling: String,
    pub output_stream: bool,
    pub opts: Vec<Opt>,
    /// Options and empty statements; `None` for a plain `;`.
    pub body: Option<Vec<Item>>,
}

#[derive(Clone, Debug)]
pub struct Service {
    pub name: String,
    pub full: String,
    pub file: usize,
    pub rpcs: Vec<Rpc>,
    pub opts: Vec<Opt>,
    pub body: Vec<Item>,
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub package: Option<String>,
    pub items: Vec<Item>,
    pub opts: Vec<Opt>,
    /// Where among the items the package statement is.
    pub package_at: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub types: Vec<Type>,
    pub services: Vec<Service>,
    pub files: Vec<File>,
}

impl Schema {
    pub fn msg(&self, t: Tid) -> &Msg {
        match &self.types[t].kind {
            Kind::Msg(m) => m,
            _ => panic!("not a message"),
        }
    }
    pub fn msg_mut(&mut self, t: Tid) -> &mut Msg {
        match &mut self.types[t].kind {
            Kind::Msg(m) => m,
            _ => panic!("not a message"),
        }
    }
    pub fn enum_(&self, t: Tid) -> &Enum {
        match &self.types[t].kind {
            Kind::Enum(e) => e,
            _ => panic!("not an enum"),
        }
    }
    pub fn is_msg(&self, t: Tid) -> bool {
        matches!(self.types[t].kind, Kind::Msg(_))
    }
    pub fn messages(&self) -> Vec<Tid> {
        (0..self.types.len()).filter(|t| self.is_msg(*t)).collect()
    }
    pub fn enums(&self) -> Vec<Tid> {
        (0..self.types.len()).filter(|t| !self.is_msg(*t)).collect()
    }
    pub fn file_of(&self, mut t: Tid) -> usize {
        loop {
            match self.types[t].parent {
                Parent::File(f) => return f,
                Parent::Type(p) => t = p,
            }
        }
    }
    /// Types in the order in which parsing the files meets them.
    pub fn order(&self) -> Vec<Tid> {
        fn rec(s: &Schema, items: &[Item], out: &mut Vec<Tid>) {
            for i in items {
                if let Item::Type(t) = i {
                    out.push(*t);
                    if let Kind::Msg(m) = &s.types[*t].kind {
                        rec(s, &m.body, out);
                    }
                }
            }
        }
        let mut out = vec![];
        for f in &self.files {
            rec(self, &f.items, &mut out);
        }
        out
    }
    pub fn symbols(&self) -> Symbols {
        let mut map = BTreeMap::new();
        for f in &self.files {
            if let Some(p) = &f.package {
                let mut at = 0;
                while let Some(i) = p[at..].find('.') {
                    map.insert(p[..at + i].to_string(), Sym::Package);
                    at += i + 1;
                }
                map.insert(p.clone(), Sym::Package);
            }
        }
        for (i, t) in self.types.iter().enumerate() {
            let s = match t.kind {
                Kind::Msg(_) => Sym::Msg(i),
                Kind::Enum(_) => Sym::Enum(i),
            };
            map.insert(t.full.clone(), s);
        }
        for (i, s) in self.services.iter().enumerate() {
            map.insert(s.full.clone(), Sym::Service(i));
        }
        Symbols { map }
    }
    /// Packages as they are found by name: the first file of each.
    pub fn packages(&self) -> HashMap<Option<String>, usize> {
        let mut m = HashMap::new();
        for (i, f) in self.files.iter().enumerate() {
            m.entry(f.package.clone()).or_insert(i);
        }
        m
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sym {
    Package,
    Msg(Tid),
    Enum(Tid),
    Service(usize),
}

pub struct Symbols {
    pub map: BTreeMap<String, Sym>,
}

fn join(scope: &str, name: &str) -> String {
    if scope.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", scope, name)
    }
}

fn parent_scope(scope: &str) -> &str {
    scope.rfind('.').map(|i| &scope[..i]).unwrap_or("")
}

impl Symbols {
    /// Resolves a name the way the protobuf compiler does: the first component is searched from
    /// the innermost scope outward, the rest must be inside what it names.
    pub fn protoc(&self, name: &str, scope: &str, for_rpc: bool) -> Option<Sym> {
        if let Some(abs) = name.strip_prefix('.') {
            return self.map.get(abs).copied();
        }
        let first = name.split('.').next().unwrap();
        let compound = first.len() < name.len();
        let mut scope = scope;
        loop {
            if let Some(s) = self.map.get(&join(scope, first)).copied() {
                if compound {
                    return self.map.get(&join(scope, name)).copied();
                }
                let is_type = matches!(s, Sym::Msg(_) | Sym::Enum(_));
                if is_type || for_rpc {
                    return Some(s);
                }
            }
            if scope.is_empty() {
                return None;
            }
            scope = parent_scope(scope);
        }
    }

    /// True if some scope declares the whole name.
    pub fn satisfiable(&self, name: &str, scope: &str) -> bool {
        if let Some(abs) = name.strip_prefix('.') {
            return self.map.contains_key(abs);
        }
        let mut scope = scope;
        loop {
            if self.map.contains_key(&join(scope, name)) {
                return true;
            }
            if scope.is_empty() {
                return false;
            }
            scope = parent_scope(scope);
        }
    }

    /// The innermost type or service (not package) that the whole name denotes.
    pub fn innermost(&self, name: &str, scope: &str) -> Option<Sym> {
        if let Some(abs) = name.strip_prefix('.') {
            return self.map.get(abs).copied();
        }
        let mut scope = scope;
        loop {
            match self.map.get(&join(scope, name)) {
                Some(Sym::Package) | None => {}
                Some(s) => return Some(*s),
            }
            if scope.is_empty() {
                return None;
            }
            scope = parent_scope(scope);
        }
    }
}
