//! Random schemas.

use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Names {
    Plain,
    Tricky,
    /// Few names, so that the same one is declared in many scopes.
    Pool,
    /// The same for names that begin, end or look alike.
    Kin,
    /// The same for long names.
    Long,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Opts {
    None,
    Simple,
    Wild,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub files: usize,
    pub types: usize,
    pub depth: usize,
    pub fields: usize,
    pub names: Names,
    pub services: bool,
    pub opts: Opts,
    /// Reserved and empty statements, imports, file options.
    pub extras: bool,
    /// Files may share a package.
    pub share_packages: bool,
    /// Field numbers beyond what protobuf allows.
    pub huge_numbers: bool,
    pub aliases: bool,
    pub enums: bool,
    /// Every message gets at least this many fields.
    pub min_fields: usize,
    /// Literals in all notations.
    pub lits: bool,
    /// Hundreds or thousands of something.
    pub vast: bool,
    /// Enum values beyond the 32 bits that protobuf allows.
    pub wide_values: bool,
}

/// What there is a lot of.
#[derive(Clone, Copy, PartialEq)]
enum Vast {
    No,
    Types,
    Files,
    Services,
    Rpcs,
    Values,
    Fields,
    Oneofs,
    Options,
    Package,
    Nesting,
    Names,
}

impl Cfg {
    /// Schemas to decode with.
    pub fn wire() -> Cfg {
        Cfg {
            files: 2,
            types: 6,
            depth: 3,
            fields: 14,
            names: Names::Plain,
            services: false,
            opts: Opts::None,
            extras: false,
            share_packages: false,
            huge_numbers: false,
            aliases: false,
            enums: true,
            min_fields: 3,
            lits: false,
            vast: false,
            wide_values: false,
        }
    }
    /// Schemas to parse.
    pub fn text() -> Cfg {
        Cfg {
            files: 4,
            types: 14,
            depth: 5,
            fields: 8,
            names: Names::Tricky,
            services: true,
            opts: Opts::Simple,
            extras: true,
            share_packages: true,
            huge_numbers: false,
            aliases: true,
            enums: true,
            min_fields: 0,
            lits: true,
            vast: false,
            wide_values: false,
        }
    }
}

/// Words that start a statement or a built-in type; not used where protobuf would not take them
/// for a name.
pub const KEYWORDS: &[&str] = &[
    "message", "enum", "option", "oneof", "map", "reserved", "optional", "repeated", "required",
    "stream", "group", "extend", "extensions", "double", "float", "int32", "int64", "uint32",
    "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string",
    "bytes", "rpc", "service", "package", "import", "syntax", "true", "false", "inf", "nan", "returns",
    "weak", "public", "to", "max",
];

const TRICKY: &[&str] = &[
    "optionFoo", "option_", "options", "optional1", "optionally", "messageA", "message_", "messages",
    "enumX", "enumeration", "enum_", "oneofX", "oneof_a", "reservedX", "reserved_", "mapX", "map_",
    "mapping", "repeatedX", "repeated_", "streamX", "stream_", "streaming", "int32x", "int32_", "int64s",
    "int", "uint32_t", "uint", "sint32a", "fixed32_a", "fixed", "sfixed64_", "boolean", "bool_", "boolX",
    "string_", "strings", "stringX", "bytesX", "bytes_", "byte", "double_", "doubleX", "floatX", "float_",
    "floating", "trueX", "true_", "falsey", "infX", "infinity", "nanX", "nano", "importX", "packageX",
    "package_", "serviceX", "services", "rpcX", "rpc_", "returnsX", "weakX", "publicX", "toX", "to_", "maxX",
    "syntaxX", "proto3", "A", "a", "Z9", "x_y_z", "CamelCase", "snake_case", "UPPER_CASE", "a1b2c3", "x__",
    "E5", "e1", "xFF", "x0", "f0", "inf_", "packed", "packedX", "default", "json_name", "Self", "self", "type",
    "Foo", "FooBar", "Bar", "BarFoo", "Fo", "Foo_Bar", "Foo1", "Foo10", "descriptor", "google", "protobuf",
];

const KIN: &[&str] = &["a", "aa", "ab", "ba", "b", "A", "a_", "a0", "aB", "Aa"];
const POOL: &[&str] = &["A", "B", "C", "a", "b"];

/// A kind of names of which the same one is declared in many scopes.
pub fn pool(rng: &mut Rng) -> Names {
    *rng.pick(&[Names::Pool, Names::Pool, Names::Pool, Names::Kin, Names::Long])
}

pub fn fresh(rng: &mut Rng, mode: Names, used: &mut BTreeSet<String>, allow_kw: bool, forbid: &[&str]) -> String {
    for attempt in 0.. {
        let mut n = match mode {
            Names::Plain => format!("{}{}", rng.pick(&["m", "Foo", "x_", "Bar", "val"]), rng.below(1000)),
            Names::Pool => rng.pick(POOL).to_string(),
            Names::Kin => rng.pick(KIN).to_string(),
            Names::Long => {
                let n = rng.pick(POOL);
                let k = n.as_bytes()[0] as usize;
                let end = if rng.one_in(6) { "z" } else { "" };
                format!("{}{}{}", n, "y".repeat([0, 130, 40, 270, 15][k % 5]), end)
            }
            Names::Tricky => {
                if allow_kw && rng.one_in(3) {
                    rng.pick(KEYWORDS).to_string()
                } else if rng.one_in(40) {
                    // a long name
                    let n = if rng.one_in(20) { rng.range(300, 5000) } else { rng.range(60, 300) };
                    (0..n).map(|i| if i == 0 { 'L' } else { *rng.pick(&['a', 'Z', '0', '_']) }).collect()
                } else if rng.one_in(4) {
                    let mut s = String::new();
                    s.push(*rng.pick(&['a', 'b', 'x', 'A', 'Q', 'z']));
                    for _ in 0..rng.below(6) {
                        s.push(*rng.pick(&['a', 'e', 'x', '0', '9', '_', 'Z']));
                    }
                    s
                } else {
                    rng.pick(TRICKY).to_string()
                }
            }
        };
        if attempt > 3 {
            n = format!("{}{}", n, rng.below(100 + attempt * 10));
        }
        if (!allow_kw && KEYWORDS.contains(&n.as_str())) || forbid.contains(&n.as_str()) || used.contains(&n) {
            continue;
        }
        used.insert(n.clone());
        return n;
    }
    unreachable!()
}

pub fn field_number(rng: &mut Rng, used: &BTreeMap<u64, ()>, huge: bool) -> u64 {
    loop {
        let n = match rng.below(8) {
            0..=2 => rng.range(1, 20) as u64,
            3 => *rng.pick(&[
                15u64, 16, 127, 128, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911,
            ]),
            4 => rng.range(1, 3000) as u64,
            5 if huge => *rng.pick(&[
                536870912u64,
                (1 << 32) - 1,
                1 << 32,
                (1 << 32) + 1,
                (1 << 31),
                (1 << 60) - 1,
                (1 << 60),
                (1 << 61) - 1,
                0,
            ]),
            _ => (rng.next() >> rng.range(35, 60)).max(1),
        };
        if (19000..20000).contains(&n) || used.contains_key(&n) {
            continue;
        }
        if !huge && n > 536870911 {
            continue;
        }
        return n;
    }
}

/// A non-negative integer in one of the three notations.
pub fn int_token(rng: &mut Rng, v: u128, all: bool) -> String {
    if !all {
        return v.to_string();
    }
    match rng.below(4) {
        0 => {
            let zeros = "0".repeat(1 + if rng.one_in(4) { rng.below(4) } else { 0 });
            if v == 0 {
                zeros
            } else {
                format!("{}{:o}", zeros, v)
            }
        }
        1 => {
            let zeros = "0".repeat(if rng.one_in(4) { rng.below(6) } else { 0 });
            let h: String = format!("{:x}", v)
                .chars()
                .map(|c| if rng.bool() { c.to_ascii_uppercase() } else { c })
                .collect();
            format!("0{}{}{}", rng.pick(&["x", "X"]), zeros, h)
        }
        _ => v.to_string(),
    }
}

pub fn int_lit(rng: &mut Rng, v: i64, all: bool) -> Vec<String> {
    let mut out = vec![];
    if v < 0 {
        out.push("-".to_string());
    } else if all && rng.one_in(4) {
        out.push(if v == 0 && rng.bool() { "-" } else { "+" }.to_string());
    }
    out.push(int_token(rng, (v as i128).unsigned_abs(), all));
    out
}

/// Digits of a finite non-negative float and the value they stand for.
fn float_token(rng: &mut Rng) -> (String, f64) {
    match rng.below(8) {
        0 => ("inf".to_string(), f64::INFINITY),
        1 => ("nan".to_string(), f64::NAN),
        2 => {
            let a = rng.below(1000);
            (format!("{}.", a), a as f64)
        }
        3 => {
            let a = rng.below(1000);
            let s = format!(".{:03}", a);
            (s, a as f64 / 1000.0)
        }
        4 => {
            // mantissa and exponent whose product is exact
            let m = rng.range(1, 99);
            let e = rng.below(12) as i32;
            let sign = rng.pick(&["", "+"]);
            let ee = rng.pick(&["e", "E"]);
            (format!("{}{}{}{}", m, ee, sign, e), m as f64 * 10f64.powi(e))
        }
        5 => {
            // a dyadic fraction has an exact decimal expansion
            let v = rng.below(4096) as f64 / 64.0;
            (format!("{:.6}", v), v)
        }
        6 => {
            let v = f64::from_bits(rng.next() & 0x7fff_ffff_ffff_ffff);
            if !v.is_finite() {
                return ("0.0".to_string(), 0.0);
            }
            let mut s = format!("{:e}", v);
            if rng.bool() {
                s = s.replace('e', "E");
            }
            (s, v)
        }
        _ => {
            let v = f64::from_bits(rng.next() & 0x7fff_ffff_ffff_ffff);
            if !v.is_finite() {
                return ("1e3".to_string(), 1000.0);
            }
            // more digits than needed
            (format!("{:.*e}", rng.range(17, 60), v), v)
        }
    }
}

pub fn str_token(rng: &mut Rng, max: usize) -> (String, Vec<u8>) {
    let q = *rng.pick(&['"', '\'']);
    let mut text = String::new();
    let mut val = vec![];
    text.push(q);
    let n = rng.below(max + 1);
    let mut after_short_oct = false;
    for _ in 0..n {
        match rng.below(9) {
            0 => {
                let b = rng.next() as u8;
                let h = if rng.bool() { format!("{:02x}", b) } else { format!("{:02X}", b) };
                text.push('\\');
                text.push(*rng.pick(&['x', 'X']));
                text.push_str(&h);
                val.push(b);
                after_short_oct = false;
            }
            1 => {
                let b = rng.next() as u8;
                let o = match rng.below(3) {
                    0 => format!("{:03o}", b),
                    1 if b < 0o100 => format!("{:02o}", b),
                    _ => format!("{:o}", b),
                };
                text.push('\\');
                text.push_str(&o);
                val.push(b);
                after_short_oct = o.len() < 3;
            }
            2 => {
                let (c, v) = *rng.pick(&[
                    ('a', 7u8),
                    ('b', 8),
                    ('f', 12),
                    ('n', 10),
                    ('r', 13),
                    ('t', 9),
                    ('v', 11),
                    ('\\', b'\\'),
                    ('\'', b'\''),
                    ('"', b'"'),
                ]);
                text.push('\\');
                text.push(c);
                val.push(v);
                after_short_oct = false;
            }
            k => {
                let c = match k {
                    3 => *rng.pick(&[' ', '\t', '/', '*', '{', '}', ';', '=', '[', ']', '#', '\r', '\'', '"']),
                    4 => char::from_u32(*rng.pick(&[0xe9u32, 0x20ac, 0x1f41f, 0xfeff, 0x7f, 1, 0x80, 0x7ff, 0x800, 0xffff, 0x10ffff]))
                        .unwrap_or('x'),
                    _ => (b' ' + rng.below(95) as u8) as char,
                };
                let c = if c == q || c == '\\' || (after_short_oct && c.is_digit(8)) { 'q' } else { c };
                text.push(c);
                let mut buf = [0; 4];
                val.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                after_short_oct = false;
            }
        }
    }
    text.push(q);
    (text, val)
}

fn full_ident(rng: &mut Rng) -> String {
    let n = if rng.one_in(100) { rng.range(4, 300) } else { rng.range(1, 3) };
    let v: Vec<String> = (0..n)
        .map(|_| loop {
            let c = if rng.one_in(4) { *rng.pick(KEYWORDS) } else { *rng.pick(TRICKY) };
            if !["true", "false", "inf", "nan"].contains(&c) {
                return c.to_string();
            }
        })
        .collect();
    v.join(".")
}

pub fn gen_const(rng: &mut Rng, mode: Opts) -> (Const, Vec<String>) {
    let wild = mode == Opts::Wild;
    match rng.below(5) {
        0 => {
            let s = full_ident(rng);
            (Const::Ident(s.clone()), vec![s])
        }
        1 => {
            let v = if wild { rng.weird() as i64 } else { rng.below(1000) as i64 };
            (Const::Int(v), int_lit(rng, v, wild))
        }
        2 if wild => {
            let (t, v) = float_token(rng);
            match rng.below(3) {
                0 => (Const::Float((-v).to_bits()), vec!["-".to_string(), t]),
                1 => (Const::Float(v.to_bits()), vec!["+".to_string(), t]),
                _ => (Const::Float(v.to_bits()), vec![t]),
            }
        }
        3 => {
            let b = rng.bool();
            (Const::Bool(b), vec![b.to_string()])
        }
        _ => {
            if wild {
                let max = if rng.one_in(60) { *rng.pick(&[100, 1000, 3000, 70_000]) } else { 12 };
                let (t, v) = str_token(rng, max);
                (Const::Str(v), vec![t])
            } else {
                let s = rng.pick(&["", "foo", "a b", "//x", "/*y", "{;}", "é"]).to_string();
                (Const::Str(s.clone().into_bytes()), vec![format!("\"{}\"", s)])
            }
        }
    }
}

pub fn gen_opt(rng: &mut Rng, mode: Opts, used: &mut BTreeSet<String>) -> Opt {
    let name = loop {
        let mut n = match rng.below(3) {
            0 => rng.pick(TRICKY).to_string(),
            1 => format!("({}{})", if rng.one_in(12) { "" } else { "" }, full_ident(rng)),
            _ => rng.pick(&["deprecated", "packed_", "jstype", "lazy", "unpacked", "(packed)", "a"]).to_string(),
        };
        for _ in 0..rng.below(4).saturating_sub(1) {
            n.push('.');
            n.push_str(rng.pick(TRICKY));
        }
        if n != "packed" && used.insert(n.clone()) {
            break n;
        }
    };
    let (value, lit) = gen_const(rng, mode);
    Opt { name, value, lit }
}

pub fn gen_opts(rng: &mut Rng, mode: Opts, max: usize) -> Vec<Opt> {
    if mode == Opts::None || !rng.one_in(if mode == Opts::Wild { 2 } else { 4 }) {
        return vec![];
    }
    let n = if rng.one_in(20) { rng.range(max, 10 * max) } else { rng.range(1, max) };
    let mut used = BTreeSet::new();
    (0..n).map(|_| gen_opt(rng, mode, &mut used)).collect()
}

fn reserved(rng: &mut Rng, in_enum: bool) -> Vec<String> {
    let mut t: Vec<String> = vec!["reserved".into()];
    let n = rng.range(1, 4);
    let names = rng.bool();
    for i in 0..n {
        if i > 0 {
            t.push(",".into());
        }
        if names {
            // published grammar: field names; protoc: strings
            let name = *rng.pick(TRICKY);
            if rng.one_in(3) {
                t.push(name.to_string());
            } else {
                let q = rng.pick(&["\"", "'"]);
                t.push(format!("{}{}{}", q, name, q));
            }
        } else {
            if in_enum && rng.one_in(3) {
                t.push("-".into());
            }
            let a = rng.range(1, 100000);
            t.push(int_token(rng, a as u128, true));
            match rng.below(3) {
                0 => {
                    t.push("to".into());
                    t.push(int_token(rng, (a + rng.clone().below(100)) as u128, true));
                }
                1 if i == n - 1 => {
                    t.push("to".into());
                    t.push("max".into());
                }
                _ => {}
            }
        }
    }
    t.push(";".into());
    t
}

fn insert_at(rng: &mut Rng, v: &mut Vec<Item>, i: Item) {
    let p = rng.below(v.len() + 1);
    v.insert(p, i);
}

pub fn extras(rng: &mut Rng, cfg: &Cfg, body: &mut Vec<Item>, can_reserve: bool, is_enum: bool) {
    if !cfg.extras {
        return;
    }
    if rng.one_in(3) {
        for _ in 0..rng.range(1, 3) {
            insert_at(rng, body, Item::Empty);
        }
    }
    if can_reserve && rng.one_in(3) {
        let r = reserved(rng, is_enum);
        insert_at(rng, body, Item::Reserved(r));
    }
}

/// Inserts the options in order.
fn opt_items(rng: &mut Rng, body: &mut Vec<Item>, n: usize) {
    let mut at = 0;
    for i in 0..n {
        at = rng.range(at, body.len());
        body.insert(at, Item::Opt(i));
        at += 1;
    }
}

/// All spellings under which protobuf's rules find the type, from the given scope.
pub fn spellings(sy: &Symbols, full: &str, scope: &str, target: Sym, rpc: bool) -> Vec<String> {
    let mut out = vec![format!(".{}", full)];
    let mut at = full.len();
    loop {
        let start = full[..at].rfind('.').map(|i| i + 1).unwrap_or(0);
        let s = &full[start..];
        let first = s.split('.').next().unwrap();
        // where the crate looks for the whole name, protobuf for its first part; what is generated
        // means the same to both
        let clear = match sy.innermost(s, scope) {
            // a service does not hide a type from a field
            Some(Sym::Service(_)) => !rpc && !s.contains('.'),
            x => x == Some(target),
        };
        if !KEYWORDS.contains(&first) && sy.protoc(s, scope, rpc) == Some(target) && clear {
            out.push(s.to_string());
        }
        if start == 0 {
            break;
        }
        at = start - 1;
    }
    out
}

/// Hundreds of options on some of the things that have options.
fn lots_of_options(rng: &mut Rng, cfg: &Cfg, s: &mut Schema) {
    let mode = if cfg.opts == Opts::None { Opts::Simple } else { cfg.opts };
    let more = |rng: &mut Rng, o: &mut Vec<Opt>| {
        let mut used: BTreeSet<String> = o.iter().map(|o| o.name.clone()).collect();
        for _ in 0..rng.range(50, 700) {
            let mut x = gen_opt(rng, mode, &mut BTreeSet::new());
            if !used.insert(x.name.clone()) {
                x.name = format!("{}.n{}", x.name, used.len());
                used.insert(x.name.clone());
            }
            o.push(x);
        }
    };
    for t in 0..s.types.len() {
        match &mut s.types[t].kind {
            Kind::Msg(m) => {
                for f in &mut m.fields {
                    if rng.one_in(30) {
                        more(rng, &mut f.opts);
                    }
                }
            }
            Kind::Enum(e) => {
                for v in &mut e.values {
                    if rng.one_in(30) {
                        more(rng, &mut v.opts);
                    }
                }
            }
        }
    }
}

pub fn generate(rng: &mut Rng, cfg: &Cfg) -> Schema {
    let mut s = Schema::default();
    let mut used: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); // names by scope
    use Vast::*;
    let vast = if cfg.vast {
        *rng.pick(&[Types, Files, Services, Rpcs, Values, Fields, Oneofs, Options, Package, Nesting, Names])
    } else {
        No
    };
    let nfiles = if vast == Files { rng.range(20, 300) } else { rng.range(1, cfg.files) };

    // Packages.
    let mut packages: Vec<Option<String>> = vec![];
    for _ in 0..nfiles {
        let mut tries = 0;
        let p = loop {
            tries += 1;
            let p = if cfg.share_packages && !packages.is_empty() && rng.one_in(3) {
                rng.pick(&packages).clone()
            } else if rng.one_in(4) {
                None
            } else {
                let mut base = match rng.below(3) {
                    // extend an existing package
                    0 if cfg.share_packages && !packages.is_empty() => rng.pick(&packages).clone().unwrap_or_default(),
                    _ => String::new(),
                };
                for _ in 0..if vast == Package { rng.range(20, 200) } else { rng.range(1, 3) } {
                    let mut u = BTreeSet::new();
                    let c = fresh(rng, cfg.names, &mut u, false, &[]);
                    if !base.is_empty() {
                        base.push('.');
                    }
                    base.push_str(&c);
                }
                if tries > 20 {
                    base.push_str(&format!("{}", rng.below(10000)));
                }
                Some(base)
            };
            if cfg.share_packages || !packages.contains(&p) {
                break p;
            }
        };
        packages.push(p);
    }
    for p in packages.iter().flatten() {
        // components of package names are names in their scopes
        let mut scope = String::new();
        for c in p.split('.') {
            used.entry(scope.clone()).or_default().insert(c.to_string());
            if !scope.is_empty() {
                scope.push('.');
            }
            scope.push_str(c);
        }
    }
    for p in packages {
        s.files.push(File {
            package: p,
            ..Default::default()
        });
    }

    // Types.
    let ntypes = match vast {
        Types => rng.range(200, 1500),
        Files => rng.range(nfiles / 2, nfiles * 2),
        Nesting => rng.range(30, 120),
        _ => rng.range(1, cfg.types),
    };
    // not all of several hundred types have many members
    let slim = ntypes > 100;
    let mut depth: Vec<usize> = vec![];
    for i in 0..ntypes {
        let candidates: Vec<Tid> = (0..s.types.len()).filter(|t| s.is_msg(*t) && depth[*t] < cfg.depth).collect();
        let parent = if vast == Nesting && i > 0 && s.is_msg(i - 1) && rng.below(30) > 0 {
            Parent::Type(i - 1)
        } else if !candidates.is_empty() && rng.below(5) < 3 {
            // prefer deep
            let a = *rng.pick(&candidates);
            let b = *rng.pick(&candidates);
            Parent::Type(if depth[a] > depth[b] { a } else { b })
        } else {
            Parent::File(rng.below(nfiles))
        };
        let scope = match parent {
            Parent::File(f) => s.files[f].package.clone().unwrap_or_default(),
            Parent::Type(t) => s.types[t].full.clone(),
        };
        let mut name = fresh(rng, cfg.names, used.entry(scope.clone()).or_default(), false, &[]);
        if vast == Names && rng.one_in(4) {
            name = format!("{}{}", name, "_Long9".repeat(rng.range(100, 12000)));
        }
        let full = if scope.is_empty() { name.clone() } else { format!("{}.{}", scope, name) };
        let is_enum = cfg.enums && i > 0 && rng.one_in(if vast == Nesting { 40 } else { 4 });
        let kind = if is_enum { Kind::Enum(Enum::default()) } else { Kind::Msg(Msg::default()) };
        depth.push(match parent {
            Parent::File(_) => 1,
            Parent::Type(t) => depth[t] + 1,
        });
        s.types.push(Type { name, full, parent, kind });
        match parent {
            Parent::File(f) => s.files[f].items.push(Item::Type(i)),
            Parent::Type(t) => s.msg_mut(t).inner.push(i),
        }
    }

    // Services.
    if cfg.services {
        for _ in 0..match vast {
            Services => rng.range(50, 600),
            Rpcs => rng.range(1, 3),
            _ => rng.below(4),
        } {
            let f = rng.below(nfiles);
            let scope = s.files[f].package.clone().unwrap_or_default();
            let name = fresh(rng, cfg.names, used.entry(scope.clone()).or_default(), false, &[]);
            let full = if scope.is_empty() { name.clone() } else { format!("{}.{}", scope, name) };
            let id = s.services.len();
            s.services.push(Service {
                name,
                full,
                file: f,
                rpcs: vec![],
                opts: gen_opts(rng, cfg.opts, 3),
                body: vec![],
            });
            s.files[f].items.push(Item::Service(id));
        }
    }

    let sy = s.symbols();
    let messages = s.messages();
    let enums = s.enums();

    // Enum values; they are names in the scope around the enum.
    for &e in &enums {
        let scope = match s.types[e].parent {
            Parent::File(f) => s.files[f].package.clone().unwrap_or_default(),
            Parent::Type(t) => s.types[t].full.clone(),
        };
        let n = if vast == Values && rng.bool() {
            rng.range(200, 3000)
        } else if !slim && rng.one_in(30) {
            rng.range(50, 200)
        } else {
            rng.range(1, 6)
        };
        let mut taken: BTreeSet<i64> = BTreeSet::new();
        let mut values: Vec<EnumValue> = vec![];
        let alias = cfg.aliases && rng.one_in(3);
        for i in 0..n {
            let value = if i == 0 {
                0
            } else if alias && rng.one_in(3) {
                rng.pick(&values).value
            } else {
                loop {
                    let v = if n > 200 {
                        rng.next() as i32 as i64 >> rng.below(20)
                    } else if cfg.wide_values && rng.bool() {
                        rng.weird() as i64
                    } else if cfg.lits {
                        rng.weird() as i32 as i64
                    } else {
                        rng.below(300) as i64
                    };
                    if !taken.contains(&v) {
                        break v;
                    }
                }
            };
            let name = fresh(
                rng,
                cfg.names,
                used.entry(scope.clone()).or_default(),
                true,
                &["option", "reserved"],
            );
            let lit = int_lit(rng, value, cfg.lits);
            taken.insert(value);
            values.push(EnumValue {
                name,
                value,
                lit,
                opts: gen_opts(rng, cfg.opts, 3),
            });
        }
        let mut opts = gen_opts(rng, cfg.opts, 2);
        if alias {
            opts.insert(
                0,
                Opt {
                    name: "allow_alias".into(),
                    value: Const::Bool(true),
                    lit: vec!["true".into()],
                },
            );
        }
        let mut body: Vec<Item> = (0..values.len()).map(Item::Value).collect();
        opt_items(rng, &mut body, opts.len());
        extras(rng, cfg, &mut body, true, true);
        s.types[e].kind = Kind::Enum(Enum { values, opts, body });
    }

    // Members of messages.
    for &m in &messages {
        let scope = s.types[m].full.clone();
        let inner = s.msg(m).inner.clone();
        let mut names = used.entry(scope.clone()).or_default().clone();
        let mut numbers: BTreeMap<u64, ()> = BTreeMap::new();
        let mut msg = Msg {
            inner: inner.clone(),
            ..Default::default()
        };
        let noneofs = if vast == Oneofs && rng.bool() {
            rng.range(20, 300)
        } else if rng.one_in(3) {
            rng.range(1, 3)
        } else {
            0
        };
        for _ in 0..noneofs {
            let name = fresh(rng, cfg.names, &mut names, true, &[]);
            msg.oneofs.push(Oneof {
                name,
                opts: gen_opts(rng, cfg.opts, 2),
            });
            msg.oneof_bodies.push(vec![]);
        }
        // the grammar allows oneofs without fields, although protoc refuses them
        let empty: Vec<bool> = (0..noneofs).map(|_| rng.one_in(8)).collect();
        let nf = if vast == Fields && rng.bool() {
            rng.range(300, 4000)
        } else if slim {
            rng.below(4).max(noneofs)
        } else if vast == Oneofs {
            rng.range(noneofs, noneofs * 3 + 3)
        } else if cfg.fields > 6 && rng.one_in(60) {
            rng.range(100, 400)
        } else {
            rng.range(cfg.min_fields, cfg.fields)
        };
        for i in 0..nf {
            let ty = match rng.below(10) {
                0 | 1 => Ty::T(*rng.pick(&messages)),
                2 if !enums.is_empty() => Ty::T(*rng.pick(&enums)),
                _ => Ty::S(*rng.pick(&KINDS)),
            };
            // the first field of a oneof, so that few are empty
            let oneof = if i < noneofs {
                Some(i)
            } else if noneofs > 0 && rng.one_in(4) {
                Some(rng.below(noneofs))
            } else {
                None
            }
            .filter(|o| !empty[*o]);
            let mult = if oneof.is_some() {
                Mult::Single
            } else {
                match rng.below(5) {
                    0 => Mult::Optional,
                    1 | 2 => Mult::Repeated,
                    _ => Mult::Single,
                }
            };
            let mut opts = gen_opts(rng, cfg.opts, 4);
            let packable = matches!(ty, Ty::S(k) if k.numeric()) || matches!(ty, Ty::T(t) if !s.is_msg(t));
            if mult == Mult::Repeated && packable && rng.one_in(2) {
                let v = rng.bool();
                let p = if rng.one_in(4) { opts.len() } else { rng.below(opts.len() + 1) };
                opts.insert(
                    p,
                    Opt {
                        name: "packed".into(),
                        value: Const::Bool(v),
                        lit: vec![v.to_string()],
                    },
                );
            }
            let spelling = match ty {
                Ty::S(k) => k.name().to_string(),
                Ty::T(t) => {
                    let full = &s.types[t].full;
                    rng.pick(&spellings(&sy, full, &scope, sy.map[full], false)).clone()
                }
            };
            let number = field_number(rng, &numbers, cfg.huge_numbers);
            numbers.insert(number, ());
            let name = fresh(rng, cfg.names, &mut names, true, &[]);
            let num_lit = int_token(rng, number as u128, cfg.lits);
            msg.fields.push(Field {
                name,
                number,
                ty,
                mult,
                opts,
                oneof,
                spelling,
                num_lit,
            });
        }
        for o in 0..noneofs {
            if !empty[o] && !msg.fields.iter().any(|f| f.oneof == Some(o)) {
                let number = field_number(rng, &numbers, cfg.huge_numbers);
                numbers.insert(number, ());
                let name = fresh(rng, cfg.names, &mut names, true, &[]);
                msg.fields.push(Field {
                    name,
                    number,
                    ty: Ty::S(K::Int32),
                    mult: Mult::Single,
                    opts: vec![],
                    oneof: Some(o),
                    spelling: "int32".into(),
                    num_lit: number.to_string(),
                });
            }
        }
        let mut body: Vec<Item> = vec![];
        for (i, f) in msg.fields.iter().enumerate() {
            match f.oneof {
                Some(o) => msg.oneof_bodies[o].push(Item::Field(i)),
                None => body.push(Item::Field(i)),
            }
        }
        body.extend((0..noneofs).map(Item::Oneof));
        body.extend(inner.iter().map(|t| Item::Type(*t)));
        rng.shuffle(&mut body);
        msg.opts = gen_opts(rng, cfg.opts, 3);
        opt_items(rng, &mut body, msg.opts.len());
        extras(rng, cfg, &mut body, true, false);
        msg.body = body;
        for o in 0..noneofs {
            let mut b = std::mem::take(&mut msg.oneof_bodies[o]);
            rng.shuffle(&mut b);
            opt_items(rng, &mut b, msg.oneofs[o].opts.len());
            extras(rng, cfg, &mut b, false, false);
            msg.oneof_bodies[o] = b;
        }
        // keep `inner` in the order of the text
        msg.inner = msg
            .body
            .iter()
            .filter_map(|i| match i {
                Item::Type(t) => Some(*t),
                _ => None,
            })
            .collect();
        used.insert(scope, names);
        s.types[m].kind = Kind::Msg(msg);
    }

    // Rpcs.
    for i in 0..s.services.len() {
        let scope = s.services[i].full.clone();
        let n = if vast == Rpcs {
            rng.range(100, 1200)
        } else if vast != Services && rng.one_in(20) {
            rng.range(20, 60)
        } else {
            rng.below(5)
        };
        let mut names = BTreeSet::new();
        let mut firsts = BTreeSet::new();
        let mut rpcs = vec![];
        for _ in 0..n {
            let input = *rng.pick(&messages);
            let output = *rng.pick(&messages);
            let mut spell = |rng: &mut Rng, t: Tid| {
                let full = &s.types[t].full;
                let r = rng.pick(&spellings(&sy, full, &scope, sy.map[full], true)).clone();
                firsts.insert(r.trim_start_matches('.').split('.').next().unwrap().to_string());
                r
            };
            let input_spelling = spell(rng, input);
            let output_spelling = spell(rng, output);
            let opts = gen_opts(rng, cfg.opts, 3);
            let body = if opts.is_empty() && rng.bool() {
                None
            } else {
                let mut b = vec![];
                opt_items(rng, &mut b, opts.len());
                extras(rng, cfg, &mut b, false, false);
                Some(b)
            };
            rpcs.push(Rpc {
                name: String::new(),
                input,
                input_spelling,
                input_stream: rng.bool(),
                output,
                output_spelling,
                output_stream: rng.bool(),
                opts,
                body,
            });
        }
        names.extend(firsts);
        for r in &mut rpcs {
            r.name = fresh(rng, cfg.names, &mut names, true, &[]);
        }
        let mut body: Vec<Item> = (0..rpcs.len()).map(Item::Rpc).collect();
        rng.shuffle(&mut body);
        opt_items(rng, &mut body, s.services[i].opts.len());
        extras(rng, cfg, &mut body, false, false);
        s.services[i].rpcs = rpcs;
        s.services[i].body = body;
    }

    if vast == Options {
        lots_of_options(rng, cfg, &mut s);
    }

    // Files.
    for f in 0..nfiles {
        let mut items = std::mem::take(&mut s.files[f].items);
        rng.shuffle(&mut items);
        let opts = if cfg.extras { gen_opts(rng, cfg.opts, 3) } else { vec![] };
        opt_items(rng, &mut items, opts.len());
        if cfg.extras {
            if rng.one_in(3) {
                for _ in 0..rng.range(1, 3) {
                    insert_at(rng, &mut items, Item::Empty);
                }
            }
            for _ in 0..rng.below(3) {
                let mut t = vec!["import".to_string()];
                match rng.below(3) {
                    0 => t.push("weak".into()),
                    1 => t.push("public".into()),
                    _ => {}
                }
                let (q, n) = (*rng.pick(&["\"", "'"]), rng.below(9));
                t.push(format!("{}dir/file{}.proto{}", q, n, q));
                t.push(";".into());
                insert_at(rng, &mut items, Item::Import(t));
            }
        }
        s.files[f].opts = opts;
        s.files[f].package_at = if cfg.extras && rng.one_in(3) { rng.below(items.len() + 1) } else { 0 };
        s.files[f].items = items;
    }
    s
}
