//! Parsing and what contexts say.

use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::grammar::{self, Verdict};
use crate::model::*;
use crate::render::{self, Layout, Tok};
use crate::rng::Rng;
use protofish::context::{Constant, Context, ItemType, Package, ParseError, ProtoOption, TypeInfo, TypeParent, ValueType};
use std::collections::BTreeSet;

/// The known finding about map fields.
pub const MAP_PANIC: &str = "not implemented: Maps are not supported";

fn parse(texts: &[String]) -> R<Context> {
    call("parse", || Context::parse(texts))
        .map_err(|f| Fail(format!("{}\n{}", f.0, show(texts))))?
        .map_err(|e| Fail(format!("valid files do not parse: {}\n{}", e, show(texts))))
}

pub fn show(texts: &[String]) -> String {
    let mut o = texts.join("\n----- next file\n");
    if o.len() > 6000 {
        let mut n = 6000;
        while !o.is_char_boundary(n) {
            n -= 1;
        }
        o.truncate(n);
        o.push_str("...");
    }
    o
}

pub fn all_names(s: &Schema) -> Vec<String> {
    s.types.iter().map(|t| t.full.clone()).chain(s.services.iter().map(|v| v.full.clone())).collect()
}

fn id(texts: &[String]) -> Vec<u8> {
    texts.join("\0").into_bytes()
}

fn parents(scope: &str) -> &str {
    scope.rfind('.').map(|i| &scope[..i]).unwrap_or("")
}

fn dot(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.into()
    } else {
        format!("{}.{}", a, b)
    }
}

// --------------------------------------------------------------------------------------- C11

const VOCAB: &[&str] = &[
    "syntax", "=", "\"proto3\"", "'proto3'", ";", "message", "enum", "service", "rpc", "returns", "(", ")", "{", "}", "[", "]", "<", ">",
    ",", ".", "-", "+", "option", "oneof", "reserved", "to", "max", "import", "public", "weak", "package", "optional", "repeated",
    "required", "stream", "map", "int32", "uint64", "sint32", "fixed64", "double", "float", "bool", "string", "bytes", "true", "false",
    "inf", "nan", "A", "B", "foo", "packed", "deprecated", "0", "1", "2", "010", "0x1F", "08", "0x", "1.5", ".5", "5.", "1e5", "1e",
    "1e999", "1e-999", "-1", "+1", "- 1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "536870911", "536870912", "2147483648", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000",
    "01777777777777777777777", "02000000000000000000000", "99999999999999999999999999999999999999999", "\"\"", "''", "\"a\"", "'\\n'",
    "\"\\x\"", "\"\\xff\"", "\"\\x8\"", "\"\\777\"", "\"\\400\"", "\"\\377\"", "\"\\8\"", "\"\\\"", "'\\''", "\"\\u00e9\"", "\"\\?\"",
    "\"unterminated", "'unterminated", "\"\\", "//", "/*", "*/", "/**/", "//\n", "\u{feff}", "\0", "\u{c}", "\u{a0}", "é", "🐟", "@", "$", "\\",
    "#", "_", "a_", "a.b", ".a", "a.", "..", "(a)", "(a.b).c", "(.a)", "()", "(a", "a)", "messageA", "optionalfoo", "extend", "extensions",
    "group", "edition", "google.protobuf.Any",
];

fn soup_token(rng: &mut Rng) -> String {
    if rng.one_in(30) {
        // digits and quotes without end
        let n = rng.range(1, 400);
        match rng.below(5) {
            0 => "9".repeat(n),
            1 => format!("0x{}", "f".repeat(n)),
            2 => format!("0{}", "7".repeat(n)),
            3 => format!("1.{}e{}", "3".repeat(n), "1".repeat(1 + n % 6)),
            _ => format!("{}{}", "a.".repeat(n), "b"),
        }
    } else if rng.one_in(8) {
        gen::str_token(rng, 6).0
    } else {
        rng.pick(VOCAB).to_string()
    }
}

/// Statements that are complete but say strange things.
pub fn statement(rng: &mut Rng) -> String {
    let num = |rng: &mut Rng| {
        if rng.bool() {
            rng.range(0, 40).to_string()
        } else {
            rng.pick(&[
                "0", "-1", "+1", "- 0", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808",
                "-9223372036854775809", "0x7fffffffffffffff", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "01777777777777777777777",
                "02000000000000000000000", "00", "0x0", "000001", "-0xFFFFFFFFFFFFFFFF", "99999999999999999999999999",
            ])
            .to_string()
        }
    };
    let name = |rng: &mut Rng| rng.pick(&["A", "B", "C", "a", "b", "option", "message", "A1", "reserved", "stream", "inf", "true"]).to_string();
    let ty = |rng: &mut Rng| {
        rng.pick(&[
            "A", "B", ".A", "A.B", ".A.B.C", "a.b.C", "int32", "string", "bytes", "bool", "double", ".int32", "int32.A", "A . B", "stream",
            "optional", "Unknown", ".", "message",
        ])
        .to_string()
    };
    let constant = |rng: &mut Rng| match rng.below(3) {
        0 => {
            let (_, l) = gen::gen_const(rng, gen::Opts::Wild);
            l.concat()
        }
        1 => num(rng),
        _ => rng
            .pick(&[
                "1e999", "-1e999", "1e-999", "nan", "-nan", "+inf", "- inf", ".5e1", "5.", "1e+5", "\"\\777\"", "\"\\400\"", "'\\x00'", "a.b.c",
                "infinity", "truely", "-true", "- foo", "{ a: 1 }", "\"a\" \"b\"", "1.", "0.0e0", "09", "0x", "1f", "''", "1_000",
            ])
            .to_string(),
    };
    let optname = |rng: &mut Rng| {
        rng.pick(&["packed", "(a)", "(a.b).c", "(.a)", "a.b", "deprecated", "( a . b ) . c", "default", "option", "allow_alias"]).to_string()
    };
    let opts = |rng: &mut Rng| {
        if rng.one_in(3) {
            let n = rng.range(0, 3);
            let v: Vec<String> = (0..n).map(|_| format!("{} = {}", optname(rng), constant(rng))).collect();
            format!(" [{}]", v.join(","))
        } else {
            String::new()
        }
    };
    fn body(rng: &mut Rng, depth: usize, f: &dyn Fn(&mut Rng, usize) -> String) -> String {
        let n = rng.below(6);
        (0..n).map(|_| f(rng, depth)).collect::<Vec<_>>().join(" ")
    }
    let member = |rng: &mut Rng, _d: usize| -> String {
        match rng.below(12) {
            0 => format!("option {} = {};", optname(rng), constant(rng)),
            1 => {
                let f: Vec<String> = (0..rng.below(4))
                    .map(|_| match rng.below(5) {
                        0 => format!("option {} = {};", optname(rng), constant(rng)),
                        1 => ";".into(),
                        2 => format!("repeated {} {} = {};", ty(rng), name(rng), num(rng)),
                        _ => format!("{} {} = {}{};", ty(rng), name(rng), num(rng), opts(rng)),
                    })
                    .collect();
                format!("oneof {} {{ {} }}", name(rng), f.join(" "))
            }
            2 => format!("reserved {};", rng.pick(&["1", "1 to 2", "1 to max", "a", "\"a\"", "\"a\", 'b'", "-1", "99999999999999999999", "1, a", ""])),
            3 if rng.one_in(6) => format!("map<{}, {}> {} = {}{};", rng.pick(&["int32", "string", "bool", "double", "A"]), ty(rng), name(rng), num(rng), opts(rng)),
            4 => ";".into(),
            _ => format!(
                "{} {} {} = {}{};",
                rng.pick(&["", "", "optional", "repeated", "repeated", "required"]),
                ty(rng),
                name(rng),
                num(rng),
                opts(rng)
            ),
        }
    };
    let enum_ = |rng: &mut Rng| {
        let f: Vec<String> = (0..rng.below(5))
            .map(|_| match rng.below(6) {
                0 => format!("option {} = {};", optname(rng), constant(rng)),
                1 => format!("reserved {};", rng.pick(&["1", "-1 to 2", "1 to max", "\"a\""])),
                _ => format!("{} = {}{};", name(rng), num(rng), opts(rng)),
            })
            .collect();
        format!("enum {} {{ {} }}", name(rng), f.join(" "))
    };
    match rng.below(8) {
        0 => enum_(rng),
        1 => {
            let f: Vec<String> = (0..rng.below(5))
                .map(|_| match rng.below(6) {
                    0 => format!("option {} = {};", optname(rng), constant(rng)),
                    1 => ";".into(),
                    _ => {
                        let a = ["", "stream "];
                        format!(
                            "rpc {}({}{}) returns ({}{}){}",
                            name(rng),
                            rng.pick(&a),
                            ty(rng),
                            rng.pick(&a),
                            ty(rng),
                            if rng.bool() {
                                ";".to_string()
                            } else {
                                format!("{{ option {} = {}; }}", optname(rng), constant(rng))
                            }
                        )
                    }
                })
                .collect();
            format!("service {} {{ {} }}", name(rng), f.join(" "))
        }
        2 => format!("package {};", rng.pick(&["a", "a.b", "A", "A.B", "a . b", "option", ".a", ""])),
        3 => format!("import {};", rng.pick(&["\"a.proto\"", "'x'", "weak \"a\"", "public 'b'", "weak public \"c\"", "\"\\777\"", "\"\\xzz\""])),
        4 => format!("option {} = {};", optname(rng), constant(rng)),
        _ => {
            let b = body(rng, 0, &member);
            let inner = if rng.bool() {
                let c = body(rng, 1, &member);
                let e = if rng.bool() { enum_(rng) } else { String::new() };
                format!("message {} {{ {} {} }}", name(rng), c, e)
            } else {
                String::new()
            };
            format!("message {} {{ {} {} }}", name(rng), b, inner)
        }
    }
}

fn char_at(rng: &mut Rng, s: &str) -> usize {
    let mut n = rng.below(s.len() + 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    n
}

pub fn mutate_text(rng: &mut Rng, s: &str, other: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..rng.range(1, 4) {
        let a = char_at(rng, &s);
        match rng.below(7) {
            0 => s.truncate(a),
            1 => s = s[a..].to_string(),
            2 => {
                let t = soup_token(rng);
                s.insert_str(a, &t)
            }
            3 => {
                if let Some(c) = s[a..].chars().next() {
                    s.replace_range(a..a + c.len_utf8(), "");
                }
            }
            4 => {
                if let Some(c) = s[a..].chars().next() {
                    let x = *rng.pick(&['a', '0', ';', '{', '}', '"', '\'', '\\', '.', '/', '*', '\n', '\0', 'é', '-', '=', '(', ')', ' ', '9']);
                    s.replace_range(a..a + c.len_utf8(), &x.to_string());
                }
            }
            5 => {
                let b = char_at(rng, &s);
                let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 200));
                let mut b = b;
                while !s.is_char_boundary(b) {
                    b -= 1;
                }
                let part = s[a..b].to_string();
                let c = char_at(rng, &s);
                s.insert_str(c, &part);
            }
            _ => {
                let b = char_at(rng, other);
                s.truncate(a);
                s.push_str(&other[b..]);
            }
        }
    }
    s
}

pub fn mutate_tokens(rng: &mut Rng, toks: &[Tok]) -> Vec<Tok> {
    let mut t = toks.to_vec();
    for _ in 0..rng.range(1, 5) {
        if t.is_empty() {
            break;
        }
        let a = rng.below(t.len());
        match rng.below(5) {
            0 => {
                t.remove(a);
            }
            1 => {
                let x = t[a].clone();
                t.insert(a, x);
            }
            2 => {
                let b = rng.below(t.len());
                t.swap(a, b);
            }
            3 => t[a].s = soup_token(rng),
            _ => {
                let s = soup_token(rng);
                t.insert(a, Tok { s, essential: false });
            }
        }
    }
    t
}

fn c11_check(cx: &mut Cx, texts: &[String]) -> R {
    cx.max("bytes of text", texts.iter().map(|t| t.len() as u64).sum());
    let r = match guard(|| Context::parse(texts)) {
        Err(p) => {
            if p.starts_with(MAP_PANIC) && texts.iter().any(|t| t.contains("map")) {
                cx.count("inputs with map fields (known finding)");
                return Ok(());
            }
            return Err(Fail(format!("parse panicked: {}\n{}", p, show(texts))));
        }
        Ok(r) => r,
    };
    match r {
        Err(e) => {
            let (kind, parts): (&str, Vec<String>) = match &e {
                ParseError::SyntaxError { .. } => ("syntax errors", vec![]),
                ParseError::DuplicateType { name } => ("duplicate type errors", vec![name.clone()]),
                ParseError::TypeNotFound { name, context } => ("type not found errors", vec![name.clone(), context.clone()]),
                ParseError::InvalidTypeKind { type_name, .. } => ("invalid kind errors", vec![type_name.clone()]),
                _ => ("other errors", vec![]),
            };
            cx.count(kind);
            let (d, _) = call("displaying the error", || (format!("{}", e), format!("{:?}", e)))?;
            ensure!(!d.is_empty(), "empty error message\n{}", show(texts));
            for p in parts {
                ensure!(d.contains(&p), "the error message `{}` does not mention `{}`\n{}", d, p, show(texts));
            }
            use std::error::Error;
            if let Some(s) = e.source() {
                call("displaying the source of the error", || s.to_string())?;
            }
        }
        Ok(c) => {
            cx.count("contexts");
            let d = call("printing the context", || format!("{:?}", c))?;
            std::hint::black_box(d);
        }
    }
    cx.eval(&id(texts), texts.iter().any(|t| t.len() > 20));
    cx.sample(|| show(texts));
    Ok(())
}

pub fn c11(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.opts = gen::Opts::Wild;
    cfg.huge_numbers = cx.rng.bool();
    cfg.files = 2;
    let s = gen::generate(&mut cx.rng, &cfg);
    let toks: Vec<Vec<Tok>> = (0..s.files.len()).map(|f| render::tokens(&s, f, &mut cx.rng, Layout::Wild)).collect();
    let valid: Vec<String> = toks.iter().map(|t| render::join(t, &mut cx.rng, Layout::Wild)).collect();
    for i in 0..34 {
        let rng = &mut cx.rng;
        let mut texts: Vec<String> = match if i < 24 { i % 6 } else { 6 } {
            0 | 1 => toks
                .iter()
                .map(|t| {
                    let t = if rng.one_in(3) { t.clone() } else { mutate_tokens(rng, t) };
                    let l = if rng.bool() { Layout::Plain } else { Layout::Wild };
                    if t.is_empty() {
                        String::new()
                    } else {
                        render::join(&t, rng, l)
                    }
                })
                .collect(),
            2 => {
                let o = rng.pick(&valid).clone();
                valid.iter().map(|t| mutate_text(rng, t, &o)).collect()
            }
            3 => {
                let n = rng.range(1, 3);
                (0..n)
                    .map(|_| {
                        let k = rng.below(40);
                        let mut t = if rng.one_in(8) { String::new() } else { "syntax = \"proto3\";".to_string() };
                        for _ in 0..k {
                            t.push_str(&soup_token(rng));
                            t.push_str(rng.pick(&[" ", " ", " ", "", "\n"]));
                        }
                        t
                    })
                    .collect()
            }
            4 => {
                let n = rng.range(1, 3);
                (0..n)
                    .map(|_| {
                        let k = rng.range(1, 6);
                        let mut t = "syntax = \"proto3\";\n".to_string();
                        for _ in 0..k {
                            t.push_str(&statement(rng));
                            t.push('\n');
                        }
                        t
                    })
                    .collect()
            }
            5 => extreme(rng),
            _ => holes(rng),
        };
        if rng.one_in(10) {
            texts.push(rng.pick(&["", " ", "\u{feff}", "syntax = \"proto3\";", "\n\n//"]).to_string());
        }
        c11_check(cx, &texts)?;
    }
    Ok(())
}

/// A string of a few characters of an alphabet or a few tokens, for a place in an otherwise valid text.
fn filler(rng: &mut Rng) -> String {
    let from = |rng: &mut Rng, set: &str, max: usize| -> String {
        let set: Vec<char> = set.chars().collect();
        (0..rng.range(1, max)).map(|_| *rng.pick(&set)).collect()
    };
    match rng.below(9) {
        // anything after a backslash
        0 => {
            let q = *rng.pick(&["\"", "'"]);
            let mut t = q.to_string();
            for _ in 0..rng.range(1, 3) {
                t.push('\\');
                t.push(match rng.below(4) {
                    0 => *rng.pick(&['é', '🐟', '\u{2028}', '\u{feff}', '\u{0}', '\u{7f}']),
                    1 => *rng.pick(&['x', 'X', 'u', 'U', '0', '3', '7', '8', '?', 'N', 'c', 'e']),
                    _ => (rng.range(1, 127) as u8) as char,
                });
                if rng.bool() {
                    t.push_str(&from(rng, "0123456789abcdefABCDEFgxé {}", 8));
                }
            }
            t + q
        }
        1 => from(rng, "0123456789", 24),
        2 => from(rng, "0123456789+-.eEfFxX", 12),
        3 => from(rng, "0xX0123456789abcdefABCDEF", 20),
        4 => from(rng, "aZ_9.()é- ", 10),
        5 => from(rng, "+- ", 3) + &from(rng, "0179.xinfaE", 6),
        6 => {
            let q = *rng.pick(&["\"", "'"]);
            let q2 = *rng.pick(&[q, q, q, "", "'", "\""]);
            format!("{}{}{}", q, from(rng, "ab\\\"'n0x7\n\r\0\té/*", 8), q2)
        }
        7 => (0..rng.range(1, 3)).map(|_| soup_token(rng)).collect::<Vec<_>>().join(rng.pick(&[" ", ""])),
        _ => gen::str_token(rng, 10).0,
    }
}

/// A text that is valid but for what is put in one or two places of it.
pub fn holes(rng: &mut Rng) -> Vec<String> {
    const T: &[&str] = &[
        "@", "message M { int32 a = 1 [o = @]; }", "message M { int32 a = @; }", "message M { @ a = 1; } message N {}",
        "message M { int32 @ = 1; }", "message M { int32 a = 1 [@ = 1]; }", "message M { int32 a = 1 [@]; }", "message M { @ int32 a = 1; }",
        "message M { oneof o { int32 a = 1 [o = @]; } }", "message M { oneof o { int32 a = @; } }", "message M { oneof o { @ a = 1; } }",
        "message M { oneof o { @ } }", "message M { oneof @ { } }", "message M { oneof o { option o = @; } }", "message M { option o = @; }",
        "message M { option @ = 1; }", "message M { reserved @; }", "message M { reserved 1 to @; }", "message M { reserved 1, @; }",
        "message M { reserved \"a\", @; }", "message @ { }", "message M { @ }", "message M { } @", "message M @", "enum E { @ }",
        "enum E { A = @; }", "enum E { @ = 0; }", "enum E { A = 0 [o = @]; }", "enum E { A = 0 [@]; }", "enum E { option o = @; }",
        "enum E { reserved @; }", "enum E { reserved @ to 5; }", "enum @ { A = 0; }", "service S { @ } message M {}", "service @ { }",
        "service S { option o = @; }", "message M {} service S { rpc R(@) returns (M); }", "message M {} service S { rpc R(M) returns (@); }",
        "message M {} service S { rpc @(M) returns (M); }", "message M {} service S { rpc R(M) returns (M) { @ } }",
        "message M {} service S { rpc R(M) returns (M) { option o = @; } }", "message M {} service S { rpc R(@ M) returns (@ M); }",
        "import @;", "import public @;", "package @; message M { M m = 1; }", "option o = @;", "option @ = 1;", "option (a.@).b = 1;",
        "message M { map<string, int32> @ }", "message M { map<@, int32> m = 1; }", "message M { message N { @ } } message O { M.N a = 1; }",
    ];
    let t = rng.pick(T).to_string();
    let (a, b) = (filler(rng), filler(rng));
    let t = t.replacen('@', &a, 1).replace('@', &b);
    vec![match rng.below(20) {
        0 => format!("{} {}", a, t),
        1 => format!("syntax = {};{}", a, t),
        _ => format!("syntax = \"proto3\";{}", t),
    }]
}

/// An option with the given value, somewhere.
fn option_at(rng: &mut Rng, v: &str) -> String {
    const T: &[&str] = &[
        "message M { int32 a = 1 [o = @]; }", "message M { oneof x { int32 a = 1 [o = @]; } }", "message M { oneof x { option o = @; int32 a = 1; } }",
        "message M { option o = @; }", "enum E { option o = @; A = 0; }", "enum E { A = 0 [o = @]; }", "service S { option o = @; }",
        "message M { message N { repeated int32 a = 1 [packed = @]; } }", "option o = @;",
        "message M {} service S { rpc R(.M) returns (.M) { option o = @; } }",
    ];
    let t = *rng.pick(T);
    // names are replaced by some callers
    format!("syntax = \"proto3\";{}", t.replace("(.M)", "(M)").replace("{}", "{ }").replace("(M)", "(.A)").replace("message M { } service", "message A { } service").replace('@', v))
}

/// Long, deep and wide texts.
fn extreme(rng: &mut Rng) -> Vec<String> {
    let h = "syntax = \"proto3\";\n";
    let n = 1 << rng.range(2, 11);
    let deep = n.min(200);
    let t = match rng.below(16) {
        0 => format!("{}{}{}", h, "message M {".repeat(deep), "}".repeat(if rng.bool() { deep } else { deep / 2 })),
        1 => format!("{}{}", h, "message M { oneof o {".repeat(deep)),
        2 => format!("{}message M {{ {} }}", h, (1..=n).map(|i| format!("int32 f{} = {};", i, i)).collect::<String>()),
        3 => format!("{}message M {{ {} }}", h, "int32 f = 1;".repeat(n)),
        4 => format!("{}enum E {{ {} }}", h, (0..n).map(|i| format!("V{} = {};", i, i as i64 - 5)).collect::<String>()),
        5 => {
            let v = match rng.below(5) {
                0 => format!("\"{}\"", "\\x41\\101x".repeat(n)),
                1 => format!("'{}'", "long é ".repeat(n * 4)),
                2 => format!("{}{}", rng.pick(&["", "-", "0x", "0"]), "7".repeat(n)),
                3 => format!("{}.{}e{}", "1".repeat(n), "2".repeat(n), "3".repeat(n % 400 + 1)),
                _ => format!("{}b", "a.".repeat(n)),
            };
            option_at(rng, &v)
        }
        6 => {
            let o = vec!["a = b"; n].join(",");
            format!("{}enum E {{ A = 0 [{}]; }} message M {{ oneof o {{ E e = 1 [{}]; }} }}", h, o, o)
        }
        7 => {
            // a lot of small things
            let k = rng.range(1, 4);
            (0..n / k).map(|i| option_at(rng, "1").replace("syntax = \"proto3\";", "").replace(" M ", &format!(" M{} ", i)).replace(" E ", &format!(" E{} ", i)).replace(" S ", &format!(" S{} ", i))).fold(h.to_string(), |a, b| a + &b)
        }
        8 => format!("{}message M {{ {}T f = 1; }}", h, "a.".repeat(n)),
        9 => format!("{}message M {{ int32 f = 1 [{}]; }}", h, vec!["a = b"; n].join(",")),
        10 => format!("{}{}", h, "/*".repeat(n)),
        11 => format!("{}// {}", h, "é".repeat(n)),
        12 => format!("{}option {} = 1;", h, "(".repeat(n)),
        13 => format!("{}service S {{ {} }} message M {{}}", h, "rpc a(M) returns (stream M);".repeat(n)),
        14 => {
            // chains of references through scopes
            let mut t = h.to_string();
            for i in 0..deep {
                t.push_str(&format!("message M{} {{ M{} f = 1; ", i, (i * 7) % deep));
            }
            t.push_str(&"}".repeat(deep));
            t
        }
        _ => return (0..n).map(|i| format!("{}package p{}; message M {{}}", h, i % 50)).collect(),
    };
    vec![t]
}

// --------------------------------------------------------------------------------------- C12

pub fn cfg_for(cx: &mut Cx) -> gen::Cfg {
    let mut cfg = gen::Cfg::text();
    if cx.rng.one_in(12) {
        cfg.types = 80;
        cfg.files = 12;
        cfg.depth = 12;
    }
    if cx.rng.one_in(4) {
        cfg.names = gen::pool(&mut cx.rng);
    }
    cfg.vast = vast(cx);
    cfg
}

/// How often a case looks at a schema with a lot of something.
pub fn vast(cx: &mut Cx) -> bool {
    let v = !cfg!(miri) && cx.rng.one_in(if cx.tier == Tier::Thorough { 100 } else { 50 });
    if v {
        cx.count("schemas of unusual size");
    }
    v
}

fn negatives(rng: &mut Rng, s: &Schema) -> Vec<String> {
    let mut out: Vec<String> = vec!["".into(), ".".into(), "NoSuchType".into(), "int32".into()];
    for n in all_names(s) {
        out.push(format!(".{}", n));
        out.push(format!("{}x", n));
        out.push(format!("{}.x", n));
        out.push(format!("{}.", n));
        out.push(format!("{} ", n));
        out.push(n[..n.len() - 1].to_string());
        out.push(n.to_uppercase());
        out.push(n.to_lowercase());
        if let Some(i) = n.find('.') {
            out.push(n[i + 1..].to_string());
        }
        if let Some(i) = n.rfind('.') {
            out.push(n[..i].to_string());
            out.push(n[i + 1..].to_string());
            // the name of one type in the scope of another
            let o = &rng.pick(&s.types).full;
            out.push(format!("{}.{}", o, &n[i + 1..]));
        }
    }
    for t in &s.types {
        match &t.kind {
            Kind::Msg(m) => {
                out.extend(m.oneofs.iter().map(|o| format!("{}.{}", t.full, o.name)));
                out.extend(m.fields.iter().map(|o| format!("{}.{}", t.full, o.name)));
            }
            Kind::Enum(e) => {
                out.extend(e.values.iter().map(|v| format!("{}.{}", t.full, v.name)));
                out.extend(e.values.iter().map(|v| dot(parents(&t.full), &v.name)));
            }
        }
    }
    out
}

fn c12_lookups(cx: &mut Cx, c: &mut Context, s: &Schema, texts: &[String]) -> R {
    let types: BTreeSet<&String> = s.types.iter().map(|t| &t.full).collect();
    let services: BTreeSet<&String> = s.services.iter().map(|t| &t.full).collect();
    let neg = negatives(&mut cx.rng, s);
    for n in neg.iter().chain(services.iter().copied()) {
        if !types.contains(n) {
            ensure!(c.get_type(n).is_none(), "get_type finds `{}`, which is not declared\n{}", n, show(texts));
            ensure!(c.get_message(n).is_none(), "get_message finds `{}`, which is not declared\n{}", n, show(texts));
            cx.count("names looked up that are not declared");
        }
    }
    for n in neg.iter().chain(types.iter().copied()) {
        if !services.contains(n) {
            ensure!(c.get_service(n).is_none(), "get_service finds `{}`, which is not declared\n{}", n, show(texts));
        }
    }
    for t in s.messages() {
        let m = s.msg(t);
        let info = match c.get_message(&s.types[t].full) {
            Some(i) => i,
            None => continue,
        };
        let nums: BTreeSet<u64> = m.fields.iter().map(|f| f.number).collect();
        for n in &nums {
            for k in [n.wrapping_sub(1), n + 1, n | 1 << 32, n & 0xffff, n & 0x1fff_ffff, n << 3, 0] {
                ensure!(
                    nums.contains(&k) || info.get_field(k).is_none(),
                    "{} has a field {}, which is not declared\n{}",
                    info.full_name,
                    k,
                    show(texts)
                );
            }
        }
        for f in &m.fields {
            for n in [format!("{}x", f.name), f.name[1..].to_string(), f.name.to_uppercase(), format!(" {}", f.name)] {
                ensure!(
                    m.fields.iter().any(|f| f.name == n) || info.get_field_by_name(&n).is_none(),
                    "{} has a field {}, which is not declared\n{}",
                    info.full_name,
                    n,
                    show(texts)
                );
            }
        }
    }
    // Top-level items are in the package of their file.
    let firsts = s.packages();
    let mut refs = vec![];
    for (p, f) in &firsts {
        let r = call("insert_package", || c.insert_package(Package::new(p.clone())))?;
        match r {
            Err(r) => refs.push((*f, r)),
            Ok(_) => return Err(Fail(format!("package {:?} is not in the context\n{}", p, show(texts)))),
        }
    }
    for (f, r) in &refs {
        for t in &s.types {
            if t.parent == Parent::File(*f) {
                let p = c.get_type(&t.full).map(|t| t.parent());
                ensure!(
                    p == Some(TypeParent::Package(*r)),
                    "{} is in package {:?}, not {:?}\n{}",
                    t.full,
                    p,
                    r,
                    show(texts)
                );
                cx.count("package links checked");
            }
        }
        for v in &s.services {
            if v.file == *f {
                let p = c.get_service(&v.full).map(|t| t.parent);
                ensure!(p == Some(*r), "{} is in package {:?}, not {:?}\n{}", v.full, p, r, show(texts));
                cx.count("package links checked");
            }
        }
    }
    Ok(())
}

fn count_decls(cx: &mut Cx, s: &Schema) {
    for t in &s.types {
        match &t.kind {
            Kind::Msg(m) => {
                cx.count("messages");
                cx.add("fields", m.fields.len() as u64);
                cx.add("oneofs", m.oneofs.len() as u64);
            }
            Kind::Enum(e) => {
                cx.count("enums");
                cx.add("enum values", e.values.len() as u64);
            }
        }
    }
    for v in &s.services {
        cx.count("services");
        cx.add("rpcs", v.rpcs.len() as u64);
    }
    cx.add("files", s.files.len() as u64);
}

pub fn c12(cx: &mut Cx) -> R {
    let cfg = cfg_for(cx);
    let s = gen::generate(&mut cx.rng, &cfg);
    let layout = if cx.rng.one_in(4) { Layout::Plain } else { Layout::Wild };
    let texts = render::render(&s, &mut cx.rng, layout);
    let mut c = parse(&texts)?;
    // What options say is for C13; here they only must not hide declarations.
    let strip = |s: Snap| -> Snap { s };
    let exp = strip(snap_model(&s));
    if let Some(d) = diff(&exp, &snap_ctx(&c, &s)) {
        return Err(Fail(format!("{}\n{}", d, show(&texts))));
    }
    walk(&c, &all_names(&s)).map_err(|e| Fail(format!("{}\n{}", e, show(&texts))))?;
    c12_lookups(cx, &mut c, &s, &texts)?;
    count_decls(cx, &s);
    cx.eval(&id(&texts), true);
    cx.sample(|| show(&texts));
    for t in &texts {
        if let Verdict::Invalid(why, at) = grammar::judge(t) {
            cx.count("generated files that the recognizer refuses");
            cx.note(|| format!("{} at {}: {}", why, at, t));
        }
    }
    for _ in 0..4 {
        near_grammar(cx, &s, false)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C13

pub fn c13(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.opts = gen::Opts::Wild;
    cfg.huge_numbers = cx.rng.one_in(4);
    cfg.files = 2;
    cfg.types = 8;
    cfg.vast = vast(cx);
    cfg.wide_values = cx.rng.one_in(5);
    let s = gen::generate(&mut cx.rng, &cfg);
    let texts = render::render(&s, &mut cx.rng, Layout::Wild);
    let c = match parse(&texts) {
        // Protobuf does not allow such enum values, so refusing them is right too.
        Err(_) if cfg.wide_values => return Err(Fail(SKIP.into())),
        c => c?,
    };
    if let Some(d) = diff(&snap_model(&s), &snap_ctx(&c, &s)) {
        return Err(Fail(format!("{}\n{}", d, show(&texts))));
    }
    count_decls(cx, &s);
    let mut n = 0;
    for t in &s.types {
        match &t.kind {
            Kind::Msg(m) => {
                n += m.fields.iter().map(|f| f.opts.len()).sum::<usize>() + m.oneofs.iter().map(|f| f.opts.len()).sum::<usize>()
            }
            Kind::Enum(e) => n += e.values.iter().map(|f| f.opts.len()).sum::<usize>(),
        }
    }
    n += s.services.iter().map(|v| v.opts.len() + v.rpcs.iter().map(|r| r.opts.len()).sum::<usize>()).sum::<usize>();
    cx.add("options", n as u64);
    cx.eval(&id(&texts), true);
    cx.sample(|| show(&texts));
    for _ in 0..12 {
        c13_one(cx)?;
    }
    Ok(())
}

fn big_int(rng: &mut Rng) -> i128 {
    let edges: [i128; 16] = [
        0,
        1,
        7,
        8,
        1 << 29,
        1 << 31,
        (1 << 31) - 1,
        1 << 32,
        1 << 53,
        (1 << 53) + 1,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        u64::MAX as i128,
        u64::MAX as i128 + 1,
        1 << 65,
        1 << 100,
    ];
    let v = match rng.below(3) {
        0 => *rng.pick(&edges) + rng.below(3) as i128 - 1,
        1 => rng.weird() as i128,
        _ => ((rng.next() as u128) << 64 | rng.next() as u128) as i128 >> rng.range(1, 120),
    };
    if rng.one_in(3) {
        -v.abs()
    } else {
        v.abs()
    }
}

/// One literal in one place: it has to be exact or refused.
fn c13_one(cx: &mut Cx) -> R {
    let rng = &mut cx.rng;
    let kind = rng.below(4);
    let v = big_int(rng);
    let sign = match v {
        v if v < 0 => rng.pick(&["-", "- ", "-\n", "-/**/"]).to_string(),
        _ if kind != 0 && rng.one_in(4) => rng.pick(&["+", "+ "]).to_string(),
        _ => String::new(),
    };
    let lit = format!("{}{}", sign, gen::int_token(rng, v.unsigned_abs(), true));
    let h = "syntax = \"proto3\"; ";
    let (text, fits) = match kind {
        0 => (
            format!("{}message M {{ int32 before = 1000001; int32 f = {}; int32 after = 1000002; }}", h, lit),
            v > 0 && v < 1 << 29 && v != 1000001 && v != 1000002 && !(19000..20000).contains(&v),
        ),
        1 => (
            format!("{}enum E {{ ZERO = 0; V = {}; W = 77777; }}", h, lit),
            v != 0 && v != 77777 && v >= i32::MIN as i128 && v <= i32::MAX as i128,
        ),
        2 => (
            format!("{}message M {{ int32 f = 1 [a = 1, o = {}, b = 2]; }}", h, lit),
            v >= i64::MIN as i128 && v <= i64::MAX as i128,
        ),
        _ => {
            // an octal escape, possibly beyond a byte
            let v = rng.below(0o1000);
            let q = *rng.pick(&['"', '\'']);
            let text = format!("{}message M {{ int32 f = 1 [a = 1, o = {}x\\{:03o}7{}, b = 2]; }}", h, q, v, q);
            let r = call("parse", || Context::parse(&[&text])).map_err(|f| Fail(format!("{}: {}", f.0, text)))?;
            cx.eval(text.as_bytes(), true);
            match r {
                Err(ParseError::SyntaxError { .. }) if v > 255 => cx.count("literals refused"),
                Err(e) => return Err(Fail(format!("valid text does not parse: {}\n{}", e, text))),
                Ok(c) => {
                    let got = c.get_message("M").and_then(|m| m.get_field(1)).map(|f| &f.options[..]);
                    let exact = matches!(got, Some([_, ProtoOption { value: Constant::String(b), .. }, _]) if v <= 255 && b[..] == [b'x', v as u8, b'7']);
                    ensure!(exact, "the escape is not reported exactly: {:?}\n{}", got, text);
                    cx.count("literals exact");
                }
            }
            return Ok(());
        }
    };
    let r = call("parse", || Context::parse(&[&text])).map_err(|f| Fail(format!("{}: {}", f.0, text)))?;
    cx.eval(text.as_bytes(), true);
    match r {
        Err(e) => {
            ensure!(!fits, "valid text does not parse: {}\n{}", e, text);
            ensure!(
                matches!(e, ParseError::SyntaxError { .. }),
                "a literal out of range fails with another error: {:?}\n{}",
                e,
                text
            );
            cx.count("literals refused");
        }
        Ok(c) => {
            let exact = match kind {
                0 => c.get_message("M").map_or(false, |m| {
                    m.get_field_by_name("f").map(|f| f.number as i128) == Some(v)
                        && (v == 1000001 || v == 1000002 || m.iter_fields().count() == 3)
                }),
                1 => matches!(c.get_type("E"), Some(TypeInfo::Enum(e)) if v >= i64::MIN as i128 && v <= i64::MAX as i128
                    && e.get_field_by_value(v as i64).map_or(false, |f| f.value as i128 == v && (f.name == "V" || v == 0 || v == 77777))),
                _ => matches!(c.get_message("M").and_then(|m| m.get_field(1)).map(|f| &f.options[..]),
                    Some([a, ProtoOption { value: Constant::Integer(i), name }, b]) if *i as i128 == v && name == "o" && a.name == "a" && b.name == "b"),
            };
            ensure!(exact, "{} is not reported exactly: {:?}\n{}", lit, c, text);
            cx.count("literals exact");
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C14

pub fn has_nan(s: &Schema) -> bool {
    let o = |o: &Vec<Opt>| o.iter().any(|o| matches!(o.value, Const::Float(b) if f64::from_bits(b).is_nan()));
    s.types.iter().any(|t| match &t.kind {
        Kind::Msg(m) => m.fields.iter().any(|f| o(&f.opts)) || m.oneofs.iter().any(|f| o(&f.opts)),
        Kind::Enum(e) => e.values.iter().any(|f| o(&f.opts)),
    }) || s.services.iter().any(|v| o(&v.opts) || v.rpcs.iter().any(|r| o(&r.opts)))
}

fn bodies(s: &mut Schema, f: &mut dyn FnMut(&mut Vec<Item>, bool, bool)) {
    for t in &mut s.types {
        match &mut t.kind {
            Kind::Msg(m) => {
                f(&mut m.body, true, false);
                m.oneof_bodies.iter_mut().for_each(|b| f(b, false, false));
            }
            Kind::Enum(e) => f(&mut e.body, true, true),
        }
    }
    for v in &mut s.services {
        f(&mut v.body, false, false);
        for r in &mut v.rpcs {
            if let Some(b) = &mut r.body {
                f(b, false, false);
            }
        }
    }
    for x in &mut s.files {
        f(&mut x.items, false, false);
    }
}

/// Other empty, reserved and import statements.
fn redecorate(rng: &mut Rng, cfg: &gen::Cfg, s: &mut Schema) {
    bodies(s, &mut |b, can_reserve, is_enum| {
        b.retain(|i| !matches!(i, Item::Empty | Item::Reserved(_) | Item::Import(_)));
        gen::extras(rng, cfg, b, can_reserve, is_enum);
    });
    for f in &mut s.files {
        if rng.one_in(3) {
            let at = rng.below(f.items.len() + 1);
            f.items.insert(at, Item::Import(vec!["import".into(), "\"other.proto\"".into(), ";".into()]));
        }
        f.package_at = rng.below(f.items.len() + 1);
    }
    // an rpc without options ends with `;` or an empty body
    for v in &mut s.services {
        for r in &mut v.rpcs {
            if r.opts.is_empty() {
                r.body = if rng.bool() { None } else { Some(vec![Item::Empty; rng.below(3)]) };
            }
        }
    }
}

/// Another order of everything but the options of an item.
pub fn permute(rng: &mut Rng, s: &mut Schema) {
    bodies(s, &mut |b, _, _| {
        rng.shuffle(b);
        let mut at: Vec<usize> = vec![];
        let mut opts: Vec<usize> = vec![];
        for (i, x) in b.iter().enumerate() {
            if let Item::Opt(o) = x {
                at.push(i);
                opts.push(*o);
            }
        }
        opts.sort_unstable();
        for (i, o) in at.into_iter().zip(opts) {
            b[i] = Item::Opt(o);
        }
    });
}

pub fn c14(cx: &mut Cx) -> R {
    let mut cfg = cfg_for(cx);
    cfg.opts = if cx.rng.bool() { gen::Opts::Wild } else { gen::Opts::Simple };
    cfg.wide_values = cx.rng.one_in(5);
    let mut s = gen::generate(&mut cx.rng, &cfg);
    let nan = has_nan(&s);
    let t1 = render::render(&s, &mut cx.rng, Layout::Plain);
    let c1 = match guard(|| Context::parse(&t1)) {
        Ok(Ok(c)) => c,
        // for C11 and C12 to judge; nothing to compare with
        _ => return Err(Fail(SKIP.into())),
    };
    let snap1 = snap_ctx(&c1, &s);
    cx.eval(&id(&t1), true);
    for _ in 0..2 {
        redecorate(&mut cx.rng, &cfg, &mut s);
        let t2 = render::render(&s, &mut cx.rng, Layout::Wild);
        let c2 = parse(&t2).map_err(|f| Fail(format!("only in another layout: {}", f.0)))?;
        let same = if nan { format!("{:?}", snap1) == format!("{:?}", snap_ctx(&c2, &s)) } else { c1 == c2 };
        if !same {
            let d = diff(&snap1, &snap_ctx(&c2, &s));
            return Err(Fail(format!(
                "another layout gives another context: {}\n{}\n===== and\n{}",
                d.unwrap_or_default(),
                show(&t1),
                show(&t2)
            )));
        }
        cx.count("layouts compared");
        cx.eval(&id(&t2), true);
    }
    for _ in 0..2 {
        permute(&mut cx.rng, &mut s);
        let mut t2 = render::render(&s, &mut cx.rng, Layout::Wild);
        cx.rng.shuffle(&mut t2);
        let c2 = parse(&t2).map_err(|f| Fail(format!("only in another order: {}", f.0)))?;
        let snap2 = snap_ctx(&c2, &s);
        if let Some(d) = diff(&snap1, &snap2) {
            return Err(Fail(format!("another order gives another context: {}\n{}\n===== and\n{}", d, show(&t1), show(&t2))));
        }
        cx.count("orders compared");
        cx.eval(&id(&t2), true);
    }
    cx.sample(|| show(&t1));
    Ok(())
}

// --------------------------------------------------------------------------------------- C15

fn parse_error(texts: &[String]) -> R<Option<ParseError>> {
    Ok(call("parse", || Context::parse(texts)).map_err(|f| Fail(format!("{}\n{}", f.0, show(texts))))?.err())
}

/// A schema in which few names are declared in many scopes.
fn pool_schema(cx: &mut Cx) -> Schema {
    let mut cfg = gen::Cfg::text();
    cfg.names = gen::pool(&mut cx.rng);
    cfg.opts = gen::Opts::None;
    cfg.lits = false;
    cfg.types = 24;
    cfg.files = 5;
    cfg.depth = 5;
    cfg.fields = 2;
    gen::generate(&mut cx.rng, &cfg)
}

pub fn c15(cx: &mut Cx) -> R {
    let mut s = pool_schema(cx);
    let sy = s.symbols();
    let mut shadowed = 0;
    // every spelling of every type, from some scopes
    let mut ms = s.messages();
    cx.rng.shuffle(&mut ms);
    for &t in ms.iter().take(4) {
        let scope = s.types[t].full.clone();
        let mut fields = vec![];
        for x in 0..s.types.len() {
            let full = s.types[x].full.clone();
            for sp in gen::spellings(&sy, &full, &scope, sy.map[&full], false) {
                // how many scopes declare the name
                let mut at = scope.as_str();
                let mut hits = 0;
                loop {
                    hits += matches!(sy.map.get(&dot(at, &sp)), Some(Sym::Msg(_)) | Some(Sym::Enum(_))) as usize;
                    if at.is_empty() {
                        break;
                    }
                    at = parents(at);
                }
                shadowed += (hits > 1) as u64;
                fields.push((x, sp));
            }
        }
        cx.rng.shuffle(&mut fields);
        let m = s.msg_mut(t);
        m.body.retain(|i| !matches!(i, Item::Field(_) | Item::Oneof(_)));
        m.fields.clear();
        m.oneofs.clear();
        m.oneof_bodies.clear();
        for (i, (x, sp)) in fields.into_iter().take(80).enumerate() {
            let n = i as u64 + 1;
            m.fields.push(Field {
                name: format!("field{}", n),
                number: n,
                ty: Ty::T(x),
                mult: *cx.rng.pick(&[Mult::Single, Mult::Repeated, Mult::Optional]),
                opts: vec![],
                oneof: None,
                spelling: sp,
                num_lit: n.to_string(),
            });
            m.body.push(Item::Field(i));
        }
        cx.rng.shuffle(&mut m.body);
    }
    for v in 0..s.services.len() {
        let scope = s.services[v].full.clone();
        let mut all = vec![];
        for x in s.messages() {
            let full = s.types[x].full.clone();
            for sp in gen::spellings(&sy, &full, &scope, sy.map[&full], true) {
                all.push((x, sp));
            }
        }
        cx.rng.shuffle(&mut all);
        let svc = &mut s.services[v];
        svc.body.retain(|i| !matches!(i, Item::Rpc(_)));
        svc.rpcs.clear();
        for (i, p) in all.chunks(2).take(40).enumerate() {
            let (a, b) = (&p[0], p.last().unwrap());
            svc.rpcs.push(Rpc {
                name: format!("rpc{}", i),
                input: a.0,
                input_spelling: a.1.clone(),
                input_stream: false,
                output: b.0,
                output_spelling: b.1.clone(),
                output_stream: cx.rng.bool(),
                opts: vec![],
                body: None,
            });
            svc.body.push(Item::Rpc(i));
        }
    }
    cx.rng.shuffle(&mut s.files[0].items);
    let texts = render::render(&s, &mut cx.rng, Layout::Plain);
    let c = match guard(|| Context::parse(&texts)) {
        Ok(Ok(c)) => c,
        Ok(Err(e @ ParseError::SyntaxError { .. })) => {
            // for C12 to judge
            cx.note(|| e.to_string());
            return Err(Fail(SKIP.into()));
        }
        Ok(Err(e)) => return Err(Fail(format!("names that resolve are refused: {}\n{}", e, show(&texts)))),
        Err(_) => return Err(Fail(SKIP.into())),
    };
    let mut refs = 0u64;
    let target = |t: Tid| s.types[t].full.as_str();
    for t in s.messages() {
        let info = match c.get_message(&s.types[t].full) {
            Some(i) => i,
            None => return Err(Fail(SKIP.into())),
        };
        for f in &s.msg(t).fields {
            if let Ty::T(x) = f.ty {
                let got = match info.get_field(f.number).map(|f| &f.field_type) {
                    Some(ValueType::Message(r)) => guard(|| &c.resolve_message(*r).full_name[..]).unwrap_or("a dangling reference"),
                    Some(ValueType::Enum(r)) => guard(|| &c.resolve_enum(*r).full_name[..]).unwrap_or("a dangling reference"),
                    Some(_) => "a built-in type",
                    None => return Err(Fail(SKIP.into())),
                };
                ensure!(
                    got == target(x),
                    "`{}` in {} resolves to {} instead of {}\n{}",
                    f.spelling,
                    info.full_name,
                    got,
                    target(x),
                    show(&texts)
                );
                refs += 1;
            }
        }
    }
    for v in &s.services {
        let info = match c.get_service(&v.full) {
            Some(i) => i,
            None => return Err(Fail(SKIP.into())),
        };
        for r in &v.rpcs {
            let got = match info.rpc_by_name(&r.name) {
                Some(r) => r,
                None => return Err(Fail(SKIP.into())),
            };
            for (got, x, sp) in [(&got.input, r.input, &r.input_spelling), (&got.output, r.output, &r.output_spelling)] {
                let got = guard(|| &c.resolve_message(got.message).full_name[..]).unwrap_or("a dangling reference");
                ensure!(got == target(x), "`{}` in {} resolves to {} instead of {}\n{}", sp, v.full, got, target(x), show(&texts));
                refs += 1;
            }
        }
    }
    cx.add("references resolved", refs);
    cx.add("references with several candidates", shadowed);
    cx.eval(&id(&texts), refs > 4);
    cx.sample(|| show(&texts));
    // A leading dot means exactly the named type.
    for _ in 0..4 {
        let t = *cx.rng.pick(&s.messages());
        let scope = s.types[t].full.clone();
        let x = cx.rng.pick(&s.types).full.clone();
        let tail = match x.find('.') {
            Some(i) => x[i + 1..].to_string(),
            None => continue,
        };
        if sy.map.contains_key(&tail) || gen::KEYWORDS.contains(&tail.split('.').next().unwrap()) {
            continue;
        }
        let mut s2 = s.clone();
        let m = s2.msg_mut(t);
        let i = m.fields.len();
        m.fields.push(Field {
            name: "absolute".into(),
            number: 5000,
            ty: Ty::S(K::Int32),
            mult: Mult::Single,
            opts: vec![],
            oneof: None,
            spelling: format!(".{}", tail),
            num_lit: "5000".into(),
        });
        m.body.push(Item::Field(i));
        let texts = render::render(&s2, &mut cx.rng, Layout::Plain);
        let e = parse_error(&texts)?;
        ensure!(
            matches!(e, Some(ParseError::TypeNotFound { .. })),
            "`.{}` in {} is not declared, but parsing gives {:?}\n{}",
            tail,
            scope,
            e,
            show(&texts)
        );
        cx.count("absolute names refused");
        cx.eval(&id(&texts), true);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C16

pub fn c16(cx: &mut Cx) -> R {
    // valid schemas
    let mut cfg = cfg_for(cx);
    cfg.huge_numbers = cx.rng.one_in(3);
    cfg.wide_values = cx.rng.one_in(4);
    let s = gen::generate(&mut cx.rng, &cfg);
    let texts = render::render(&s, &mut cx.rng, Layout::Plain);
    c16_check(cx, &texts, &all_names(&s))?;
    // and anything else that parses: references at random, names and numbers used twice
    for _ in 0..10 {
        let mut s = if cx.rng.bool() {
            pool_schema(cx)
        } else {
            gen::generate(&mut cx.rng, &cfg)
        };
        let fulls: Vec<String> = s.types.iter().map(|t| t.full.clone()).collect();
        let rng = &mut cx.rng;
        for t in s.messages() {
            let scope = s.types[t].full.clone();
            let m = s.msg_mut(t);
            let n = m.fields.len();
            for i in 0..n {
                if rng.one_in(4) {
                    let o = rng.below(n);
                    m.fields[i].num_lit = m.fields[o].num_lit.clone();
                }
                if rng.one_in(4) {
                    m.fields[i].name = m.fields[rng.below(n)].name.clone();
                }
                if rng.one_in(6) {
                    // any spelling that some scope satisfies
                    let full = rng.pick(&fulls);
                    let cut = full.char_indices().filter(|(_, c)| *c == '.').map(|(i, _)| i + 1).chain([0]).collect::<Vec<_>>();
                    m.fields[i].spelling = full[*rng.pick(&cut)..].to_string();
                    if scope.is_empty() {
                        m.fields[i].spelling.insert(0, '.');
                    }
                }
            }
            let n = m.oneofs.len();
            for i in 0..n {
                if rng.one_in(4) {
                    m.oneofs[i].name = m.oneofs[rng.below(n)].name.clone();
                }
            }
        }
        for v in &mut s.services {
            let n = v.rpcs.len();
            for i in 0..n {
                if rng.one_in(3) {
                    v.rpcs[i].name = v.rpcs[rng.below(n)].name.clone();
                }
            }
        }
        let texts = render::render(&s, &mut cx.rng, Layout::Plain);
        c16_check(cx, &texts, &all_names(&s))?;
        // what random statements declare
        let mut t = vec![];
        for _ in 0..cx.rng.range(1, 3) {
            let mut x = "syntax = \"proto3\";\n".to_string();
            if cx.rng.bool() {
                x.push_str(cx.rng.pick(&["package a;\n", "package A;\n", "package a.b;\n", "package A.B;\n"]));
            }
            for _ in 0..cx.rng.range(1, 5) {
                let st = statement(&mut cx.rng);
                x.push_str(&st);
                x.push('\n');
            }
            t.push(x);
        }
        let names = ["A", "B", "C", "a", "b", "option", "message", "A1", "reserved", "stream", "inf", "true"];
        let mut all = vec![];
        for p in ["", "a", "A", "a.b", "A.B"] {
            for n in names {
                all.push(dot(p, n));
                for k in names {
                    all.push(format!("{}.{}", dot(p, n), k));
                }
            }
        }
        c16_check(cx, &t, &all)?;
        let t = holes(&mut cx.rng);
        c16_check(cx, &t, &["M".into(), "N".into(), "O".into(), "M.N".into(), "E".into(), "S".into(), "m.M".into(), "A".into(), "a".into()])?;
    }
    Ok(())
}

fn c16_check(cx: &mut Cx, texts: &[String], names: &[String]) -> R {
    let c = match guard(|| Context::parse(texts)) {
        Ok(Ok(c)) => c,
        _ => {
            cx.count("texts that do not parse");
            return Ok(());
        }
    };
    let w = call("looking around", || walk(&c, names))
        .map_err(|f| Fail(format!("{}\n{}", f.0, show(texts))))?
        .map_err(|e| Fail(format!("{}\n{}", e, show(texts))))?;
    let near = call("looking around", || near_misses(&c, names, &mut cx.rng))
        .map_err(|f| Fail(format!("{}\n{}", f.0, show(texts))))?
        .map_err(|e| Fail(format!("{}\n{}", e, show(texts))))?;
    cx.add("lookups of names that are almost right", near);
    cx.add("types walked", w.types);
    cx.add("fields walked", w.fields);
    cx.add("references followed", w.refs);
    cx.add("rpcs walked", w.rpcs);
    cx.eval(&id(texts), w.refs > 0);
    cx.sample(|| show(texts));
    Ok(())
}

/// Names that differ a little from the given one.
fn almost(n: &str) -> Vec<String> {
    let mut v = vec![
        format!(".{}", n),
        format!("{}.", n),
        format!("..{}", n),
        format!(" {}", n),
        format!("{} ", n),
        format!("{}\0", n),
        format!("{}x", n),
        format!("{}.{}", n, n),
        n.to_uppercase(),
        n.to_lowercase(),
        n.replace('_', ""),
        n.replace('.', "_"),
        n.replace('.', "::"),
        n.replace('.', "/"),
        n.replace('.', ". "),
        n.replace('.', ""),
    ];
    if let Some(c) = n.chars().next() {
        v.push(n[c.len_utf8()..].to_string());
        v.push(c.to_string() + n);
    }
    if let Some(c) = n.chars().last() {
        v.push(n[..n.len() - c.len_utf8()].to_string());
    }
    if let Some(i) = n.rfind('.') {
        v.push(n[i..].to_string());
        v.push(n[i + 1..].to_string());
        v.push(n[..i].to_string());
    }
    if let Some(i) = n.find('.') {
        v.push(n[i..].to_string());
        v.push(n[i + 1..].to_string());
    }
    v
}

/// Whatever a lookup returns has to have exactly what was asked for.
fn near_misses(c: &Context, names: &[String], rng: &mut Rng) -> Result<u64, String> {
    let mut asked = 0;
    let few = names.len() > 60;
    for n in names {
        if few && !rng.one_in(names.len() / 30) {
            continue;
        }
        for q in almost(n) {
            asked += 3;
            if let Some(t) = c.get_type(&q) {
                if t.full_name() != q {
                    return Err(format!("get_type({:?}) returns {}", q, t.full_name()));
                }
            }
            if let Some(t) = c.get_message(&q) {
                if t.full_name != q {
                    return Err(format!("get_message({:?}) returns {}", q, t.full_name));
                }
            }
            if let Some(t) = c.get_service(&q) {
                if t.full_name != q {
                    return Err(format!("get_service({:?}) returns {}", q, t.full_name));
                }
            }
        }
        if let Some(m) = c.get_message(n) {
            let mut fs: Vec<(u64, String)> = m.iter_fields().map(|f| (f.number, f.name.clone())).collect();
            while fs.len() > 12 {
                let i = rng.below(fs.len());
                fs.swap_remove(i);
            }
            for (k, f) in fs {
                for q in almost(&f) {
                    asked += 1;
                    if let Some(g) = m.get_field_by_name(&q) {
                        if g.name != q {
                            return Err(format!("{}.get_field_by_name({:?}) returns {}", n, q, g.name));
                        }
                    }
                }
                for q in [
                    k.wrapping_add(1),
                    k.wrapping_sub(1),
                    k ^ 1 << rng.below(64),
                    k | 1 << 32,
                    k as u32 as u64,
                    k as u16 as u64,
                    k as u8 as u64,
                    k << 3,
                    k >> 3,
                    k.wrapping_neg(),
                    !k,
                    k ^ 1 << 63,
                    k & 0x1fff_ffff,
                ] {
                    asked += 1;
                    if let Some(g) = m.get_field(q) {
                        if g.number != q {
                            return Err(format!("{}.get_field({}) returns number {}", n, q, g.number));
                        }
                    }
                }
            }
        } else if let Some(TypeInfo::Enum(e)) = c.get_type(n) {
            for k in (-3i64..20).chain([0x7fff_ffff, 0x8000_0000, -0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 63]) {
                for q in [k, k | 1 << 32, k as i32 as i64, k as u32 as i64, k as u8 as i64, -k.max(-5), !k] {
                    asked += 1;
                    if let Some(g) = e.get_field_by_value(q) {
                        if g.value != q {
                            return Err(format!("{}.get_field_by_value({}) returns {}", n, q, g.value));
                        }
                    }
                }
            }
        }
        if let Some(s) = c.get_service(n) {
            for r in s.rpcs.iter().take(12) {
                for q in almost(&r.name) {
                    asked += 1;
                    if let Some(g) = s.rpc_by_name(&q) {
                        if g.name != q {
                            return Err(format!("{}.rpc_by_name({:?}) returns {}", n, q, g.name));
                        }
                    }
                }
            }
        }
    }
    Ok(asked)
}

// --------------------------------------------------------------------------------------- C17

fn simple(s: &mut Schema, t: Tid, spelling: String, oneof: bool, rng: &mut Rng) {
    let m = s.msg_mut(t);
    let i = m.fields.len();
    let f = Field {
        name: "injected".into(),
        number: 5000,
        ty: Ty::S(K::Int32),
        mult: if oneof { Mult::Single } else { *rng.pick(&[Mult::Single, Mult::Repeated, Mult::Optional]) },
        opts: vec![],
        oneof: None,
        spelling,
        num_lit: "5000".into(),
    };
    m.fields.push(f);
    if oneof && !m.oneofs.is_empty() {
        let o = rng.below(m.oneofs.len());
        m.fields[i].oneof = Some(o);
        let at = rng.below(m.oneof_bodies[o].len() + 1);
        m.oneof_bodies[o].insert(at, Item::Field(i));
    } else {
        let at = rng.below(m.body.len() + 1);
        m.body.insert(at, Item::Field(i));
    }
}

fn inject_rpc(s: &mut Schema, v: usize, spelling: &str, rng: &mut Rng) {
    let t = s.messages()[0];
    let good = format!(".{}", s.types[t].full);
    let svc = &mut s.services[v];
    let input = rng.bool();
    let i = svc.rpcs.len();
    svc.rpcs.push(Rpc {
        name: "injected".into(),
        input: t,
        input_spelling: if input { spelling.to_string() } else { good.clone() },
        input_stream: rng.bool(),
        output: t,
        output_spelling: if input { good } else { spelling.to_string() },
        output_stream: rng.bool(),
        opts: vec![],
        body: None,
    });
    let at = rng.below(svc.body.len() + 1);
    svc.body.insert(at, Item::Rpc(i));
}

fn same_name(a: &str, b: &str) -> bool {
    a.trim_start_matches('.') == b.trim_start_matches('.')
}

pub fn c17(cx: &mut Cx) -> R {
    let mut cfg = cfg_for(cx);
    if cx.rng.bool() {
        cfg.names = gen::pool(&mut cx.rng);
    }
    cfg.fields = 5;
    let s = gen::generate(&mut cx.rng, &cfg);
    let texts = render::render(&s, &mut cx.rng, Layout::Plain);
    match guard(|| Context::parse(&texts)) {
        Ok(Ok(_)) => {}
        _ => return Err(Fail(SKIP.into())),
    }
    for _ in 0..3 {
        c17_duplicate(cx, &s)?;
        c17_missing(cx, &s)?;
        c17_kind(cx, &s)?;
    }
    for _ in 0..10 {
        c17_syntax(cx, &s)?;
    }
    for _ in 0..10 {
        near_grammar(cx, &s, true)?;
    }
    Ok(())
}

fn c17_duplicate(cx: &mut Cx, s: &Schema) -> R {
    let mut s2 = s.clone();
    let rng = &mut cx.rng;
    // who is declared twice
    let all = s.types.len() + s.services.len();
    let i = rng.below(all);
    let (full, name, parent) = if i < s.types.len() {
        (s.types[i].full.clone(), s.types[i].name.clone(), s.types[i].parent)
    } else {
        let v = &s.services[i - s.types.len()];
        (v.full.clone(), v.name.clone(), Parent::File(v.file))
    };
    let scope = parents(&full).to_string();
    // where
    let mut how = "in the same scope";
    let mut file = None;
    let mut inner = None;
    match parent {
        Parent::Type(p) => inner = Some(p),
        Parent::File(f) => {
            file = Some(match rng.below(3) {
                0 => f,
                1 => {
                    // another file of the package, possibly a new one
                    let same: Vec<usize> = (0..s2.files.len()).filter(|x| *x != f && s2.files[*x].package == s2.files[f].package).collect();
                    how = "in another file";
                    if same.is_empty() {
                        s2.files.push(File {
                            package: s2.files[f].package.clone(),
                            ..Default::default()
                        });
                        s2.files.len() - 1
                    } else {
                        *rng.pick(&same)
                    }
                }
                _ if !scope.is_empty() => {
                    // nested messages named like the package; an error of its own kind
                    how = "inside messages named like the package";
                    let parts: Vec<String> = scope.split('.').map(|x| x.to_string()).collect();
                    if sy_conflict(s, &scope) {
                        return Ok(());
                    }
                    s2.files.push(File::default());
                    let f = s2.files.len() - 1;
                    let mut par = Parent::File(f);
                    let mut at = String::new();
                    for p in &parts {
                        at = dot(&at, p);
                        let id = s2.types.len();
                        s2.types.push(Type {
                            name: p.clone(),
                            full: at.clone(),
                            parent: par,
                            kind: Kind::Msg(Msg::default()),
                        });
                        match par {
                            Parent::File(f) => s2.files[f].items.push(Item::Type(id)),
                            Parent::Type(t) => s2.msg_mut(t).body.push(Item::Type(id)),
                        }
                        par = Parent::Type(id);
                    }
                    if let Parent::Type(t) = par {
                        inner = Some(t);
                    }
                    f
                }
                _ => f,
            });
            if inner.is_some() {
                file = None;
            }
        }
    }
    let kind = rng.below(if inner.is_some() { 2 } else { 3 });
    let item = if kind == 2 {
        let id = s2.services.len();
        s2.services.push(Service {
            name,
            full: full.clone(),
            file: file.unwrap(),
            rpcs: vec![],
            opts: vec![],
            body: vec![],
        });
        Item::Service(id)
    } else {
        let id = s2.types.len();
        s2.types.push(Type {
            name,
            full: full.clone(),
            parent: inner.map(Parent::Type).unwrap_or_else(|| Parent::File(file.unwrap())),
            kind: if kind == 0 {
                Kind::Msg(Msg::default())
            } else {
                Kind::Enum(Enum {
                    values: vec![EnumValue {
                        name: "INJECTED_VALUE".into(),
                        value: 0,
                        lit: vec!["0".into()],
                        opts: vec![],
                    }],
                    opts: vec![],
                    body: vec![Item::Value(0)],
                })
            },
        });
        Item::Type(id)
    };
    let body = match (inner, file) {
        (Some(t), _) => &mut s2.msg_mut(t).body,
        (None, Some(f)) => &mut s2.files[f].items,
        _ => unreachable!(),
    };
    let at = rng.below(body.len() + 1);
    body.insert(at, item);
    let mut texts = render::render(&s2, rng, Layout::Plain);
    rng.shuffle(&mut texts);
    let e = parse_error(&texts)?;
    ensure!(
        matches!(&e, Some(ParseError::DuplicateType { name }) if same_name(name, &full)),
        "{} is declared twice ({}), but parsing gives {:?}\n{}",
        full,
        how,
        e,
        show(&texts)
    );
    let d = e.unwrap().to_string();
    ensure!(d.contains(&full), "the message `{}` does not name {}", d, full);
    cx.count(&format!("duplicates {}", how));
    cx.eval(&id(&texts), true);
    Ok(())
}

/// Declaring messages along a package's name would be a conflict of its own.
fn sy_conflict(s: &Schema, scope: &str) -> bool {
    let mut at = String::new();
    for p in scope.split('.') {
        at = dot(&at, p);
        if s.types.iter().any(|t| t.full == at) || s.services.iter().any(|t| t.full == at) {
            return true;
        }
        let pre = format!("{}.", at);
        // members of the messages must not collide with other declarations either
        let _ = pre;
    }
    false
}

fn c17_missing(cx: &mut Cx, s: &Schema) -> R {
    let sy = s.symbols();
    let rng = &mut cx.rng;
    let mut s2 = s.clone();
    let rpc = !s.services.is_empty() && rng.one_in(3);
    let t = *rng.pick(&s.messages());
    let v = if rpc { rng.below(s.services.len()) } else { 0 };
    let scope = if rpc { s.services[v].full.clone() } else { s.types[t].full.clone() };
    // a name no scope declares, as close as possible to one that is declared
    let mut spelling = None;
    for _ in 0..30 {
        let full = if rng.one_in(4) && !s.services.is_empty() {
            rng.pick(&s.services).full.clone()
        } else {
            rng.pick(&s.types).full.clone()
        };
        let part = |rng: &mut Rng| {
            let cut: Vec<usize> = full.char_indices().filter(|(_, c)| *c == '.').map(|(i, _)| i + 1).chain([0]).collect();
            full[*rng.pick(&cut)..].to_string()
        };
        let n = match rng.below(9) {
            0 => format!("{}x", part(rng)),
            1 => format!(".{}", part(rng)),
            2 => part(rng),
            3 => format!("{}.Missing", part(rng)),
            4 => format!("Missing.{}", part(rng)),
            5 => part(rng).to_uppercase(),
            6 => {
                let p = part(rng);
                p[..p.len() - 1].to_string()
            }
            7 => {
                // members are not types
                let t = *rng.pick(&s.messages());
                match s.msg(t).fields.first() {
                    Some(f) => format!("{}.{}", s.types[t].full, f.name),
                    None => continue,
                }
            }
            _ => "Missing".to_string(),
        };
        let first = n.trim_start_matches('.').split('.').next().unwrap().to_string();
        let ok = n.split('.').skip(n.starts_with('.') as usize).all(|c| {
            let mut cs = c.chars();
            cs.next().map_or(false, |c| c.is_ascii_alphabetic()) && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
        });
        // packages are not types
        let sat = sy.satisfiable(&n, &scope);
        let only_packages = sat && sy.innermost(&n, &scope).map_or(true, |x| x == Sym::Package);
        if ok && !gen::KEYWORDS.contains(&first.as_str()) && (!sat || only_packages) {
            spelling = Some(n);
            break;
        }
    }
    let spelling = match spelling {
        Some(n) => n,
        None => return Ok(()),
    };
    if rpc {
        inject_rpc(&mut s2, v, &spelling, rng);
    } else {
        let oneof = rng.bool();
        simple(&mut s2, t, spelling.clone(), oneof, rng);
    }
    let mut texts = render::render(&s2, rng, Layout::Plain);
    rng.shuffle(&mut texts);
    let e = parse_error(&texts)?;
    ensure!(
        matches!(&e, Some(ParseError::TypeNotFound { name, context }) if same_name(name, &spelling) && *context == scope),
        "`{}` in {} names nothing, but parsing gives {:?}\n{}",
        spelling,
        scope,
        e,
        show(&texts)
    );
    let d = e.unwrap().to_string();
    ensure!(
        d.contains(spelling.trim_start_matches('.')) && d.contains(&scope),
        "the message `{}` does not name `{}` and {}",
        d,
        spelling,
        scope
    );
    cx.count("missing types");
    cx.eval(&id(&texts), true);
    cx.sample(|| format!("`{}` missing in {}\n{}", spelling, scope, show(&texts)));
    Ok(())
}

fn c17_kind(cx: &mut Cx, s: &Schema) -> R {
    let sy = s.symbols();
    let rng = &mut cx.rng;
    let mut s2 = s.clone();
    if s.services.is_empty() {
        return Ok(());
    }
    let v = rng.below(s.services.len());
    let rpc = rng.bool();
    let target = match (rpc, rng.bool()) {
        (true, true) if !s.enums().is_empty() => Sym::Enum(*rng.pick(&s.enums())),
        _ => Sym::Service(rng.below(s.services.len())),
    };
    let full = match target {
        Sym::Enum(t) => s.types[t].full.clone(),
        Sym::Service(v) => s.services[v].full.clone(),
        _ => unreachable!(),
    };
    let t = *rng.pick(&s.messages());
    let scope = if rpc { &s.services[v].full } else { &s.types[t].full };
    let sp: Vec<String> = if rpc {
        gen::spellings(&sy, &full, scope, target, true)
    } else {
        // the one that cannot be anything else
        vec![format!(".{}", full)]
    };
    let sp = rng.pick(&sp).clone();
    if rpc {
        inject_rpc(&mut s2, v, &sp, rng);
    } else {
        let oneof = rng.bool();
        simple(&mut s2, t, sp.clone(), oneof, rng);
    }
    let mut texts = render::render(&s2, rng, Layout::Plain);
    rng.shuffle(&mut texts);
    let e = parse_error(&texts)?;
    let kind = if matches!(target, Sym::Enum(_)) { ItemType::Enum } else { ItemType::Service };
    ensure!(
        matches!(&e, Some(ParseError::InvalidTypeKind { type_name, actual, expected, .. })
            if same_name(type_name, &sp) && *actual == kind && *expected == ItemType::Message),
        "`{}` ({:?}) is not a message, but parsing gives {:?}\n{}",
        sp,
        kind,
        e,
        show(&texts)
    );
    cx.count(if rpc { "rpc arguments of the wrong kind" } else { "fields of the wrong kind" });
    cx.eval(&id(&texts), true);
    Ok(())
}

/// Words and marks that statements are made of, and some that they are not.
const BITS: &[&str] = &[
    ";", ";", "{", "}", "=", "(", ")", "[", "]", ",", ".", "-", "+", "<", ">", "/", ":", "0", "1", "2", "08", "017", "0x1F", "0xg", "1.5",
    ".5", "1.", "1e3", "1e", "1.e+2", "5to", "99999999999999999999999", "-1", "\"a\"", "'b'", "\"\\x41\"", "\"\\q\"", "\"", "'", "a",
    "Foo", "a.b", ".a", "_x", "x_", "inf", "nan", "true", "syntax", "import", "weak", "public", "package", "option", "repeated", "optional",
    "required", "oneof", "reserved", "enum", "message", "service", "rpc", "stream", "returns", "to", "max", "int32", "string", "double",
    "message M {}", "enum E { A = 0; }", "oneof o { int32 a = 1; }", "int32 a = 1;", "A = 0;", "option a = 1;", "rpc r(.A) returns (.B);",
    "reserved 1, 2 to 5, 8 to max;", "reserved \"a\", 'b';", "service S {}", "import \"a\";", "package p;", "[a = 1]", "[(a.b).c = 'x', d = -1.5]",
    "/* x */", "// x\n", "/*", "//", "\u{feff}", "\u{e9}", "\0", "\u{2028}", "@", "#", "\\",
];

/// A file with some of its tokens or characters changed. What becomes of it, the recognizer says.
fn mutated(rng: &mut Rng, s: &Schema, f: usize) -> String {
    let layout = if rng.one_in(3) { Layout::Wild } else { Layout::Plain };
    let mut toks = render::tokens(s, f, rng, layout);
    let n = if rng.one_in(4) { 2 } else { 1 };
    let chars = rng.one_in(3);
    if !chars {
        for _ in 0..n {
            if toks.is_empty() {
                break;
            }
            let i = rng.below(toks.len());
            match rng.below(12) {
                0 => {
                    toks.remove(i);
                }
                10 => {
                    // what a pair of brackets holds, once more behind itself
                    let open: Vec<usize> =
                        (0..toks.len()).filter(|i| matches!(toks[*i].s.as_str(), "[" | "{" | "(" | "<")).collect();
                    let square: Vec<usize> = open.iter().copied().filter(|i| toks[*i].s == "[").collect();
                    let open = if !square.is_empty() && rng.bool() { square } else { open };
                    if open.is_empty() {
                        continue;
                    }
                    let i = *rng.pick(&open);
                    let mut depth = 0;
                    let mut j = i;
                    while j < toks.len() {
                        match toks[j].s.as_str() {
                            "[" | "{" | "(" | "<" => depth += 1,
                            "]" | "}" | ")" | ">" => depth -= 1,
                            _ => {}
                        }
                        j += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    let piece: Vec<String> = toks[i..j].iter().map(|t| t.s.clone()).collect();
                    for p in piece.into_iter().rev() {
                        toks.insert(j, Tok { s: p, essential: false });
                    }
                }
                11 => {
                    // the end of a number, or of any other word, once more
                    let numbers: Vec<usize> =
                        (0..toks.len()).filter(|i| toks[*i].s.bytes().any(|b| b.is_ascii_digit())).collect();
                    let floats: Vec<usize> = numbers
                        .iter()
                        .copied()
                        .filter(|i| {
                            let b = toks[*i].s.as_bytes();
                            b[0].is_ascii_digit() && !toks[*i].s.starts_with("0x") && b.iter().any(|b| matches!(b, b'.' | b'e' | b'E'))
                        })
                        .collect();
                    let from = if floats.is_empty() { &numbers } else { &floats };
                    let i = if from.is_empty() { i } else { *rng.pick(from) };
                    let t = &mut toks[i].s;
                    if floats.is_empty() && rng.one_in(3) && t.bytes().all(|b| b.is_ascii_digit()) {
                        *t = rng.pick(&["1.5e3", "2e+1", ".5E-2", "1.e9"]).to_string();
                    }
                    let at: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
                    if at.is_empty() {
                        continue;
                    }
                    let marks: Vec<usize> =
                        at.iter().copied().filter(|i| matches!(t.as_bytes()[*i], b'.' | b'e' | b'E' | b'x' | b'X' | b'+' | b'-')).collect();
                    let k = if marks.is_empty() || rng.one_in(3) { *rng.pick(&at) } else { *rng.pick(&marks) };
                    let tail = t[k..].to_string();
                    t.push_str(&tail);
                }
                7 => {
                    // a short piece once more, right behind itself
                    let j = (i + rng.range(2, 6)).min(toks.len());
                    let piece: Vec<String> = toks[i..j].iter().map(|t| t.s.clone()).collect();
                    for p in piece.into_iter().rev() {
                        toks.insert(j, Tok { s: p, essential: false });
                    }
                }
                8 => {
                    // within a string, or anything else if there is none
                    let strings: Vec<usize> =
                        (0..toks.len()).filter(|i| toks[*i].s.starts_with('"') || toks[*i].s.starts_with('\'')).collect();
                    let i = if strings.is_empty() { i } else { *rng.pick(&strings) };
                    let t = &mut toks[i].s;
                    for _ in 0..rng.range(1, 3) {
                        let at: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
                        let k = *rng.pick(&at);
                        let c = t[k..].chars().next().unwrap();
                        match rng.below(3) {
                            0 => drop(t.remove(k)),
                            1 => t.insert_str(
                                k,
                                rng.pick(&["\\", "\n", "\\\n", "\\n", "\\n\\", "\r\n", "\\x", "\\x1", "\\u0041", "\\8", "\\477", "\0", "\"", "'", "\\\"", "\\?"]),
                            ),
                            _ => t.insert(k, c),
                        }
                        if t.is_empty() {
                            break;
                        }
                    }
                }
                1 => {
                    let t = toks[i].s.clone();
                    toks.insert(i, Tok { s: t, essential: false });
                }
                2 if i + 1 < toks.len() => toks.swap(i, i + 1),
                3 => toks[i].s = rng.pick(BITS).to_string(),
                4 => {
                    // a piece of the file once more, elsewhere
                    let j = (i + rng.range(1, 8)).min(toks.len());
                    let piece: Vec<String> = toks[i..j].iter().map(|t| t.s.clone()).collect();
                    let at = rng.below(toks.len() + 1);
                    for p in piece.into_iter().rev() {
                        toks.insert(at, Tok { s: p, essential: false });
                    }
                }
                5 => {
                    let j = (i + rng.range(1, 8)).min(toks.len());
                    toks.drain(i..j);
                }
                _ => {
                    let t = rng.pick(BITS).to_string();
                    toks.insert(i, Tok { s: t, essential: false });
                }
            }
        }
    }
    toks.retain(|t| !t.s.is_empty());
    let mut t = render::join(&toks, rng, layout);
    if chars {
        for _ in 0..n {
            let at: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
            if at.is_empty() {
                break;
            }
            let i = *rng.pick(&at);
            let c = t[i..].chars().next().unwrap();
            let bit = rng.pick(BITS).to_string();
            let bit = if rng.bool() { bit.chars().next().unwrap().to_string() } else { bit };
            match rng.below(5) {
                0 | 1 => {
                    t.remove(i);
                }
                2 => t.insert(i, c),
                3 => t.insert_str(i, &bit),
                _ => t.replace_range(i..i + c.len_utf8(), &bit),
            }
        }
    }
    t
}

/// Texts near valid ones: what breaks the grammar is a syntax error, what does not is none.
fn near_grammar(cx: &mut Cx, s: &Schema, broken: bool) -> R {
    let f = cx.rng.below(s.files.len());
    let t = mutated(&mut cx.rng, s, f);
    if t.len() > 8_000 && !cx.rng.one_in(8) {
        return Ok(());
    }
    let v = grammar::judge(&t);
    match (&v, broken) {
        (Verdict::Invalid(why, at), true) => {
            cx.count(&format!("broken: {}", why));
            let e = parse_error(&[t.clone()])?;
            ensure!(
                matches!(&e, Some(ParseError::SyntaxError { .. })),
                "{} at byte {}, but parsing gives {:?}\n{}",
                why,
                at,
                e.map(|e| e.to_string()),
                show(&[t])
            );
            cx.eval(t.as_bytes(), true);
        }
        (Verdict::Valid, false) => {
            cx.count("changed texts that the grammar allows");
            let e = parse_error(&[t.clone()])?;
            ensure!(
                !matches!(&e, Some(ParseError::SyntaxError { .. })),
                "the grammar allows the text, but parsing gives {}\n{}",
                e.map(|e| e.to_string()).unwrap_or_default(),
                show(&[t])
            );
            cx.eval(t.as_bytes(), true);
        }
        (Verdict::Unspecified(why), _) => cx.count(&format!("no opinion: {}", why)),
        _ => {}
    }
    Ok(())
}

fn c17_syntax(cx: &mut Cx, s: &Schema) -> R {
    let rng = &mut cx.rng;
    let n = rng.below(s.files.len());
    let mut texts: Vec<String> = vec![];
    let mut what = String::new();
    for f in 0..s.files.len() {
        let layout = if rng.bool() { Layout::Plain } else { Layout::Wild };
        let mut toks = render::tokens(s, f, rng, layout);
        if f != n {
            texts.push(render::join(&toks, rng, Layout::Plain));
            continue;
        }
        match rng.below(6) {
            0 | 1 => {
                let c: Vec<usize> = (0..toks.len())
                    .filter(|i| toks[*i].essential && !(toks[*i].s == ";" && toks.get(i + 1).map_or(false, |t| t.s == ";")))
                    .collect();
                let i = *rng.pick(&c);
                let a = toks[i.saturating_sub(4)..(i + 5).min(toks.len())].iter().map(|t| t.s.as_str()).collect::<Vec<_>>().join(" ");
                what = format!("`{}` removed from `{}`", toks[i].s, a);
                toks.remove(i);
                texts.push(render::join(&toks, rng, layout));
            }
            2 => {
                let i = rng.below(toks.len() + 1);
                let t = rng.pick(&["{", "}", "@", "$", "%", "\\", "?", "é", "\u{1}"]).to_string();
                what = format!("`{}` inserted", t);
                toks.insert(i, Tok { s: t, essential: false });
                texts.push(render::join(&toks, rng, Layout::Plain));
            }
            3 => {
                let mut t = render::join(&toks, rng, layout);
                let end = rng.pick(&[
                    "\n/* x",
                    "\n/*",
                    "\n/* x *",
                    "\n/* // */ */",
                    "\n/* /* */ */",
                    "\nimport \"a;\n",
                    "\noption a = 'x\n';",
                    "\noption a = \"x\n\";",
                    "\noption a = \"\\q\";",
                    "\noption a = \"\\x\";",
                    "\noption a = \"x';",
                    "\noption a = ;",
                    "\noption = 1;",
                    "\noption a = 08;",
                    "\noption a = 0x;",
                    "\noption a = 0xg;",
                    "\noption a = 1e;",
                    "\noption a = .;",
                    "\noption a = 1 2;",
                    "\nsyntax = \"proto3\";",
                    "\nmessage",
                    "\nmessage Injected {",
                    "\nmessage Injected }",
                    "\nmessage 1Injected {}",
                    "\nmessage _Injected {}",
                    "\nmessage In.jected {}",
                    "\nmessage Injected { int32 a = 1 }",
                    "\nmessage Injected { int32 a = ; }",
                    "\nmessage Injected { int32 a; }",
                    "\nmessage Injected { int32 = 1; }",
                    "\nmessage Injected { int32 a = b; }",
                    "\nmessage Injected { int32 a = 1.5; }",
                    "\nmessage Injected { int32 a = -1; }",
                    "\nmessage Injected { int32 a = \"1\"; }",
                    "\nmessage Injected { int32 a = 1 []; }",
                    "\nmessage Injected { int32 a = 1 [a]; }",
                    "\nmessage Injected { int32 a = 1 [a = 1,]; }",
                    "\nmessage Injected { int32 a = 1 [a = 1 b = 2]; }",
                    "\nmessage Injected { oneof o { repeated int32 a = 1; } }",
                    "\nmessage Injected { oneof o { optional int32 a = 1; } }",
                    "\nmessage Injected { oneof { int32 a = 1; } }",
                    "\nmessage Injected { oneof o { message X {} } }",
                    "\nmessage Injected { service S {} }",
                    "\nmessage Injected { rpc a(M) returns (M); }",
                    "\nmessage Injected { repeated repeated int32 a = 1; }",
                    "\nmessage Injected { package a; }",
                    "\nmessage Injected { import \"a\"; }",
                    "\nmessage Injected { A = 1; }",
                    "\nmessage Injected { .a. b = 1; }",
                    "\nmessage Injected { a..b c = 1; }",
                    "\nmessage Injected { reserved; }",
                    "\nmessage Injected { reserved 1 to; }",
                    "\nmessage Injected { reserved 1, ; }",
                    "\nmessage Injected { reserved 1 \"a\"; }",
                    "\nenum Injected { A; }",
                    "\nenum Injected { A = 1 }",
                    "\nenum Injected { A = ; }",
                    "\nenum Injected { A = 1.5; }",
                    "\nenum Injected { A = B; }",
                    "\nenum Injected { int32 a = 1; }",
                    "\nenum Injected { enum B { C = 0; } }",
                    "\nenum Injected { A = --1; }",
                    "\nservice Injected { rpc a(.); }",
                    "\nservice Injected { rpc a() returns (); }",
                    "\nservice Injected { rpc a(stream) returns (); }",
                    "\nservice Injected { message M {} }",
                    "\nservice Injected { int32 a = 1; }",
                    "\nservice In jected {}",
                    "\npackage ;",
                    "\npackage .a;",
                    "\npackage a.;",
                    "\npackage a b;",
                    "\npackage a",
                    "\nimport a;",
                    "\nimport;",
                    "\nint32 a = 1;",
                    "\nrpc a(M) returns (M);",
                    "\nfoo",
                    "\n0",
                    "\n\"a\"",
                    "\n- ;",
                ]);
                what = format!("`{}` appended", end.trim());
                t.push_str(end);
                texts.push(t);
            }
            4 => {
                // the first line
                let first: usize = 4;
                let line = rng.pick(&[
                    "", "syntax = \"proto2\";", "syntax = proto3;", "syntax = \"proto3\" syntax", "syntax = \"proto3';", "syntax = 'proto3\";",
                    "syntax \"proto3\";", "syntax = \"Proto3\";", "syntax = \"proto33\";", "syntax = \"\";", "edition = \"2023\";",
                    "package a; syntax = \"proto3\";", "; syntax = \"proto3\";", "syntax = \" proto3\";", "Syntax = \"proto3\";",
                    "syntax = \"proto3\" \"\";", "import \"a\"; syntax = \"proto3\";", "message A {} syntax = \"proto3\";",
                ]);
                what = format!("`{}` for the syntax statement", line);
                let rest = &toks[first..];
                let t = if rest.is_empty() { String::new() } else { render::join(rest, rng, Layout::Plain) };
                texts.push(format!("{}\n{}", line, t));
            }
            _ => {
                let mut t = render::join(&toks, rng, layout);
                let end = rng.pick(&[
                    "\nmessageInjected {}",
                    "\nmessage1 {}",
                    "\nmessage_ {}",
                    "\nenumInjected { INJ = 0; }",
                    "\nserviceInjected {}",
                    "\npackageinjected;",
                    "\noptioninjected = 1;",
                    "\nmessage Injected { enumI { INJ = 0; } }",
                    "\nmessage Injected { messageI {} }",
                    "\nmessage Injected { oneofi { int32 a = 1; } }",
                    "\nmessage Injected { reserved1; }",
                    "\nmessage Injected { reserveda; }",
                    "\nmessage Injected { int32a = 1; }",
                    "\nmessage Injected { repeatedint32 a b = 1; }",
                    "\nservice Injected { rpca(M) returns (M); }",
                    "\nservice Injected { optiona = 1; }",
                ]);
                what = format!("`{}` appended", end.trim());
                t.push_str(end);
                texts.push(t);
            }
        }
    }
    rng.shuffle(&mut texts);
    let e = parse_error(&texts)?;
    ensure!(
        matches!(&e, Some(ParseError::SyntaxError { .. })),
        "{}, but parsing gives {:?}\n{}",
        what,
        e.map(|e| e.to_string()),
        show(&texts)
    );
    cx.count("broken texts");
    cx.eval(&id(&texts), true);
    Ok(())
}
