pub mod dec;
pub mod eq;
pub mod evo;
pub mod far;
pub mod modi;
pub mod san;
pub mod sch;
pub mod thr;

use crate::cx::*;

pub type CaseFn = fn(&mut Cx) -> R;

pub const ALL: &[(&str, CaseFn)] = &[
    ("C01", dec::c01),
    ("C02", dec::c02),
    ("C03", dec::c03),
    ("C04", dec::c04),
    ("C05", dec::c05),
    ("C06", dec::c06),
    ("C07", dec::c07),
    ("C08", dec::c08),
    ("C09", dec::c09),
    ("C10", dec::c10),
    ("C11", sch::c11),
    ("C12", sch::c12),
    ("C13", sch::c13),
    ("C14", sch::c14),
    ("C15", sch::c15),
    ("C16", sch::c16),
    ("C17", sch::c17),
    ("C18", modi::c18),
    ("C19", modi::c19),
    ("C20", san::c20),
    ("C21", thr::c21),
    ("C22", eq::c22),
    ("C23", eq::c23),
    ("C24", eq::c24),
    ("C25", evo::c25),
    ("C26", evo::c26),
    ("C27", far::c27),
];

pub fn find(name: &str) -> Option<CaseFn> {
    ALL.iter().find(|(n, _)| *n == name).map(|(_, f)| *f)
}

/// Checks whether a known finding is still there. Prints `FOUND` or `GONE`; a crash is for the
/// driver to see.
pub fn probe(what: &str) -> i32 {
    use protofish::context::Context;
    match what {
        // C01: deep nesting exhausts the stack
        "deep-decode" => {
            let c = Context::parse(&["syntax = \"proto3\"; message M { M m = 1; }"]).unwrap();
            let mut p = vec![];
            let mut levels: Vec<Vec<u8>> = vec![];
            let mut len = 0u64;
            for _ in 0..100_000 {
                let mut h = vec![0x0a];
                crate::wire::put_varint(&mut h, len);
                len += h.len() as u64;
                levels.push(h);
            }
            for h in levels.iter().rev() {
                p.extend_from_slice(h);
            }
            let v = c.decode(c.get_message("M").unwrap().self_ref, &p);
            std::mem::forget(v);
            println!("GONE");
        }
        // C11: deep nesting of the text exhausts the stack
        "deep-parse" => {
            let n = 20_000;
            let t = format!("syntax = \"proto3\"; {}{}", "message M { ".repeat(n), "}".repeat(n));
            let r = Context::parse(&[t]);
            std::mem::forget(r);
            println!("GONE");
        }
        // C11, C12: map fields
        "map" => match guard(|| {
            Context::parse(&["syntax = \"proto3\"; message M { map<string, int32> m = 1; }"]).map(|c| {
                c.get_message("M").map(|m| m.iter_fields().count()).unwrap_or(0)
            })
        }) {
            Err(p) if p.starts_with(sch::MAP_PANIC) => println!("FOUND"),
            Err(p) => println!("OTHER panic {}", p),
            Ok(Ok(1)) => println!("GONE"),
            Ok(r) => println!("OTHER {:?}", r.map_err(|e| e.to_string())),
        },
        // C09: packed enums
        "packed-enum" => {
            use protofish::decode::*;
            let c = Context::parse(&["syntax = \"proto3\"; enum E { A = 0; B = 1; } message M { repeated E e = 1; }"]).unwrap();
            let v = c.decode(c.get_message("M").unwrap().self_ref, &[0x0a, 2, 1, 0]);
            match v.fields.as_slice() {
                [FieldValue {
                    number: 1,
                    value: Value::Unknown(UnknownValue::VariableLength(b)),
                }] if b.as_ref() == [1, 0] => println!("FOUND"),
                _ => println!("GONE"),
            }
        }
        // C12: integers that only fit an unsigned 64-bit type
        "uint64-option" => {
            match Context::parse(&["syntax = \"proto3\"; message M { int32 a = 1 [(o) = 18446744073709551615]; }"]) {
                Err(protofish::context::ParseError::SyntaxError { .. }) => println!("FOUND"),
                Err(e) => println!("OTHER {}", e),
                Ok(_) => println!("GONE"),
            }
        }
        _ => return 3,
    }
    0
}
