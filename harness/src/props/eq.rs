//! Equality and copies (C22), order of listings (C23), time (C24).

use super::dec::*;
use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::render::{self, Layout};
use crate::rng::Rng;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

// --------------------------------------------------------------------------------------- C22

/// Whether two numbers are equal: floats by the rules of floating point.
fn same_num(k: K, a: u64, b: u64) -> bool {
    match k {
        K::Double => f64::from_bits(a) == f64::from_bits(b),
        K::Float => f32::from_bits(a as u32) == f32::from_bits(b as u32),
        _ => a == b,
    }
}

fn same_value(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Num(k, x), RV::Num(l, y)) => k == l && same_num(*k, *x, *y),
        (RV::Packed(k, x), RV::Packed(l, y)) => k == l && x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_num(*k, *x, *y)),
        (RV::Msg(x), RV::Msg(y)) => same_msg(x, y),
        _ => a == b,
    }
}

fn same_msg(a: &RMsg, b: &RMsg) -> bool {
    a.tid == b.tid
        && a.garbage == b.garbage
        && a.fields.len() == b.fields.len()
        && a.fields.iter().zip(&b.fields).all(|((n, x), (m, y))| n == m && same_value(x, y))
}

/// Keeps the raw form of a number in the range of its kind.
fn fit(k: K, v: u64) -> u64 {
    match k {
        K::Int32 | K::SInt32 | K::SFixed32 => v as i32 as i64 as u64,
        K::UInt32 | K::Fixed32 | K::Float => v as u32 as u64,
        K::Bool => v & 1,
        _ => v,
    }
}

fn other_bytes(rng: &mut Rng, b: &mut Vec<u8>) {
    match rng.below(4) {
        0 if !b.is_empty() => {
            b.pop();
        }
        1 => b.push(rng.next() as u8),
        _ if !b.is_empty() => {
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
        }
        _ => b.push(0),
    }
}

fn alter_value(rng: &mut Rng, s: &Schema, v: &mut RV) {
    let numeric = |rng: &mut Rng| loop {
        let k = *rng.pick(&KINDS);
        if k.numeric() {
            return k;
        }
    };
    // the same content in another kind of value
    if rng.one_in(5) {
        let new = match &*v {
            RV::Num(_, x) => {
                let k = numeric(rng);
                Some(RV::Num(k, fit(k, *x)))
            }
            RV::Packed(_, x) => {
                let k = numeric(rng);
                Some(RV::Packed(k, x.iter().map(|x| fit(k, *x)).collect()))
            }
            RV::Str(x) => Some(if rng.bool() { RV::Bytes(x.clone().into_bytes()) } else { RV::ULen(x.clone().into_bytes()) }),
            RV::Bytes(x) => Some(match rng.below(3) {
                0 => RV::ULen(x.clone()),
                1 => RV::Incomplete(2, x.clone()),
                _ => RV::Str(String::from_utf8_lossy(x).into_owned()),
            }),
            RV::ULen(x) => Some(match rng.below(3) {
                0 => RV::Bytes(x.clone()),
                1 => RV::Incomplete(2, x.clone()),
                _ => RV::Invalid(3, x.clone()),
            }),
            RV::Incomplete(w, x) => Some(if *w == 2 { RV::ULen(x.clone()) } else { RV::Invalid(3, x.clone()) }),
            RV::Invalid(w, x) => Some(RV::Incomplete(*w, x.clone())),
            RV::U32(x) => Some(if rng.bool() { RV::U64(*x as u64) } else { RV::UVar(*x as u128) }),
            RV::U64(x) => Some(if rng.bool() { RV::U32(*x as u32) } else { RV::UVar(*x as u128) }),
            RV::UVar(x) => Some(if rng.bool() { RV::U32(*x as u32) } else { RV::Num(K::UInt64, *x as u64) }),
            RV::Enum(_, x) => Some(if rng.bool() { RV::Num(K::Int64, *x as u64) } else { RV::UVar(*x as u64 as u128) }),
            RV::Msg(m) => Some(RV::ULen(encode(m))),
            RV::Raw(..) => None,
        };
        if let Some(n) = new {
            *v = n;
            return;
        }
    }
    match v {
        RV::Num(k, x) => {
            *x = match k {
                K::Bool => *x ^ 1,
                K::Double if rng.one_in(4) => *x ^ 1 << 63,
                K::Float if rng.one_in(4) => *x ^ 1 << 31,
                k if rng.bool() => fit(*k, *x ^ (1 << rng.below(if matches!(k.wire(), 5) || fit(*k, u64::MAX >> 1) != u64::MAX >> 1 { 32 } else { 64 }))),
                k => gen_raw(rng, *k),
            }
        }
        RV::Str(x) => match rng.below(4) {
            0 => x.push('\0'),
            1 => x.insert(0, ' '),
            2 if !x.is_empty() => {
                x.pop();
            }
            _ => {
                let c: String = x.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                *x = c;
            }
        },
        RV::Bytes(x) | RV::ULen(x) => other_bytes(rng, x),
        RV::Incomplete(w, x) | RV::Invalid(w, x) => {
            if rng.bool() {
                other_bytes(rng, x)
            } else {
                *w = (*w + 1 + rng.below(7) as u8) % 8;
            }
        }
        RV::Packed(k, x) => {
            let k = *k;
            match rng.below(5) {
                0 => {
                    x.pop();
                }
                1 => x.push(0),
                2 if x.len() > 1 => {
                    let i = rng.below(x.len() - 1);
                    x.swap(i, i + 1);
                }
                _ if !x.is_empty() => {
                    let i = rng.below(x.len());
                    x[i] = if rng.bool() { fit(k, x[i] ^ 1) } else { gen_raw(rng, k) };
                }
                _ => x.push(gen_raw(rng, k)),
            }
        }
        RV::Enum(t, x) => {
            let es = s.enums();
            if rng.one_in(3) {
                *t = *rng.pick(&es);
            } else {
                *x ^= 1 << rng.below(63);
            }
        }
        RV::Msg(m) => alter(rng, s, m),
        RV::UVar(x) => *x ^= 1 << rng.below(128),
        RV::U64(x) => *x ^= 1 << rng.below(64),
        RV::U32(x) => *x ^= 1 << rng.below(32),
        RV::Raw(..) => {}
    }
}

/// Changes one detail of a message value.
fn alter(rng: &mut Rng, s: &Schema, m: &mut RMsg) {
    let n = m.fields.len();
    match rng.below(12) {
        0 => {
            let ms = s.messages();
            m.tid = *rng.pick(&ms);
        }
        1 => match &mut m.garbage {
            None => m.garbage = Some(vec![0]),
            Some(_) if rng.bool() => m.garbage = None,
            Some(g) => {
                let i = rng.below(g.len());
                g[i] ^= 1 << rng.below(8);
            }
        },
        2 if n > 0 => {
            let i = rng.below(n);
            m.fields[i].0 ^= 1 << *rng.pick(&[0, 0, 1, 3, 16, 28, 32, 40]);
        }
        3 if n > 0 => {
            m.fields.remove(rng.below(n));
        }
        4 if n > 0 => {
            let i = rng.below(n);
            let f = m.fields[i].clone();
            m.fields.insert(i, f);
        }
        5 if n > 1 => {
            let i = rng.below(n - 1);
            m.fields.swap(i, i + 1);
        }
        6 if n > 1 => {
            let (i, j) = (rng.below(n), rng.below(n));
            m.fields.swap(i, j);
        }
        7 => {
            let x = any_msg(rng, s, m.tid, 4);
            m.fields.extend(x.fields.into_iter().take(1));
        }
        _ if n > 0 => {
            let i = rng.below(n);
            alter_value(rng, s, &mut m.fields[i].1);
        }
        _ => m.fields.push((1, RV::Num(K::Int32, 0))),
    }
}

fn judge(cx: &mut Cx, want: bool, eq: bool, ne: bool, what: impl FnOnce() -> String) -> R {
    ensure!(eq != ne, "== and != give the same answer: {}", what());
    ensure!(eq == want, "{}: {}", if want { "equal values compare unequal" } else { "different values compare equal" }, what());
    cx.count(if want { "pairs found equal" } else { "pairs found different" });
    Ok(())
}

fn values(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::wire();
    cfg.huge_numbers = cx.rng.one_in(4);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..20 {
        let ms = e.s.messages();
        let t = *cx.rng.pick(&ms);
        // decoded or made by hand
        let m = match if i == 0 && big { 9 } else { cx.rng.below(5) } {
            9 => huge(cx, &e.s),
            0 | 1 => any_msg(&mut cx.rng, &e.s, t, 0),
            2 => gen_msg(&mut cx.rng, &e.s, t),
            _ => {
                let p = any_payload(&mut cx.rng, &e.s, t);
                let v = match guard(|| e.c.decode(t, &p)) {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                let m = e.c.lift(&v).map_err(|_| Fail(SKIP.into()))?;
                let w = e.c.lower(&m);
                let want = same_msg(&m, &m);
                let show = || format!("decoded from {} as {} and built by hand: {:?}", hex(&p), e.s.types[t].full, v);
                judge(cx, want, v == w, v != w, show)?;
                judge(cx, want, w == v, w != v, show)?;
                let again = call("decode", || e.c.decode(t, &p))?;
                judge(cx, want, v == again, v != again, show)?;
                m
            }
        };
        let a = e.c.lower(&m);
        let own = same_msg(&m, &m);
        let b = call("clone", || a.clone())?;
        let lifted = e.c.lift(&b).map_err(|x| Fail(format!("clone: {}", x)))?;
        ensure!(lifted == m, "the clone of {:?} is {:?}", m, lifted);
        judge(cx, own, a == b, a != b, || format!("{:?} and its clone", a))?;
        let enc = (guard(|| a.encode(&e.c.ctx)), guard(|| b.encode(&e.c.ctx)));
        if let (Ok(x), Ok(y)) = enc {
            ensure!(x == y, "a value and its clone are encoded differently: {:?}", a);
        }
        drop(a);
        let lifted = e.c.lift(&b).map_err(|x| Fail(format!("clone: {}", x)))?;
        ensure!(lifted == m, "the clone of {:?} is {:?} when the original is gone", m, lifted);
        let a = b;
        for _ in 0..if i == 0 && big { 2 } else { 8 } {
            let mut m2 = m.clone();
            alter(&mut cx.rng, &e.s, &mut m2);
            let want = same_msg(&m, &m2);
            let b = e.c.lower(&m2);
            let show = || {
                let mut s = format!("{:?}\nand\n{:?}", m, m2);
                let mut n = s.len().min(4000);
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s
            };
            judge(cx, want, a == b, a != b, show)?;
            judge(cx, want, b == a, b != a, show)?;
            for (i, (x, y)) in a.fields.iter().zip(&b.fields).enumerate().take(40) {
                let w = same_value(&m.fields[i].1, &m2.fields[i].1);
                judge(cx, w, x.value == y.value, x.value != y.value, show)?;
                let w = w && m.fields[i].0 == m2.fields[i].0;
                judge(cx, w, x == y, x != y, show)?;
            }
            if !want {
                let mut id = format!("{:?}", m2).into_bytes();
                id.truncate(4000);
                cx.eval(&id, true);
            }
        }
        cx.sample(|| format!("{:?}", m).chars().take(600).collect());
    }
    Ok(())
}

/// Computes full names again and spells every reference in full.
pub fn respell(s: &mut Schema) {
    fn full(s: &Schema, t: Tid) -> String {
        match s.types[t].parent {
            Parent::File(f) => match &s.files[f].package {
                Some(p) => format!("{}.{}", p, s.types[t].name),
                None => s.types[t].name.clone(),
            },
            Parent::Type(p) => format!("{}.{}", full(s, p), s.types[t].name),
        }
    }
    let fulls: Vec<String> = (0..s.types.len()).map(|t| full(s, t)).collect();
    for (t, f) in fulls.iter().enumerate() {
        s.types[t].full = f.clone();
        if let Kind::Msg(m) = &mut s.types[t].kind {
            for f in &mut m.fields {
                f.spelling = match f.ty {
                    Ty::T(x) => format!(".{}", fulls[x]),
                    Ty::S(k) => k.name().into(),
                };
            }
        }
    }
    for i in 0..s.services.len() {
        let p = s.files[s.services[i].file].package.clone();
        let v = &mut s.services[i];
        v.full = match p {
            Some(p) => format!("{}.{}", p, v.name),
            None => v.name.clone(),
        };
        for r in &mut v.rpcs {
            r.input_spelling = format!(".{}", fulls[r.input]);
            r.output_spelling = format!(".{}", fulls[r.output]);
        }
    }
}

fn alter_opts(rng: &mut Rng, o: &mut Vec<Opt>, inline: bool) -> Option<&'static str> {
    let ours = |o: &Opt| o.name != "packed";
    match rng.below(6) {
        0 if inline => {
            let at = rng.below(o.len() + 1);
            o.insert(
                at,
                Opt {
                    name: "zz_added".into(),
                    value: Const::Int(1),
                    lit: vec!["1".into()],
                },
            );
            Some("an option added")
        }
        1 if inline => {
            let i = (0..o.len()).find(|i| ours(&o[*i]))?;
            o.remove(i);
            Some("an option removed")
        }
        2 => {
            let i = (0..o.len().saturating_sub(1)).find(|i| ours(&o[*i]) && ours(&o[*i + 1]) && o[*i] != o[*i + 1])?;
            o.swap(i, i + 1);
            Some("two options exchanged")
        }
        _ => {
            let c: Vec<usize> = (0..o.len()).filter(|i| ours(&o[*i])).collect();
            if c.is_empty() {
                return None;
            }
            let o = &mut o[*rng.pick(&c)];
            let quoted = |b: &[u8]| {
                let h: String = b.iter().map(|b| format!("\\x{:02x}", b)).collect();
                vec![format!("\"{}\"", h)]
            };
            let (v, l) = match &o.value {
                Const::Int(i) if rng.bool() => {
                    let n = if *i > 0 { i - 1 } else { i + 1 };
                    (Const::Int(n), gen::int_lit(rng, n, false))
                }
                Const::Bool(b) if rng.bool() => (Const::Bool(!b), vec![(!b).to_string()]),
                Const::Str(b) if rng.bool() => {
                    let mut b = b.clone();
                    other_bytes(rng, &mut b);
                    let l = quoted(&b);
                    (Const::Str(b), l)
                }
                Const::Float(b) if rng.bool() => {
                    let f = f64::from_bits(*b).abs();
                    let g = if f < 1e300 { f64::from_bits(f.to_bits() + 1) } else { 1.5 };
                    (Const::Float(g.to_bits()), vec![format!("{:e}", g)])
                }
                Const::Ident(s) if rng.bool() => (Const::Ident(format!("{}x", s)), vec![format!("{}x", s)]),
                Const::Ident(s) if rng.bool() => (Const::Str(s.clone().into_bytes()), quoted(s.as_bytes())),
                Const::Int(i) if rng.bool() && i.unsigned_abs() < 1 << 50 && *i != 0 => {
                    let l = if *i < 0 { vec!["-".to_string(), format!("{}.0", -i)] } else { vec![format!("{}.0", i)] };
                    (Const::Float((*i as f64).to_bits()), l)
                }
                Const::Str(b) if b == b"changed" => (Const::Int(7), vec!["7".into()]),
                _ => (Const::Str(b"changed".to_vec()), vec!["\"changed\"".into()]),
            };
            if rng.one_in(5) && !o.name.ends_with(')') {
                o.name.push('x');
                return Some("the name of an option");
            }
            if v == o.value {
                return None;
            }
            o.value = v;
            o.lit = l;
            Some("the value of an option")
        }
    }
}

/// Puts further options into places that keep them.
fn enrich(rng: &mut Rng, s: &mut Schema) {
    fn option(rng: &mut Rng) -> Opt {
        let bytes = |b: &[u8]| {
            let h: String = b.iter().map(|b| format!("\\x{:02x}", b)).collect();
            (Const::Str(b.to_vec()), vec![format!("\"{}\"", h)])
        };
        let (value, lit) = match rng.below(6) {
            0 => {
                let k = rng.range(1, 3);
                let b: Vec<u8> = (0..k).map(|_| 0x80 | rng.below(128) as u8).collect();
                bytes(&b)
            }
            1 => bytes(rng.pick(&["a", "A", "", "a ", "true", "1", "inf"]).as_bytes()),
            2 => {
                let i = *rng.pick(&[0i64, 1, 2, 255, 256, 1 << 32, (1 << 53) + 1]);
                (Const::Int(i), vec![i.to_string()])
            }
            3 => {
                let f = *rng.pick(&[0.5f64, 1.0, 1e-300, 1e300]);
                (Const::Float(f.to_bits()), vec![format!("{:e}", f)])
            }
            4 => {
                let i = *rng.pick(&["a", "A", "a.b", "ab", "trueish"]);
                (Const::Ident(i.to_string()), vec![i.to_string()])
            }
            _ => {
                let b = rng.bool();
                (Const::Bool(b), vec![b.to_string()])
            }
        };
        Opt {
            name: format!("zz{}", rng.below(100)),
            value,
            lit,
        }
    }
    for t in 0..s.types.len() {
        match &mut s.types[t].kind {
            Kind::Msg(m) => {
                for f in &mut m.fields {
                    if rng.one_in(6) {
                        f.opts.push(option(rng));
                    }
                }
                for o in 0..m.oneofs.len() {
                    if rng.one_in(2) {
                        m.oneof_bodies[o].push(Item::Opt(m.oneofs[o].opts.len()));
                        m.oneofs[o].opts.push(option(rng));
                    }
                }
            }
            Kind::Enum(e) => {
                for v in &mut e.values {
                    if rng.one_in(6) {
                        v.opts.push(option(rng));
                    }
                }
            }
        }
    }
    for v in &mut s.services {
        if rng.bool() {
            v.body.push(Item::Opt(v.opts.len()));
            v.opts.push(option(rng));
        }
        for r in &mut v.rpcs {
            if rng.one_in(3) {
                r.body.get_or_insert_with(Vec::new).push(Item::Opt(r.opts.len()));
                r.opts.push(option(rng));
            }
        }
    }
}

/// Changes one detail that a context shows. The flag: no type has come, gone or been renamed.
fn alter_schema(rng: &mut Rng, s: &mut Schema) -> Option<(&'static str, bool)> {
    let ms = s.messages();
    let es = s.enums();
    let kind = rng.below(34);
    let packed = |f: &Field| f.opts.iter().any(|o| o.name == "packed");
    match kind {
        0..=8 => {
            let t = *rng.pick(&ms);
            let all_types = s.types.len();
            let m = s.msg_mut(t);
            if m.fields.is_empty() {
                return None;
            }
            let i = rng.below(m.fields.len());
            let used: HashSet<u64> = m.fields.iter().map(|f| f.number).collect();
            let f = &mut m.fields[i];
            match kind {
                0 => {
                    let n = (1u64..).find(|n| !used.contains(n) && !(19000..20000).contains(n)).unwrap();
                    f.number = n;
                    f.num_lit = n.to_string();
                    Some(("the number of a field", true))
                }
                1 => {
                    f.name = "zz_changed".into();
                    Some(("the name of a field", true))
                }
                2 => {
                    let k = *rng.pick(&KINDS);
                    if f.ty == Ty::S(k) || packed(f) {
                        return None;
                    }
                    f.ty = Ty::S(k);
                    Some(("the type of a field", true))
                }
                3 => {
                    let x = rng.below(all_types);
                    if f.ty == Ty::T(x) || packed(f) {
                        return None;
                    }
                    f.ty = Ty::T(x);
                    Some(("the type a field refers to", true))
                }
                4 | 5 => {
                    let u = *rng.pick(&[Mult::Single, Mult::Optional, Mult::Repeated]);
                    if f.oneof.is_some() || packed(f) || u == f.mult {
                        return None;
                    }
                    f.mult = u;
                    Some(("the label of a field", true))
                }
                6 => alter_opts(rng, &mut f.opts, true).map(|w| (w, true)),
                7 => {
                    let o = f.oneof?;
                    f.oneof = None;
                    f.mult = Mult::Single;
                    m.oneof_bodies[o].retain(|x| !matches!(x, Item::Field(j) if *j == i));
                    if !m.oneof_bodies[o].iter().any(|x| matches!(x, Item::Field(_))) {
                        return None;
                    }
                    m.body.push(Item::Field(i));
                    Some(("a field taken out of its oneof", true))
                }
                _ => {
                    if f.oneof.is_some() || f.mult == Mult::Repeated || m.oneofs.is_empty() {
                        return None;
                    }
                    let o = rng.below(m.oneofs.len());
                    f.mult = Mult::Single;
                    f.oneof = Some(o);
                    m.body.retain(|x| !matches!(x, Item::Field(j) if *j == i));
                    m.oneof_bodies[o].push(Item::Field(i));
                    Some(("a field put into a oneof", true))
                }
            }
        }
        9 | 10 => {
            let t = *rng.pick(&ms);
            let m = s.msg_mut(t);
            if m.oneofs.is_empty() {
                return None;
            }
            let o = rng.below(m.oneofs.len());
            if kind == 9 {
                m.oneofs[o].name = "zz_changed".into();
                Some(("the name of a oneof", true))
            } else {
                alter_opts(rng, &mut m.oneofs[o].opts, false).map(|w| (w, true))
            }
        }
        11..=13 => {
            if es.is_empty() {
                return None;
            }
            let t = *rng.pick(&es);
            let e = match &mut s.types[t].kind {
                Kind::Enum(e) => e,
                _ => return None,
            };
            if e.values.is_empty() {
                return None;
            }
            let i = rng.below(e.values.len());
            let used: HashSet<i64> = e.values.iter().map(|v| v.value).collect();
            let v = &mut e.values[i];
            match kind {
                11 => {
                    if v.value == 0 {
                        return None;
                    }
                    let n = (1i64..).find(|n| !used.contains(n)).unwrap();
                    let n = if rng.bool() && !used.contains(&v.value.wrapping_neg()) { v.value.wrapping_neg() } else { n };
                    v.value = n;
                    v.lit = gen::int_lit(rng, n, false);
                    Some(("the number of an enum value", true))
                }
                12 => {
                    v.name = "ZZ_CHANGED".into();
                    Some(("the name of an enum value", true))
                }
                _ => alter_opts(rng, &mut v.opts, true).map(|w| (w, true)),
            }
        }
        14 => {
            let t = rng.below(s.types.len());
            s.types[t].name = "ZzChanged".into();
            Some(("the name of a type", false))
        }
        15 => {
            let f = rng.below(s.files.len());
            if !s.types.iter().any(|t| t.parent == Parent::File(f)) {
                return None;
            }
            s.files[f].package = match &s.files[f].package {
                Some(p) => Some(format!("{}.zz", p)),
                None => Some("zz".into()),
            };
            Some(("the package of a file", false))
        }
        16 => {
            let t = *rng.pick(&ms);
            let m = s.msg_mut(t);
            let c: Vec<usize> = (0..m.body.len()).filter(|i| matches!(m.body[*i], Item::Field(_))).collect();
            if c.is_empty() {
                return None;
            }
            m.body.remove(*rng.pick(&c));
            Some(("a field removed", false))
        }
        17 => {
            if es.is_empty() {
                return None;
            }
            let t = *rng.pick(&es);
            let e = match &mut s.types[t].kind {
                Kind::Enum(e) => e,
                _ => return None,
            };
            let c: Vec<usize> =
                (0..e.body.len()).filter(|i| matches!(e.body[*i], Item::Value(v) if e.values[v].value != 0)).collect();
            if c.is_empty() {
                return None;
            }
            e.body.remove(*rng.pick(&c));
            Some(("an enum value removed", false))
        }
        24 => {
            // two fields of one message exchange something
            let t = *rng.pick(&ms);
            let m = s.msg_mut(t);
            if m.fields.len() < 2 {
                return None;
            }
            let (i, j) = (rng.below(m.fields.len()), rng.below(m.fields.len()));
            if i == j {
                return None;
            }
            let (mut a, mut b) = (m.fields[i].clone(), m.fields[j].clone());
            let what = match rng.below(4) {
                0 => {
                    std::mem::swap(&mut a.name, &mut b.name);
                    "the names of two fields exchanged"
                }
                1 => {
                    std::mem::swap(&mut a.number, &mut b.number);
                    std::mem::swap(&mut a.num_lit, &mut b.num_lit);
                    "the numbers of two fields exchanged"
                }
                2 if !packed(&a) && !packed(&b) => {
                    std::mem::swap(&mut a.ty, &mut b.ty);
                    "the types of two fields exchanged"
                }
                3 if !packed(&a) && !packed(&b) => {
                    std::mem::swap(&mut a.opts, &mut b.opts);
                    "the options of two fields exchanged"
                }
                _ => return None,
            };
            m.fields[i] = a;
            m.fields[j] = b;
            Some((what, true))
        }
        25 => {
            if es.is_empty() {
                return None;
            }
            let t = *rng.pick(&es);
            let e = match &mut s.types[t].kind {
                Kind::Enum(e) => e,
                _ => return None,
            };
            if e.values.len() < 2 {
                return None;
            }
            let (i, j) = (rng.below(e.values.len()), rng.below(e.values.len()));
            if i == j {
                return None;
            }
            let (mut a, mut b) = (e.values[i].clone(), e.values[j].clone());
            let what = if rng.bool() {
                std::mem::swap(&mut a.name, &mut b.name);
                "the names of two enum values exchanged"
            } else {
                std::mem::swap(&mut a.opts, &mut b.opts);
                "the options of two enum values exchanged"
            };
            e.values[i] = a;
            e.values[j] = b;
            Some((what, true))
        }
        26 => {
            let t = *rng.pick(&ms);
            let m = s.msg_mut(t);
            let c: Vec<usize> = (0..m.body.len()).filter(|i| matches!(m.body[*i], Item::Oneof(_))).collect();
            if c.len() < 2 {
                return None;
            }
            let (i, j) = (*rng.pick(&c), *rng.pick(&c));
            if i == j {
                return None;
            }
            if rng.bool() {
                m.body.swap(i, j);
                return Some(("two oneofs exchanged", true));
            }
            if let (Item::Oneof(i), Item::Oneof(j)) = (m.body[i].clone(), m.body[j].clone()) {
                let a = m.oneofs[i].name.clone();
                m.oneofs[i].name = std::mem::replace(&mut m.oneofs[j].name, a);
            }
            Some(("the names of two oneofs exchanged", true))
        }
        _ => {
            if s.services.is_empty() {
                return None;
            }
            let ms = s.messages();
            let i = rng.below(s.services.len());
            let v = &mut s.services[i];
            if kind == 18 {
                v.name = "ZzChanged".into();
                return Some(("the name of a service", false));
            }
            if kind == 19 {
                return alter_opts(rng, &mut v.opts, false).map(|w| (w, true));
            }
            if v.rpcs.is_empty() {
                return None;
            }
            let r = rng.below(v.rpcs.len());
            if kind >= 30 {
                // two of them exchanged
                let q = rng.below(v.rpcs.len());
                if q == r {
                    return None;
                }
                return Some((
                    match kind {
                        30 => {
                            let mut at = v.body.iter_mut().filter(|i| matches!(i, Item::Rpc(x) if *x == q || *x == r));
                            if let (Some(a), Some(b)) = (at.next(), at.next()) {
                                std::mem::swap(a, b);
                            }
                            "two rpcs exchanged"
                        }
                        31 => {
                            let a = v.rpcs[q].name.clone();
                            v.rpcs[q].name = std::mem::replace(&mut v.rpcs[r].name, a);
                            "the names of two rpcs exchanged"
                        }
                        32 => {
                            let a = v.rpcs[q].input;
                            v.rpcs[q].input = std::mem::replace(&mut v.rpcs[r].input, a);
                            "the inputs of two rpcs exchanged"
                        }
                        _ => {
                            let a = v.rpcs[q].output_stream;
                            v.rpcs[q].output_stream = std::mem::replace(&mut v.rpcs[r].output_stream, a);
                            "the streaming of two rpcs exchanged"
                        }
                    },
                    true,
                ));
            }
            let r = &mut v.rpcs[r];
            match kind {
                28 => {
                    std::mem::swap(&mut r.input, &mut r.output);
                    Some(("input and output of an rpc exchanged", true))
                }
                29 => {
                    std::mem::swap(&mut r.input_stream, &mut r.output_stream);
                    Some(("streaming of input and output exchanged", true))
                }
                27 => alter_opts(rng, &mut r.opts, false).map(|w| (w, true)),
                20 => {
                    r.name = "ZzChanged".into();
                    Some(("the name of an rpc", true))
                }
                21 => {
                    let t = *rng.pick(&ms);
                    let side = if rng.bool() { &mut r.input } else { &mut r.output };
                    if *side == t {
                        return None;
                    }
                    *side = t;
                    Some(("a type of an rpc", true))
                }
                22 => {
                    if rng.bool() {
                        r.input_stream = !r.input_stream;
                    } else {
                        r.output_stream = !r.output_stream;
                    }
                    Some(("the streaming of an rpc", true))
                }
                _ => alter_opts(rng, &mut r.opts, false).map(|w| (w, true)),
            }
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn contexts(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.aliases = false;
    cfg.opts = if cx.rng.bool() { gen::Opts::Wild } else { gen::Opts::Simple };
    cfg.services = !cx.rng.one_in(4);
    cfg.share_packages = cx.rng.bool();
    if cx.rng.one_in(3) {
        cfg.names = gen::pool(&mut cx.rng);
    }
    let mut s = gen::generate(&mut cx.rng, &cfg);
    if super::sch::has_nan(&s) {
        return Err(Fail(SKIP.into()));
    }
    if cx.rng.bool() {
        enrich(&mut cx.rng, &mut s);
    }
    respell(&mut s);
    let parse = |t: &[String]| match guard(|| Context::parse(t)) {
        Ok(Ok(c)) => Some(c),
        _ => None,
    };
    let t1 = render::render(&s, &mut cx.rng, Layout::Plain);
    // whether it parses and means the right thing is for other properties to judge
    let want = snap_model(&s);
    let skip = || Fail(SKIP.into());
    let c1 = parse(&t1).ok_or_else(skip)?;
    let snap1 = snap_ctx(&c1, &s);
    if crate::ctx::diff(&want, &snap1).is_some() {
        return Err(skip());
    }
    let again = parse(&t1).ok_or_else(skip)?;
    ensure!(c1 == again && again == c1 && !(c1 != again), "contexts of the same text differ\n{}", super::sch::show(&t1));
    #[allow(clippy::eq_op)]
    let own = c1 == c1;
    ensure!(own, "a context differs from itself\n{}", super::sch::show(&t1));
    // references
    let refs: Vec<(TypeRef, usize)> = (0..s.types.len())
        .filter_map(|t| {
            c1.get_type(&s.types[t].full).map(|i| match i {
                TypeInfo::Message(m) => (TypeRef::Message(m.self_ref), t),
                TypeInfo::Enum(e) => (TypeRef::Enum(e.self_ref), t),
            })
        })
        .collect();
    for (_, t) in &refs {
        match c1.get_type(&s.types[*t].full) {
            Some(TypeInfo::Message(m)) => {
                for f in m.iter_fields() {
                    let ok = f.options.clone() == f.options && f.field_type.clone() == f.field_type && f.multiplicity.clone() == f.multiplicity;
                    ensure!(ok, "the parts of field {} of {} differ from their clones\n{}", f.name, m.full_name, super::sch::show(&t1));
                    for g in m.iter_fields() {
                        let of = |n: u64| s.msg(*t).fields.iter().find(|x| x.number == n);
                        let (i, j) = (of(f.number), of(g.number));
                        if let (Some(i), Some(j)) = (i, j) {
                            let same = i.ty == j.ty;
                            ensure!((f.field_type == g.field_type) == same, "the types of fields {} and {} of {} are {}\n{}", f.name, g.name, m.full_name, if same { "found different" } else { "found equal" }, super::sch::show(&t1));
                        }
                    }
                }
            }
            Some(TypeInfo::Enum(e)) => {
                if let Kind::Enum(m) = &s.types[*t].kind {
                    for v in m.values.iter().filter_map(|v| e.get_field_by_value(v.value)) {
                        let w = v.clone();
                        ensure!(w == *v && w.name == v.name && w.value == v.value, "value {} of {} differs from its clone", v.name, e.full_name);
                    }
                }
            }
            None => {}
        }
    }
    let set: HashSet<TypeRef> = refs.iter().map(|r| r.0).collect();
    ensure!(set.len() == refs.len(), "references of different types are equal\n{}", super::sch::show(&t1));
    for (r, t) in &refs {
        let r2 = match again.get_type(&s.types[*t].full) {
            Some(TypeInfo::Message(m)) => TypeRef::Message(m.self_ref),
            Some(TypeInfo::Enum(e)) => TypeRef::Enum(e.self_ref),
            None => return Err(skip()),
        };
        ensure!(*r == r2 && hash(r) == hash(&r2) && set.contains(&r2), "equal references differ in == or hash: {:?} {:?}", r, r2);
        cx.count("references compared");
    }
    for _ in 0..16 {
        let mut s2 = s.clone();
        let (what, stable) = match alter_schema(&mut cx.rng, &mut s2) {
            Some(w) => w,
            None => continue,
        };
        respell(&mut s2);
        let t2 = render::render(&s2, &mut cx.rng, Layout::Plain);
        let c2 = match parse(&t2) {
            Some(c) => c,
            None => {
                cx.count("changed files that do not parse");
                continue;
            }
        };
        let show = || format!("{}\n{}\n===== and\n{}", what, super::sch::show(&t1), super::sch::show(&t2));
        let snap2 = snap_ctx(&c2, &s2);
        if stable {
            if crate::ctx::diff(&snap_model(&s2), &snap2).is_some() {
                cx.count("changed files that do not mean what they say");
                continue;
            }
            if crate::ctx::diff(&snap1, &snap2).is_none() {
                // two options with equal names and values exchanged, say
                continue;
            }
        }
        ensure!(!(c1 == c2) && !(c2 == c1) && c1 != c2, "different contexts compare equal: {}", show());
        cx.count(what);
        if stable {
            for t in &s.types {
                let (a, b) = match (c1.get_type(&t.full), c2.get_type(&t.full)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                let same = snap1.get(&t.full) == snap2.get(&t.full);
                ensure!((a == b) == same && (a != b) != same, "{} of two contexts, {}: {}", t.full, if same { "equal but found different" } else { "different but found equal" }, show());
                if let (TypeInfo::Message(a), TypeInfo::Message(b)) = (a, b) {
                    if same {
                        for f in a.iter_fields() {
                            ensure!(b.get_field(f.number) == Some(f), "field {} of {} is found different: {}", f.name, t.full, show());
                        }
                    }
                }
            }
            for v in &s.services {
                if let (Some(a), Some(b)) = (c1.get_service(&v.full), c2.get_service(&v.full)) {
                    let same = snap1.get(&v.full) == snap2.get(&v.full);
                    ensure!((a == b) == same && (a != b) != same, "{} of two contexts, {}: {}", v.full, if same { "equal but found different" } else { "different but found equal" }, show());
                }
            }
        }
        // what is removed is removed from the text alone
        if stable && s2.services.is_empty() && !cfg.share_packages {
            let by = HandCfg {
                oneofs_last: false,
                reverse_fields: false,
            };
            if let Ok(Ok(h)) = guard(|| by_hand(&s2, by)) {
                ensure!(c1 != h && h != c1, "a parsed context equals a different one built by hand: {}", show());
                cx.count("compared with contexts built by hand");
            }
        }
        let mut id: Vec<u8> = t2.concat().into_bytes();
        id.extend(t1.concat().into_bytes());
        cx.eval(&id, true);
    }
    cx.sample(|| super::sch::show(&t1));
    Ok(())
}

pub fn c22(cx: &mut Cx) -> R {
    if cx.rng.bool() {
        contexts(cx)
    } else {
        values(cx)
    }
}

// --------------------------------------------------------------------------------------- C23

/// A difference of order: what is missing or too many is no matter of order.
fn reordered<T: Ord + Clone>(got: &[T], want: &[T]) -> bool {
    if got == want {
        return false;
    }
    let (mut g, mut w) = (got.to_vec(), want.to_vec());
    g.sort();
    w.sort();
    g == w
}

/// What a context lists, against the order of the text.
fn listed(c: &Context, s: &Schema) -> Result<u64, String> {
    let mut n = 0;
    let name = |t: &TypeRef| match t {
        TypeRef::Message(m) => c.resolve_message(*m).full_name.clone(),
        TypeRef::Enum(e) => c.resolve_enum(*e).full_name.clone(),
    };
    let options = |what: &str, got: &[ProtoOption], want: &[Opt]| -> Result<(), String> {
        let g: Vec<&str> = got.iter().map(|o| o.name.as_str()).collect();
        let w: Vec<&str> = want.iter().map(|o| o.name.as_str()).collect();
        if reordered(&g, &w) {
            return Err(format!("options of {}: expected {:?}, got {:?}", what, w, g));
        }
        Ok(())
    };
    for (i, ty) in s.types.iter().enumerate() {
        let m = match (&ty.kind, c.get_message(&ty.full)) {
            (Kind::Msg(_), Some(m)) => m,
            _ => continue,
        };
        let model = s.msg(i);
        let got: Vec<u64> = m.iter_fields().map(|f| f.number).collect();
        let mut want: Vec<u64> = model.fields.iter().map(|f| f.number).collect();
        want.sort_unstable();
        if reordered(&got, &want) {
            return Err(format!("fields of {}: expected {:?}, got {:?}", ty.full, want, got));
        }
        let want: Vec<String> = model.body.iter().filter_map(|i| if let Item::Type(t) = i { Some(s.types[*t].full.clone()) } else { None }).collect();
        let got: Vec<String> = m.inner_types.iter().map(name).collect();
        if reordered(&got, &want) {
            return Err(format!("inner types of {}: expected {:?}, got {:?}", ty.full, want, got));
        }
        let order: Vec<usize> = model.body.iter().filter_map(|i| if let Item::Oneof(o) = i { Some(*o) } else { None }).collect();
        let want: Vec<&str> = order.iter().map(|o| model.oneofs[*o].name.as_str()).collect();
        let got: Vec<&str> = m.oneofs.iter().map(|o| o.name.as_str()).collect();
        if reordered(&got, &want) {
            return Err(format!("oneofs of {}: expected {:?}, got {:?}", ty.full, want, got));
        }
        for o in &order {
            let g = match m.oneofs.iter().find(|g| g.name == model.oneofs[*o].name) {
                Some(g) => g,
                None => continue,
            };
            let mut want: Vec<u64> = model.fields.iter().filter(|f| f.oneof == Some(*o)).map(|f| f.number).collect();
            want.sort_unstable();
            if reordered(&g.fields, &want) {
                return Err(format!("fields of oneof {}.{}: expected {:?}, got {:?}", ty.full, g.name, want, g.fields));
            }
            options(&format!("oneof {}.{}", ty.full, g.name), &g.options, &model.oneofs[*o].opts)?;
            n += 1 + want.len() as u64;
        }
        for f in &model.fields {
            if let Some(g) = m.get_field(f.number) {
                options(&format!("field {}.{}", ty.full, f.name), &g.options, &f.opts)?;
            }
        }
        n += (model.fields.len() + model.body.len()) as u64;
    }
    for v in &s.services {
        let g = match c.get_service(&v.full) {
            Some(g) => g,
            None => continue,
        };
        options(&v.full, &g.options, &v.opts)?;
        let order: Vec<usize> = v.body.iter().filter_map(|i| if let Item::Rpc(r) = i { Some(*r) } else { None }).collect();
        let want: Vec<&str> = order.iter().map(|r| v.rpcs[*r].name.as_str()).collect();
        let got: Vec<&str> = g.rpcs.iter().map(|r| r.name.as_str()).collect();
        if reordered(&got, &want) {
            return Err(format!("rpcs of {}: expected {:?}, got {:?}", v.full, want, got));
        }
        for r in &order {
            let g = match g.rpcs.iter().find(|g| g.name == v.rpcs[*r].name) {
                Some(g) => g,
                None => continue,
            };
            options(&format!("rpc {}.{}", v.full, g.name), &g.options, &v.rpcs[*r].opts)?;
        }
        n += order.len() as u64;
    }
    Ok(n)
}

pub fn c23(cx: &mut Cx) -> R {
    let mut cfg = super::sch::cfg_for(cx);
    cfg.aliases = false;
    cfg.huge_numbers = cx.rng.one_in(3);
    if cx.rng.one_in(3) {
        cfg.names = gen::pool(&mut cx.rng);
    }
    cfg.services = !cx.rng.one_in(4);
    cfg.share_packages = cx.rng.bool();
    let mut s = gen::generate(&mut cx.rng, &cfg);
    for round in 0..3 {
        if round > 0 {
            super::sch::permute(&mut cx.rng, &mut s);
        }
        let layout = if cx.rng.bool() { Layout::Plain } else { Layout::Wild };
        let t = render::render(&s, &mut cx.rng, layout);
        let c = match guard(|| Context::parse(&t)) {
            Ok(Ok(c)) => c,
            _ => {
                cx.count("files that do not parse");
                continue;
            }
        };
        let n = listed(&c, &s).map_err(|x| Fail(format!("{}\n{}", x, super::sch::show(&t))))?;
        // and again, after use
        if round == 0 {
            for t in s.messages().into_iter().take(3) {
                if let Some(m) = c.get_message(&s.types[t].full) {
                    let p = any_payload(&mut cx.rng, &s, t);
                    if let Ok(v) = guard(|| m.decode(&p, &c)) {
                        let _ = guard(|| v.encode(&c));
                    }
                }
            }
            listed(&c, &s).map_err(|x| Fail(format!("after use: {}\n{}", x, super::sch::show(&t))))?;
        }
        cx.add("listed members compared", n);
        let id: Vec<u8> = t.concat().into_bytes();
        cx.eval(&id, n > 3);
        cx.sample(|| super::sch::show(&t));
        if s.services.is_empty() && !cfg.share_packages && cx.rng.bool() {
            let by = HandCfg {
                oneofs_last: cx.rng.bool(),
                reverse_fields: cx.rng.bool(),
            };
            if let Ok(Ok(h)) = guard(|| by_hand(&s, by)) {
                listed(&h, &s).map_err(|x| Fail(format!("built by hand: {}\n{}", x, super::sch::show(&t))))?;
                cx.count("contexts built by hand");
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C24

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this thread in nanoseconds.
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

/// The least time of some runs, in nanoseconds.
fn least<T>(runs: usize, mut f: impl FnMut() -> T) -> u64 {
    let mut best = u64::MAX;
    let mut all = 0;
    for _ in 0..runs {
        let t = cpu();
        let r = f();
        let d = cpu() - t;
        drop(r);
        best = best.min(d);
        all += d;
        if all > 300_000_000 {
            break;
        }
    }
    best
}

const SMALL: usize = 1 << 10;
const FACTOR: usize = 256;
const TINY: usize = 256;
/// What a byte of a tiny payload may cost, in nanoseconds.
const TINY_BOUND: u64 = 5000;
/// How much more a byte of a long payload may cost than one of a short payload.
const SLACK: u64 = 14;
/// What a byte may always cost, in nanoseconds.
const FLOOR: u64 = 200;

/// A payload of about `n` bytes of one shape.
struct Shape {
    what: &'static str,
    unit: Vec<u8>,
    /// Put the repetitions into this many levels of nested messages of this number.
    nest: usize,
    number: u64,
    /// Cut off at the end.
    cut: usize,
    /// The repetitions are the content of one value with this tag.
    tag: Option<Vec<u8>>,
    /// Precedes everything.
    head: Vec<u8>,
    /// The second half is made of this.
    second: Vec<u8>,
    /// Every repetition has another field number.
    distinct: bool,
    /// At the end of every level.
    tail: Vec<u8>,
}

impl Shape {
    fn build(&self, n: usize) -> Vec<u8> {
        let k = (n / self.unit.len().max(1)).max(1);
        let mut p = vec![];
        if self.distinct {
            let mut number = 1u64;
            while p.len() < n {
                put_varint(&mut p, number << 3);
                p.extend_from_slice(&[0x80, 0x01]);
                number += 1;
            }
        } else if self.second.is_empty() {
            p = self.unit.repeat(k);
        } else {
            p = self.unit.repeat((k / 2).max(1));
            p.extend(self.second.repeat((n / 2 / self.second.len()).max(1)));
        }
        let wrap = |p: &mut Vec<u8>, tag: &[u8]| {
            let mut o = tag.to_vec();
            put_varint(&mut o, p.len() as u64);
            o.extend_from_slice(p);
            *p = o;
        };
        if let Some(t) = &self.tag {
            wrap(&mut p, t);
        }
        let mut tag = vec![];
        put_varint(&mut tag, self.number << 3 | 2);
        for _ in 0..self.nest {
            p.extend_from_slice(&self.tail);
            wrap(&mut p, &tag);
        }
        p.extend_from_slice(&self.tail);
        let mut o = self.head.clone();
        o.extend(p);
        let l = o.len() - self.cut.min(o.len());
        o.truncate(l);
        o
    }
}

fn shape(rng: &mut Rng, s: &Schema, t: Tid) -> Shape {
    let fields = &s.msg(t).fields;
    let tag = |n: u64, w: u8| {
        let mut o = vec![];
        put_varint(&mut o, n << 3 | w as u64);
        o
    };
    let f = rng.pick(fields).clone();
    let number = if rng.one_in(4) { undeclared(rng, s, t) } else { f.number };
    let mut sh = Shape {
        what: "",
        unit: vec![],
        nest: 0,
        number: self_nested(s).filter(|x| x.0 == t).map(|x| x.1).unwrap_or(3),
        cut: 0,
        tag: None,
        head: vec![],
        second: vec![],
        distinct: false,
        tail: vec![],
    };
    match rng.below(12) {
        0 => {
            sh.what = "one small field again and again";
            let v = ValGen::new(s).value(rng, &f, 3);
            let mut m = RMsg::new(t);
            m.fields.push((f.number, v));
            sh.unit = encode(&m);
        }
        1 => {
            sh.what = "one long value";
            let k = rng.range(1, 5);
            sh.unit = rng.bytes(k);
            sh.tag = Some(tag(number, 2));
        }
        2 => {
            sh.what = "one long run of small elements";
            sh.unit = match rng.below(4) {
                0 => vec![rng.below(128) as u8],
                1 => vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
                2 => vec![0x80, 1],
                _ => rng.bytes(8),
            };
            sh.tag = Some(tag(number, 2));
        }
        3 => {
            sh.what = "one message again and again";
            let m = any_msg(rng, s, t, 3);
            sh.unit = encode(&m);
        }
        4 => {
            sh.what = "empty or tiny values again and again";
            sh.unit = tag(number, 2);
            let k = rng.below(3);
            sh.unit.push(k as u8);
            sh.unit.extend(rng.bytes(k));
        }
        5 => {
            sh.what = "unknown values again and again";
            let w = *rng.pick(&[0u8, 1, 2, 5]);
            let n = undeclared(rng, s, t);
            let mut m = RMsg::new(t);
            m.fields.push((n, gen_unknown(rng, w, false)));
            sh.unit = encode(&m);
        }
        8 | 9 => {
            sh.what = "one field again and again, then another";
            let g = rng.pick(fields).clone();
            for (f, second) in [(&f, false), (&g, true)] {
                let v = ValGen::new(s).value(rng, f, 3);
                let mut m = RMsg::new(t);
                m.fields.push((f.number, v));
                let mut e = encode(&m);
                e.truncate(SMALL / 4);
                if second {
                    sh.second = e;
                } else {
                    sh.unit = e;
                }
            }
        }
        10 => {
            sh.what = "fields of different numbers";
            sh.distinct = true;
        }
        6 => {
            sh.what = "different fields again and again";
            let m = gen_msg(rng, s, t);
            sh.unit = encode(&m);
        }
        7 => {
            sh.what = "damaged messages again and again";
            let m = gen_msg(rng, s, t);
            let p = encode(&m);
            let d = damage(rng, s, t, &p, &p);
            sh.unit = tag(number, 2);
            put_varint(&mut sh.unit, d.len() as u64);
            sh.unit.extend(d);
        }
        _ => {
            sh.what = "random bytes again and again";
            let k = rng.range(1, 30);
            sh.unit = rng.bytes(k);
        }
    }
    if sh.unit.is_empty() {
        sh.unit = vec![0x08, 0x01];
    }
    if sh.unit.len() > SMALL / 4 {
        sh.unit.truncate(SMALL / 4);
    }
    if rng.one_in(3) {
        sh.nest = rng.range(1, 24);
    }
    if rng.one_in(4) {
        sh.tail = match rng.below(5) {
            // no tag
            0 => vec![0x80],
            // a string, or message, or array that is not there
            1 => {
                let mut t = tag(number, 2);
                t.push(100);
                t
            }
            // no wire type
            2 => tag(number, *rng.pick(&[3, 4, 6, 7])),
            // half a number
            3 => {
                let mut t = tag(f.number, match f.ty {
                    Ty::S(k) => k.wire(),
                    Ty::T(t) => match s.types[t].kind {
                        Kind::Enum(_) => 0,
                        Kind::Msg(_) => 2,
                    },
                });
                t.push(0x81);
                t
            }
            _ => {
                let k = rng.range(1, 9);
                rng.bytes(k)
            }
        };
    }
    if rng.one_in(4) {
        sh.cut = rng.range(1, 12);
    }
    if rng.one_in(6) {
        // something that claims to be long
        sh.head = tag(number, *rng.pick(&[2, 2, 3, 4]));
        put_varint(&mut sh.head, rng.weird());
    }
    sh
}

pub fn c24(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::wire();
    cfg.min_fields = 6;
    cfg.fields = 30;
    let mut s = gen::generate(&mut cx.rng, &cfg);
    let t = *cx.rng.pick(&s.messages());
    nest(&mut cx.rng, &mut s, t);
    let hand = cx.rng.one_in(4);
    let e = env_of(cx, s, hand)?;
    for _ in 0..5 {
        let sh = shape(&mut cx.rng, &e.s, t);
        // levels of nesting one after another: what doubles with each level shows before it takes forever
        for levels in (1..=sh.nest).filter(|l| l % 2 == 0) {
            let tiny = Shape { nest: levels, unit: sh.unit.clone(), tag: sh.tag.clone(), head: sh.head.clone(), second: sh.second.clone(), tail: sh.tail.clone(), ..sh }.build(TINY);
            let mut took = 0;
            for attempt in 0..6 {
                took = guard(|| least(2 + attempt, || e.c.decode(t, &tiny))).unwrap_or(0);
                if let Ok(v) = guard(|| e.c.decode(t, &tiny)) {
                    took = took.max(guard(|| least(2 + attempt, || v.encode(&e.c.ctx))).unwrap_or(0));
                }
                if took / tiny.len() as u64 <= TINY_BOUND {
                    break;
                }
            }
            cx.max("nanoseconds per byte of tiny payloads", took / tiny.len() as u64);
            ensure!(
                took / tiny.len() as u64 <= TINY_BOUND,
                "{}: {} bytes nested {} times take {} ns to decode and encode; unit {}, message {}",
                sh.what,
                tiny.len(),
                levels,
                took,
                hex(&sh.unit),
                e.s.types[t].full
            );
            cx.count("levels of nesting compared");
        }
        let small = sh.build(SMALL);
        // what is quadratic shows at a middle size before it takes long
        for factor in [FACTOR / 8, FACTOR * 3 / 8, FACTOR] {
            let large = sh.build(SMALL * factor);
            let a = match guard(|| e.c.decode(t, &small)) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let b = match guard(|| e.c.decode(t, &large)) {
                Ok(v) => v,
                Err(_) => continue,
            };
            for (op, levels) in [("decoding", 1u64), ("encoding", 1 + sh.nest as u64)] {
                let once = |v: &MessageValue, p: &[u8], runs: usize| -> u64 {
                    let r = if op == "decoding" {
                        guard(|| least(runs, || e.c.decode(t, p)))
                    } else {
                        guard(|| least(runs, || v.encode(&e.c.ctx)))
                    };
                    r.unwrap_or(0)
                };
                let mut judged = None;
                // a busy machine makes single measurements long, never short
                for attempt in 0..6 {
                    let lo = once(&a, &small, 3 + 4 * attempt);
                    let hi = once(&b, &large, 1 + 2 * attempt);
                    let per_lo = lo / small.len() as u64;
                    let per_hi = hi / large.len() as u64;
                    // each level of nesting may be copied into the one around it
                    let bound = SLACK * (per_lo + 1) + FLOOR + if levels > 1 { 4 * levels } else { 0 };
                    judged = Some((per_lo, per_hi, bound));
                    if per_hi <= bound {
                        break;
                    }
                    cx.count("measurements repeated");
                    if attempt > 0 && per_hi > 3 * bound || per_hi > 10 * bound {
                        break;
                    }
                }
                if let Some((lo, hi, bound)) = judged {
                    cx.max(&format!("nanoseconds per byte of {}", op), hi);
                    ensure!(
                        hi <= bound,
                        "{}: {} takes {} ns per byte for {} bytes, against {} ns for {} (bound {}); nested {} times, unit {}, message {}",
                        sh.what,
                        op,
                        hi,
                        large.len(),
                        lo,
                        small.len(),
                        bound,
                        sh.nest,
                        hex(&sh.unit),
                        e.s.types[t].full
                    );
                    cx.count(sh.what);
                }
            }
            cx.max("payload bytes", large.len() as u64);
        }
        cx.eval(&small, true);
        cx.sample(|| format!("{} (nested {} times, {} bytes cut): {}", sh.what, sh.nest, sh.cut, hex(&sh.unit)));
    }
    Ok(())
}
