//! Decoding and encoding.

use crate::alloc;
use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::render;
use crate::rng::Rng;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;
use std::collections::HashMap;

pub struct Env {
    pub s: Schema,
    pub c: Ctx,
    pub w: WSchema,
    pub texts: Vec<String>,
}

/// A schema to decode with and its context, parsed or built by hand.
pub fn env(cx: &mut Cx, cfg: &gen::Cfg) -> R<Env> {
    let mut s = gen::generate(&mut cx.rng, cfg);
    if cx.rng.bool() {
        let t = *cx.rng.pick(&s.messages());
        nest(&mut cx.rng, &mut s, t);
    }
    let hand = cx.rng.one_in(3);
    env_of(cx, s, hand)
}

/// Makes a message contain itself.
pub fn nest(rng: &mut Rng, s: &mut Schema, t: Tid) {
    let full = s.types[t].full.clone();
    let m = s.msg_mut(t);
    if m.fields.iter().any(|f| f.ty == Ty::T(t)) {
        return;
    }
    let nums = m.fields.iter().map(|f| (f.number, ())).collect();
    let number = if m.fields.iter().all(|f| f.number != 3) { 3 } else { gen::field_number(rng, &nums, false) };
    let i = m.fields.len();
    m.fields.push(Field {
        name: "self_nested".into(),
        number,
        ty: Ty::T(t),
        mult: if rng.one_in(3) { Mult::Repeated } else { Mult::Single },
        opts: vec![],
        oneof: None,
        spelling: format!(".{}", full),
        num_lit: number.to_string(),
    });
    m.body.push(Item::Field(i));
}

/// How often a case looks at values of unusual size.
pub fn at_scale(cx: &mut Cx) -> bool {
    !cfg!(miri) && cx.rng.one_in(if cx.tier == Tier::Thorough { 25 } else { 12 })
}

/// A message of unusual size.
pub fn huge(cx: &mut Cx, s: &Schema) -> RMsg {
    let t = pick_msg(&mut cx.rng, s);
    let m = scaled(&mut cx.rng, s, t);
    cx.count("values of unusual size");
    cx.max("fields of a message", m.fields.len() as u64);
    let mut depth = 0;
    let mut at = &m;
    while let Some(sub) = at.fields.iter().find_map(|f| if let RV::Msg(x) = &f.1 { Some(x) } else { None }) {
        depth += 1;
        at = sub;
    }
    cx.max("nesting", depth);
    m
}

pub fn env_of(cx: &mut Cx, s: Schema, hand: bool) -> R<Env> {
    let texts = render::render(&s, &mut cx.rng, render::Layout::Plain);
    cx.note(|| texts.join("\n-----\n"));
    let by = HandCfg {
        oneofs_last: cx.rng.bool(),
        reverse_fields: cx.rng.bool(),
    };
    // Whether contexts are right is for other properties to decide; what is needed here is one
    // that describes the schema.
    let want = snap_model(&s);
    let right = |c: Context| if crate::ctx::diff(&want, &snap_ctx(&c, &s)).is_none() { Some(c) } else { None };
    let built = || guard(|| by_hand(&s, by)).ok().and_then(|r| r.ok()).and_then(right);
    let parsed = || guard(|| Context::parse(&texts)).ok().and_then(|r| r.ok()).and_then(right);
    // the parser calls assembly, which Miri does not run
    let ctx = if cfg!(miri) {
        built()
    } else if hand {
        built().or_else(parsed)
    } else {
        parsed().or_else(built)
    };
    let ctx = match ctx {
        Some(c) => c,
        None => {
            cx.count("cases without a context that describes their schema");
            return Err(Fail(SKIP.into()));
        }
    };
    cx.count("contexts");
    let c = Ctx::attach(ctx, &s).map_err(|_| Fail(SKIP.into()))?;
    let w = WSchema::new(&s);
    Ok(Env { s, c, w, texts })
}

fn wire_cfg(cx: &mut Cx) -> gen::Cfg {
    let mut cfg = gen::Cfg::wire();
    cfg.huge_numbers = cx.rng.one_in(4);
    if cx.rng.one_in(5) {
        cfg.fields = 40;
        cfg.min_fields = 20;
    }
    cfg
}

pub fn pick_msg(rng: &mut Rng, s: &Schema) -> Tid {
    let ms = s.messages();
    let a = *rng.pick(&ms);
    let b = *rng.pick(&ms);
    // prefer messages with members
    if s.msg(a).fields.len() >= s.msg(b).fields.len() {
        a
    } else {
        b
    }
}

fn show(s: &Schema, m: &RMsg) -> String {
    let t = &s.types[m.tid].full;
    let mut o = format!("{:?}", m);
    if o.len() > 1200 {
        let mut n = 1200;
        while !o.is_char_boundary(n) {
            n -= 1;
        }
        o.truncate(n);
    }
    format!("{} {}", t, o)
}

/// Where two values differ.
pub fn diff(a: &RMsg, b: &RMsg) -> Option<String> {
    if a.tid != b.tid {
        return Some(format!("type {} vs {}", a.tid, b.tid));
    }
    for (i, (x, y)) in a.fields.iter().zip(&b.fields).enumerate() {
        if x != y {
            if let ((n, RV::Msg(x)), (m, RV::Msg(y))) = (x, y) {
                if n == m {
                    return diff(x, y).map(|d| format!("field {} (#{}): {}", i, n, d));
                }
            }
            let cut = |v: &(u64, RV)| {
                let mut s = format!("{:?}", v);
                if s.len() > 300 {
                    let mut n = 300;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                }
                s
            };
            return Some(format!("field {}: expected {}, got {}", i, cut(x), cut(y)));
        }
    }
    if a.fields.len() != b.fields.len() {
        return Some(format!(
            "expected {} fields, got {}; first extra {:.300?}",
            a.fields.len(),
            b.fields.len(),
            a.fields.get(b.fields.len()).or_else(|| b.fields.get(a.fields.len()))
        ));
    }
    if a.garbage != b.garbage {
        return Some(format!("expected garbage {:.200?}, got {:.200?}", a.garbage, b.garbage));
    }
    None
}

impl Env {
    pub fn decode(&self, t: Tid, p: &[u8]) -> R<MessageValue> {
        call("decode", || self.c.decode(t, p)).map_err(|f| Fail(format!("{} on {} payload {}", f.0, self.s.types[t].full, hex(p))))
    }
    pub fn lifted(&self, t: Tid, p: &[u8]) -> R<RMsg> {
        let v = self.decode(t, p)?;
        self.c.lift(&v).map_err(|e| Fail(format!("{}: payload {}", e, hex(p))))
    }
    pub fn encode(&self, v: &MessageValue) -> R<Vec<u8>> {
        call("encode", || v.encode(&self.c.ctx).to_vec())
    }
}

// --------------------------------------------------------------------------------------- C01

/// Large payloads that hurt careless decoders.
pub fn hostile(rng: &mut Rng, s: &Schema, tid: Tid, size: usize) -> Vec<u8> {
    let fields = &s.msg(tid).fields;
    let find = |p: &dyn Fn(&Field) -> bool| fields.iter().find(|f| p(f)).map(|f| f.number);
    let any = if fields.is_empty() { 1 } else { rng.pick(fields).number };
    let mut p = vec![];
    let wt_of = |n: u64| {
        fields
            .iter()
            .find(|f| f.number == n)
            .map(|f| match f.ty {
                Ty::S(k) => k.wire(),
                Ty::T(t) if s.is_msg(t) => 2,
                _ => 0,
            })
            .unwrap_or(0)
    };
    match rng.below(16) {
        0 => {
            // tiny fields of one kind
            let wt = wt_of(any);
            while p.len() < size {
                put_varint(&mut p, any << 3 | wt as u64);
                match wt {
                    0 => p.push(rng.next() as u8 & 0x7f),
                    1 => p.extend_from_slice(&rng.next().to_le_bytes()),
                    5 => p.extend_from_slice(&(rng.next() as u32).to_le_bytes()),
                    _ => p.push(0),
                }
            }
        }
        1 => p = vec![*rng.pick(&[0x80u8, 0xff, 0x81, 0xfe]); size],
        2 => {
            // tags that claim a length beyond the end
            while p.len() < size {
                put_varint(&mut p, any << 3 | 2);
                put_varint(&mut p, *rng.pick(&[1u64 << 31, 1 << 32, 1 << 62, u64::MAX, 1 << 40, size as u64]));
            }
        }
        3 => {
            // empty nested messages
            let n = find(&|f| matches!(f.ty, Ty::T(t) if s.is_msg(t))).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                p.push(0);
            }
        }
        4 => {
            // one large packed array
            let n = find(&|f| f.mult == Mult::Repeated && matches!(f.ty, Ty::S(k) if k.numeric())).unwrap_or(any);
            put_varint(&mut p, n << 3 | 2);
            put_varint(&mut p, size as u64);
            let b = rng.next() as u8 & 0x7f;
            p.extend(vec![b; size]);
        }
        5 => {
            // many empty packed arrays
            let n = find(&|f| f.mult == Mult::Repeated && matches!(f.ty, Ty::S(k) if k.numeric())).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                p.push(0);
            }
        }
        6 => {
            // many broken packed arrays
            let n = find(&|f| f.mult == Mult::Repeated && matches!(f.ty, Ty::S(k) if k.numeric())).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                let l = rng.range(1, 7);
                p.push(l as u8);
                p.extend(vec![0x80; l]);
            }
        }
        7 => p = rng.bytes(size),
        8 => {
            // one large delimited value
            put_varint(&mut p, any << 3 | 2);
            put_varint(&mut p, size as u64);
            let b = rng.bytes(size);
            p.extend(b);
        }
        9 => {
            // truncated unknown values that start over and over
            let tag = rng.pick(&[0u8, 1, 2, 5]) | 0x78;
            while p.len() < size {
                p.push(tag);
                p.push(*rng.pick(&[0x80, 0xff, 0x78]));
            }
        }
        10 => {
            // zero tags, group tags
            let b = *rng.pick(&[0u8, 3, 4, 6, 7, 0x0b, 0x0c]);
            p = vec![b; size];
        }
        11 => {
            // broken nested messages
            let n = find(&|f| matches!(f.ty, Ty::T(t) if s.is_msg(t))).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                let l = rng.range(1, 12);
                p.push(l as u8);
                let b = rng.bytes(l);
                p.extend(b);
            }
        }
        12 => {
            // as deep as the schema goes with the same field all the way
            if let Some(f) = fields.iter().find(|f| f.ty == Ty::T(tid)) {
                let depth = rng.range(2, 64);
                p = rng.bytes(size / 2);
                for _ in 0..depth {
                    let mut q = vec![];
                    put_varint(&mut q, f.number << 3 | 2);
                    put_varint(&mut q, p.len() as u64);
                    q.extend_from_slice(&p);
                    p = q;
                }
            } else {
                p = soup(rng, s, tid, 12);
            }
        }
        13 => {
            while p.len() < size {
                let b = soup(rng, s, tid, 20);
                p.extend(b);
            }
        }
        14 => {
            // small packed arrays of one element
            let n = find(&|f| f.mult == Mult::Repeated && matches!(f.ty, Ty::S(k) if k.numeric())).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                p.push(1);
                p.push(rng.next() as u8 & 0x7f);
            }
        }
        _ => {
            // strings of one byte, some invalid
            let n = find(&|f| f.ty == Ty::S(K::String)).unwrap_or(any);
            while p.len() < size {
                put_varint(&mut p, n << 3 | 2);
                p.push(1);
                p.push(rng.next() as u8);
            }
        }
    }
    if rng.one_in(4) {
        let n = rng.below(p.len() + 1);
        p.truncate(n);
    }
    p
}

pub fn c01(cx: &mut Cx) -> R {
    if cx.rng.one_in(40) {
        return c01_deep(cx);
    }
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..30 {
        let mut t = if cx.rng.one_in(3) {
            let ms = e.s.messages();
            *cx.rng.pick(&ms)
        } else {
            pick_msg(&mut cx.rng, &e.s)
        };
        let p = if i == 1 && big {
            let m = huge(cx, &e.s);
            t = m.tid;
            let p = encode(&m);
            if cx.rng.one_in(3) {
                p
            } else {
                damage(&mut cx.rng, &e.s, t, &p, &[0x80; 20])
            }
        } else if i == 0 && cx.rng.one_in(4) {
            let n = 1 << cx.rng.range(6, 17);
            hostile(&mut cx.rng, &e.s, t, n)
        } else if cx.rng.one_in(6) {
            let m = gen_msg(&mut cx.rng, &e.s, t);
            let m = nested_damage(&mut cx.rng, &e.s, &m);
            encode(&m)
        } else {
            any_payload(&mut cx.rng, &e.s, t)
        };
        c01_check(cx, &e, t, &p)?;
    }
    // the tag space, one declared or undeclared number at a time, with short tails
    let t = pick_msg(&mut cx.rng, &e.s);
    let nums: Vec<u64> = e.s.msg(t).fields.iter().map(|f| f.number).chain([0, 1, (1 << 61) - 1]).collect();
    let n = *cx.rng.pick(&nums);
    for wt in 0..8u64 {
        let k = cx.rng.below(14);
        let mut p = varint(n << 3 | wt);
        let b = cx.rng.bytes(k);
        p.extend(b);
        c01_check(cx, &e, t, &p)?;
    }
    Ok(())
}

/// Levels of nesting; printing deep values with indentation takes very long.
fn depth(m: &MessageValue) -> usize {
    m.fields
        .iter()
        .map(|f| if let Value::Message(m) = &f.value { 1 + depth(m) } else { 0 })
        .max()
        .unwrap_or(0)
}

fn c01_check(cx: &mut Cx, e: &Env, t: Tid, p: &[u8]) -> R {
    let v = e.decode(t, p)?;
    ensure!(
        v.msg_ref == e.c.msg[&t],
        "decoding {} returned a value of another message; payload {}",
        e.s.types[t].full,
        hex(p)
    );
    let ctx = &e.c.ctx;
    let by_info = call("MessageInfo::decode", || ctx.resolve_message(e.c.msg[&t]).decode(p, ctx))?;
    call("using the decoded value", || {
        let _ = v.encode(ctx);
        let c = v.clone();
        let _ = c == v;
        let _ = by_info == v;
        if p.len() < 5000 {
            let _ = format!("{:?}", v);
            if depth(&v) < 40 {
                let _ = format!("{:#?}", v);
            }
        }
    })
    .map_err(|f| Fail(format!("{} on {} payload {}", f.0, e.s.types[t].full, hex(p))))?;
    let damaged = v.garbage.is_some() || v.fields.iter().any(|f| matches!(f.value, Value::Incomplete(..) | Value::Unknown(_)));
    if damaged {
        cx.count("damaged payloads");
    }
    for f in &v.fields {
        match &f.value {
            Value::Incomplete(..) => cx.count("incomplete values"),
            Value::Unknown(UnknownValue::Invalid(..)) => cx.count("invalid values"),
            Value::Unknown(_) => cx.count("unknown values"),
            Value::Message(_) => cx.count("nested messages"),
            Value::Packed(_) => cx.count("packed arrays"),
            _ => cx.count("plain values"),
        }
    }
    if v.garbage.is_some() {
        cx.count("garbage");
    }
    cx.add("payload bytes", p.len() as u64);
    cx.eval(p, !p.is_empty());
    cx.sample(|| format!("{} <- {}", e.s.types[t].full, hex(p)));
    Ok(())
}

/// Nesting up to some hundred levels; more than that exhausts small stacks (known finding).
fn c01_deep(cx: &mut Cx) -> R {
    let c = call("parsing", || {
        Context::parse(&["syntax = \"proto3\"; message M { M m = 1; repeated int32 p = 2; string s = 3; repeated M r = 4; }"])
    })?
    .map_err(|e| Fail(e.to_string()))?;
    let r = c.get_message("M").unwrap().self_ref;
    for _ in 0..3 {
        let depth = cx.rng.range(2, 300);
        let k = cx.rng.below(20);
        let mut p = cx.rng.bytes(k);
        for _ in 0..depth {
            let mut q = vec![*cx.rng.pick(&[0x0au8, 0x22])];
            let mut l = p.len() as u64;
            if cx.rng.one_in(300) {
                l = cx.rng.weird();
            }
            put_varint(&mut q, l);
            q.extend(p);
            p = q;
            if cx.rng.one_in(40) {
                p.extend([0x12, 2, 1, 1]);
            }
        }
        let v = call("decode", || c.decode(r, &p)).map_err(|f| Fail(format!("{}: nested payload {}", f.0, hex(&p))))?;
        ensure!(v.msg_ref == r, "decoding returned a value of another message");
        call("using the decoded value", || {
            let b = v.encode(&c);
            let _ = v.clone() == v;
            let _ = format!("{:?}", v);
            b
        })?;
        cx.eval(&p, true);
        cx.max("nesting", depth as u64);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C02

fn with_unknowns(rng: &mut Rng, s: &Schema, m: &RMsg, big: bool) -> RMsg {
    weave(m, &plan(rng, s, m, big, 3))
}

fn big_msg(rng: &mut Rng, s: &Schema, t: Tid) -> RMsg {
    let mut g = ValGen::new(s);
    g.big = true;
    g.budget = 40;
    g.msg(rng, t, 0)
}

pub fn c02(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..30 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let p = match if i == 0 && big { 8 } else { cx.rng.below(8) } {
            0 | 1 => any_payload(&mut cx.rng, &e.s, t),
            8 => {
                let m = huge(cx, &e.s);
                t = m.tid;
                let m = if cx.rng.bool() { with_unknowns(&mut cx.rng, &e.s, &m, true) } else { m };
                let mut p = encode(&m);
                if cx.rng.one_in(3) {
                    let n = cx.rng.below(p.len() + 1);
                    p.truncate(n);
                }
                p
            }
            2 => {
                let m = gen_msg(&mut cx.rng, &e.s, t);
                let m = with_unknowns(&mut cx.rng, &e.s, &m, false);
                let m = nested_damage(&mut cx.rng, &e.s, &m);
                encode(&m)
            }
            3 if i < 2 => {
                let n = 1 << cx.rng.range(4, 13);
                hostile(&mut cx.rng, &e.s, t, n)
            }
            4 => {
                // a cut anywhere
                let m = gen_msg(&mut cx.rng, &e.s, t);
                let mut p = encode(&m);
                let n = cx.rng.below(p.len() + 1);
                p.truncate(n);
                p
            }
            5 => {
                // an intact payload with something broken at the end
                let m = gen_msg(&mut cx.rng, &e.s, t);
                let mut p = encode(&m);
                let b = soup(&mut cx.rng, &e.s, t, 2);
                p.extend(b);
                if cx.rng.bool() {
                    let n = p.len() - cx.rng.below(4).min(p.len());
                    p.truncate(n);
                }
                p
            }
            _ => {
                let m = if i == 2 { big_msg(&mut cx.rng, &e.s, t) } else { gen_msg(&mut cx.rng, &e.s, t) };
                let m = with_unknowns(&mut cx.rng, &e.s, &m, i == 2);
                encode(&m)
            }
        };
        let v = e.decode(t, &p)?;
        let b = e.encode(&v)?;
        let canonical = encode(&e.w.decode(t, &p)) == p;
        if canonical {
            cx.count("canonical payloads");
            ensure!(
                b == p,
                "canonical payload of {} changed by decode and encode:\n {}\n {}",
                e.s.types[t].full,
                hex(&p),
                hex(&b)
            );
            if v.garbage.is_some() {
                cx.count("canonical with garbage");
            }
            if v.fields.iter().any(|f| matches!(f.value, Value::Incomplete(..))) {
                cx.count("canonical with incomplete values");
            }
        } else {
            cx.count("other payloads");
            let first = e.c.lift(&v)?;
            let second = e.lifted(t, &b)?;
            if let Some(d) = self::diff(&first, &second) {
                return Err(Fail(format!(
                    "re-encoded payload of {} decodes to another value: {}\n payload    {}\n re-encoded {}",
                    e.s.types[t].full,
                    d,
                    hex(&p),
                    hex(&b)
                )));
            }
        }
        cx.eval(&p, !p.is_empty());
        cx.sample(|| format!("{} <- {}", e.s.types[t].full, hex(&p)));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C03

fn count_kinds(cx: &mut Cx, m: &RMsg) {
    for (_, v) in &m.fields {
        match v {
            RV::Num(k, _) => cx.count(k.name()),
            RV::Packed(k, _) => cx.count(&format!("packed {}", k.name())),
            RV::Str(_) => cx.count("string"),
            RV::Bytes(_) => cx.count("bytes"),
            RV::Enum(..) => cx.count("enum"),
            RV::Msg(m) => {
                cx.count("message");
                count_kinds(cx, m)
            }
            _ => {}
        }
    }
}

/// Changes one value a little.
fn tweak(rng: &mut Rng, m: &mut RMsg) {
    if m.fields.is_empty() {
        return;
    }
    let i = rng.below(m.fields.len());
    match &mut m.fields[i].1 {
        RV::Msg(s) => tweak(rng, s),
        RV::Num(_, v) => *v ^= 1,
        RV::Str(s) => {
            if let Some(c) = s.pop() {
                let d = if c.is_ascii() { ((c as u8 + 1) & 0x7f) as char } else { c };
                s.push(d);
            }
        }
        RV::Bytes(b) => {
            if !b.is_empty() {
                let j = rng.below(b.len());
                b[j] ^= 0x10;
            }
        }
        RV::Packed(k, vs) => {
            if let Some(v) = vs.last_mut() {
                if k.wire() == 0 && *k != K::Bool {
                    *v = if *v == 7 { 8 } else { 7 };
                } else {
                    *v ^= 1;
                }
            }
        }
        RV::Enum(_, v) => *v = if *v == 1 { 2 } else { 1 },
        _ => {}
    }
}

pub fn c03(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    // A buffer that is used again and again, as readers do: what is decoded must be what is in
    // it now.
    let mut buf: Vec<u8> = Vec::with_capacity(1 << 16);
    let mut last: Option<RMsg> = None;
    for i in 0..30 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let m = match last.take() {
            Some(mut m) if cx.rng.one_in(3) => {
                tweak(&mut cx.rng, &mut m);
                t = m.tid;
                cx.count("payloads that differ from the one before in one value");
                m
            }
            _ if i == 0 && big => {
                let m = huge(cx, &e.s);
                t = m.tid;
                m
            }
            _ if i == 0 => big_msg(&mut cx.rng, &e.s, t),
            _ => gen_msg(&mut cx.rng, &e.s, t),
        };
        let sloppy = cx.rng.one_in(3);
        let p = if sloppy { encode_sloppy(&m, &mut cx.rng) } else { encode(&m) };
        buf.clear();
        buf.extend_from_slice(&p);
        let got = e.lifted(t, &buf)?;
        if let Some(d) = self::diff(&m, &got) {
            return Err(Fail(format!("{}: {}\n payload {}", e.s.types[t].full, d, hex(&p))));
        }
        cx.count(if sloppy { "payloads with non-minimal varints" } else { "canonical payloads" });
        cx.add("values", m.fields.len() as u64);
        count_kinds(cx, &m);
        cx.eval(&p, !m.fields.is_empty());
        cx.sample(|| format!("{} <- {}", show(&e.s, &m), hex(&p)));
        last = Some(m);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C04

/// Any value that the wire format can represent, whether or not it fits its message type.
pub fn any_msg(rng: &mut Rng, s: &Schema, tid: Tid, depth: usize) -> RMsg {
    let mut m = RMsg::new(tid);
    let ms = s.messages();
    let es = s.enums();
    for _ in 0..rng.below(7) {
        let n = match rng.below(4) {
            0 => rng.weird() >> 3,
            1 => *rng.pick(&[0, 1, 15, 16, 2047, 2048, (1 << 61) - 1, 1 << 60, 536870911]),
            _ => rng.range(1, 40) as u64,
        };
        let v = match rng.below(12) {
            0..=2 => {
                let k = *rng.pick(&KINDS);
                match k {
                    K::String => RV::Str(gen_string(rng, false)),
                    K::Bytes => RV::Bytes(gen_bytes(rng, false)),
                    k => RV::Num(k, gen_raw(rng, k)),
                }
            }
            3 | 4 => {
                let k = loop {
                    let k = *rng.pick(&KINDS);
                    if k.numeric() {
                        break k;
                    }
                };
                let n = if rng.one_in(8) { rng.range(20, 300) } else { rng.below(6) };
                RV::Packed(k, (0..n).map(|_| gen_raw(rng, k)).collect())
            }
            5 if !es.is_empty() => RV::Enum(*rng.pick(&es), rng.weird() as i64),
            6 if depth < 5 => {
                let t = *rng.pick(&ms);
                RV::Msg(any_msg(rng, s, t, depth + 1))
            }
            7 => {
                let wt = rng.below(8) as u8;
                let k = rng.below(12);
                RV::Incomplete(wt, rng.bytes(k))
            }
            8 => {
                let wt = *rng.pick(&[3u8, 4, 6, 7]);
                let k = rng.below(12);
                RV::Invalid(wt, rng.bytes(k))
            }
            _ => {
                let wt = *rng.pick(&[0u8, 1, 2, 5]);
                gen_unknown(rng, wt, false)
            }
        };
        m.fields.push((n, v));
    }
    if rng.one_in(5) {
        let k = rng.range(1, 9);
        m.garbage = Some(rng.bytes(k));
    }
    m
}

pub fn c04(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..40 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let conforming = i == 0 && big || cx.rng.bool();
        let m = if conforming {
            if i == 0 && big {
                let m = huge(cx, &e.s);
                t = m.tid;
                if cx.rng.one_in(3) {
                    with_unknowns(&mut cx.rng, &e.s, &m, true)
                } else {
                    m
                }
            } else if i < 2 {
                big_msg(&mut cx.rng, &e.s, t)
            } else {
                let mut g = ValGen::new(&e.s);
                g.enum32 = false;
                let m = g.msg(&mut cx.rng, t, 0);
                if cx.rng.one_in(3) {
                    with_unknowns(&mut cx.rng, &e.s, &m, false)
                } else {
                    m
                }
            }
        } else {
            any_msg(&mut cx.rng, &e.s, t, 0)
        };
        let v = e.c.lower(&m);
        let want = encode(&m);
        let got = e.encode(&v).map_err(|f| Fail(format!("{}: {}", f.0, show(&e.s, &m))))?;
        ensure!(
            got == want,
            "encoding differs\n expected {}\n got      {}\n of {}",
            hex(&want),
            hex(&got),
            show(&e.s, &m)
        );
        if conforming {
            cx.count("conforming values");
            let back = e.decode(t, &got)?;
            let lifted = e.c.lift(&back)?;
            if let Some(d) = self::diff(&m, &lifted) {
                return Err(Fail(format!("encoded value decodes to another: {}\n bytes {}", d, hex(&got))));
            }
            // NaNs are not equal to themselves
            if v == v.clone() {
                ensure!(back == v, "decoded value is not equal to the encoded one: bytes {}", hex(&got));
            }
        } else {
            cx.count("arbitrary values");
        }
        count_kinds(cx, &m);
        cx.eval(&want, !m.fields.is_empty());
        cx.sample(|| format!("{} -> {}", show(&e.s, &m), hex(&want)));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C05

/// Fields to insert into a message and its nested messages.
#[derive(Debug, Default, Clone)]
pub struct Plan {
    /// Before which of the original fields, number, value.
    inserts: Vec<(usize, u64, RV)>,
    subs: HashMap<usize, Plan>,
}

fn plan(rng: &mut Rng, s: &Schema, m: &RMsg, big: bool, rate: usize) -> Plan {
    let mut p = Plan::default();
    if rng.below(rate) == 0 || rate == 1 {
        for _ in 0..rng.range(1, 4) {
            let at = rng.below(m.fields.len() + 1);
            let fields = &s.msg(m.tid).fields;
            if !fields.is_empty() && rng.bool() {
                // a declared field with another wire type
                let f = rng.pick(fields);
                let (own, packable, is_enum) = match f.ty {
                    Ty::S(k) => (k.wire(), k.numeric(), false),
                    Ty::T(t) if s.is_msg(t) => (2, false, false),
                    Ty::T(_) => (0, true, true),
                };
                let _ = is_enum;
                let wts: Vec<u8> = [0u8, 1, 2, 5]
                    .iter()
                    .copied()
                    .filter(|w| *w != own && !(*w == 2 && packable && f.mult == Mult::Repeated))
                    .collect();
                let wt = *rng.pick(&wts);
                p.inserts.push((at, f.number, gen_unknown(rng, wt, big)));
            } else {
                let n = undeclared(rng, s, m.tid);
                let wt = *rng.pick(&[0u8, 1, 2, 5]);
                let mut v = gen_unknown(rng, wt, big);
                if wt == 2 && rng.bool() {
                    // looks like a message
                    let ms = s.messages();
                    let t = *rng.pick(&ms);
                    v = RV::ULen(encode(&gen_msg(rng, s, t)));
                }
                p.inserts.push((at, n, v));
            }
        }
        p.inserts.sort_by_key(|i| i.0);
    }
    for (i, (_, v)) in m.fields.iter().enumerate() {
        if let RV::Msg(sub) = v {
            p.subs.insert(i, plan(rng, s, sub, big, rate));
        }
    }
    p
}

fn plan_size(p: &Plan) -> usize {
    p.inserts.len() + p.subs.values().map(plan_size).sum::<usize>()
}

/// Inserts what the plan says.
pub fn weave(m: &RMsg, p: &Plan) -> RMsg {
    let mut out = RMsg::new(m.tid);
    let mut ins = p.inserts.iter().peekable();
    for (i, (n, v)) in m.fields.iter().enumerate() {
        while let Some((at, num, val)) = ins.peek() {
            if *at > i {
                break;
            }
            out.fields.push((*num, val.clone()));
            ins.next();
        }
        let v = match (v, p.subs.get(&i)) {
            (RV::Msg(sub), Some(sp)) => RV::Msg(weave(sub, sp)),
            _ => v.clone(),
        };
        out.fields.push((*n, v));
    }
    for (_, num, val) in ins {
        out.fields.push((*num, val.clone()));
    }
    out.garbage = m.garbage.clone();
    out
}

pub fn c05(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..30 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let m = if i == 0 && big {
            let m = huge(cx, &e.s);
            t = m.tid;
            m
        } else {
            gen_msg(&mut cx.rng, &e.s, t)
        };
        let rate = *cx.rng.pick(&[1, 2, 3]);
        let mut p = plan(&mut cx.rng, &e.s, &m, i == 0, rate);
        let n = plan_size(&p);
        if n == 0 {
            continue;
        }
        // a field whose size cannot be told, which takes all that follows
        if cx.rng.one_in(6) {
            let number = undeclared(&mut cx.rng, &e.s, t);
            let k = cx.rng.below(12);
            let wt = *cx.rng.pick(&[3u8, 4, 6, 7]);
            p.inserts.push((m.fields.len(), number, RV::Invalid(wt, cx.rng.bytes(k))));
            cx.count("invalid wire types");
        }
        let base = e.lifted(t, &encode(&m))?;
        let want = weave(&base, &p);
        let payload = encode(&weave(&m, &p));
        let got = e.lifted(t, &payload)?;
        if let Some(d) = self::diff(&want, &got) {
            return Err(Fail(format!(
                "{}: {}\n without {}\n with    {}",
                e.s.types[t].full,
                d,
                hex(&encode(&m)),
                hex(&payload)
            )));
        }
        for (_, num, v) in &p.inserts {
            cx.count(match v {
                RV::UVar(_) => "unknown varint",
                RV::U64(_) => "unknown 64-bit",
                RV::U32(_) => "unknown 32-bit",
                RV::ULen(_) => "unknown delimited",
                _ => "unknown of invalid wire type",
            });
            if e.s.msg(t).fields.iter().any(|f| f.number == *num) {
                cx.count("mismatched declared field");
            }
        }
        cx.add("insertions", n as u64);
        cx.eval(&payload, true);
        cx.sample(|| format!("{} <- {}", show(&e.s, &want), hex(&payload)));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C06

/// What a cut payload has to decode to, given the fields of the whole.
fn cut(fields: &[(u64, RV)], encs: &[(usize, usize, usize, u8)], p: &[u8], k: usize, tid: Tid) -> RMsg {
    let mut m = RMsg::new(tid);
    for (i, (start, body, end, wt)) in encs.iter().enumerate() {
        if *end <= k {
            m.fields.push(fields[i].clone());
        } else if *body <= k {
            m.fields.push((fields[i].0, RV::Incomplete(*wt, p[*body..k].to_vec())));
            break;
        } else {
            if *start < k {
                m.garbage = Some(p[*start..k].to_vec());
            }
            break;
        }
    }
    m
}

/// Start, start of the value, end and wire type of each field.
fn layout(m: &RMsg) -> (Vec<u8>, Vec<(usize, usize, usize, u8)>) {
    let mut p = vec![];
    let mut v = vec![];
    for (n, x) in &m.fields {
        let start = p.len();
        let (wt, b) = encode_value(x);
        put_varint(&mut p, n << 3 | wt as u64);
        let body = p.len();
        p.extend_from_slice(&b);
        v.push((start, body, p.len(), wt));
    }
    (p, v)
}

pub fn c06(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx) && cx.rng.one_in(4);
    for i in 0..6 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let mut g = ValGen::new(&e.s);
        g.budget = 20;
        let mut m = g.msg(&mut cx.rng, t, 0);
        let big = i == 0 && big;
        if big {
            m = huge(cx, &e.s);
            t = m.tid;
        }
        if cx.rng.one_in(3) {
            m = with_unknowns(&mut cx.rng, &e.s, &m, false);
        }
        let (p, encs) = layout(&m);
        let whole = e.lifted(t, &p)?;
        ensure!(
            whole.fields.len() == m.fields.len(),
            "{}: payload of {} fields decodes to {}: {}",
            e.s.types[t].full,
            m.fields.len(),
            whole.fields.len(),
            hex(&p)
        );
        // every cut of small payloads, the interesting ones and some others of large ones
        let mut cuts: Vec<usize> = (0..=p.len()).collect();
        if p.len() > 300 {
            let mut near = std::collections::BTreeSet::new();
            for (a, b, c, _) in &encs {
                for x in [*a, *b, *c] {
                    near.extend(x.saturating_sub(2)..=(x + 2).min(p.len()));
                }
            }
            cuts = near.into_iter().collect();
            if big {
                cx.rng.shuffle(&mut cuts);
                cuts.truncate(12);
            }
            for _ in 0..if big { 12 } else { 60 } {
                cuts.push(cx.rng.below(p.len()));
            }
        }
        for k in cuts {
            let want = cut(&whole.fields, &encs, &p, k, t);
            let got = e.lifted(t, &p[..k])?;
            if let Some(d) = self::diff(&want, &got) {
                return Err(Fail(format!(
                    "{} cut at {} of {}: {}\n payload {}",
                    e.s.types[t].full,
                    k,
                    p.len(),
                    d,
                    hex(&p)
                )));
            }
            cx.count(match (&want.garbage, want.fields.last()) {
                (Some(_), _) => "cuts inside a tag",
                (_, Some((_, RV::Incomplete(..)))) => "cuts inside a value",
                _ => "cuts between fields",
            });
            cx.eval(&[&p[..k], b"|"].concat(), k > 0);
        }
        // cuts inside nested messages whose lengths are right
        let mut looked = 0;
        for (at, (n, v)) in m.fields.iter().enumerate() {
            let sub = match v {
                RV::Msg(s) if !s.fields.is_empty() => s,
                _ => continue,
            };
            looked += 1;
            if big && looked > 3 {
                break;
            }
            let (sp, sencs) = layout(sub);
            let sub_whole = match &whole.fields[at].1 {
                RV::Msg(w) if w.fields.len() == sub.fields.len() => w.clone(),
                x => return Err(Fail(format!("nested message decoded to {:.300?}; payload {}", x, hex(&p)))),
            };
            for _ in 0..6 {
                let k = cx.rng.below(sp.len());
                let mut raw = varint(k as u64);
                raw.extend_from_slice(&sp[..k]);
                let mut mm = m.clone();
                mm.fields[at] = (*n, RV::Raw(2, raw));
                let pp = encode(&mm);
                let mut want = whole.clone();
                want.fields[at].1 = RV::Msg(cut(&sub_whole.fields, &sencs, &sp, k, sub.tid));
                let got = e.lifted(t, &pp)?;
                if let Some(d) = self::diff(&want, &got) {
                    return Err(Fail(format!(
                        "{} with a nested message cut at {} of {}: {}\n payload {}",
                        e.s.types[t].full,
                        k,
                        sp.len(),
                        d,
                        hex(&pp)
                    )));
                }
                cx.count("nested cuts");
                cx.eval(&pp, true);
            }
        }
        if i == 0 {
            cx.sample(|| format!("all {} cuts of {} <- {}", p.len() + 1, show(&e.s, &m), hex(&p)));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C07

/// Paths to the length-delimited values of a message.
fn delimited_paths(m: &RMsg, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    for (i, (_, v)) in m.fields.iter().enumerate() {
        at.push(i);
        match v {
            RV::Str(_) | RV::Bytes(_) | RV::Packed(..) | RV::ULen(_) => out.push(at.clone()),
            RV::Msg(s) => {
                out.push(at.clone());
                delimited_paths(s, at, out);
            }
            _ => {}
        }
        at.pop();
    }
}

fn at_path<'a>(m: &'a mut RMsg, path: &[usize]) -> Option<&'a mut (u64, RV)> {
    let f = m.fields.get_mut(path[0])?;
    if path.len() == 1 {
        return Some(f);
    }
    match &mut f.1 {
        RV::Msg(s) => at_path(s, &path[1..]),
        _ => None,
    }
}

pub fn c07(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let big = at_scale(cx);
    for i in 0..30 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let big = i == 0 && big;
        let m = if big {
            let m = huge(cx, &e.s);
            t = m.tid;
            m
        } else {
            gen_msg(&mut cx.rng, &e.s, t)
        };
        let m = if cx.rng.one_in(3) { with_unknowns(&mut cx.rng, &e.s, &m, false) } else { m };
        let mut paths = vec![];
        delimited_paths(&m, &mut vec![], &mut paths);
        if paths.is_empty() {
            continue;
        }
        let path = cx.rng.pick(&paths).clone();
        let mut damaged = m.clone();
        let target = at_path(&mut damaged, &path).unwrap();
        let original = target.1.clone();
        let old = {
            let (_, b) = encode_value(&original);
            let (_, n) = get_varint(&b).unwrap();
            b[n..].to_vec()
        };
        let new = match cx.rng.below(5) {
            4 => {
                // a piece that is not whole at the end
                let mut b = old.clone();
                if cx.rng.one_in(3) {
                    let n = cx.rng.below(b.len() + 1);
                    b.truncate(b.len() - n.min(7));
                }
                let fill = *cx.rng.pick(&[0u8, 0, 0xff, 0x80, 1]);
                b.extend(std::iter::repeat(fill).take(cx.rng.below(8)));
                b
            }
            0 => {
                let k = if big && cx.rng.bool() { far_size(&mut cx.rng) } else { cx.rng.below(30) };
                cx.rng.bytes(k)
            }
            1 => {
                let sub = match &original {
                    RV::Msg(s) => s.tid,
                    _ => t,
                };
                soup(&mut cx.rng, &e.s, sub, 6)
            }
            2 => {
                // all continuation bits
                vec![0xff; cx.rng.range(1, 24)]
            }
            _ => {
                let sub = match &original {
                    RV::Msg(s) => s.tid,
                    _ => t,
                };
                damage(&mut cx.rng, &e.s, sub, &old, &old)
            }
        };
        let mut raw = varint(new.len() as u64);
        raw.extend_from_slice(&new);
        target.1 = RV::Raw(2, raw.clone());
        let payload = encode(&damaged);

        let mut want = e.lifted(t, &encode(&m))?;
        let mut got = e.lifted(t, &payload)?;
        let what = || format!("{} <- {}", e.s.types[t].full, hex(&payload));
        let got_value = match at_path(&mut got, &path) {
            Some(x) => std::mem::replace(&mut x.1, RV::Raw(0, vec![])),
            None => return Err(Fail(format!("the damaged value is not where it was: {}", what()))),
        };
        match at_path(&mut want, &path) {
            Some(x) => x.1 = RV::Raw(0, vec![]),
            None => return Err(Fail(format!("the value is not found in the undamaged payload: {}", what()))),
        }
        if let Some(d) = self::diff(&want, &got) {
            return Err(Fail(format!(
                "damage at {:?} changed something else: {}\n {}\n undamaged {}",
                path,
                d,
                what(),
                hex(&encode(&m))
            )));
        }
        match &original {
            RV::Msg(s) => {
                cx.count("damaged messages");
                let alone = e.lifted(s.tid, &new)?;
                match &got_value {
                    RV::Msg(g) => {
                        if let Some(d) = self::diff(&alone, g) {
                            return Err(Fail(format!("damaged message differs from its content decoded alone: {}; {}", d, what())));
                        }
                    }
                    v => return Err(Fail(format!("damaged message decoded to {:.200?}: {}", v, what()))),
                }
            }
            RV::Packed(..) => {
                cx.count("damaged packed arrays");
                match &got_value {
                    RV::Packed(k, got) => {
                        cx.count("damaged arrays that are arrays");
                        let mut spelled = vec![];
                        let mut rest = &new[..];
                        while let Some((v, n)) = crate::wire::num(rest, *k) {
                            spelled.push(v);
                            rest = &rest[n..];
                        }
                        ensure!(
                            rest.is_empty() && spelled == *got,
                            "damaged array decoded to {:.300?}, its bytes are {:.300?} and then {}: {}",
                            got,
                            spelled,
                            hex(rest),
                            what()
                        );
                    }
                    RV::Incomplete(2, b) => {
                        cx.count("damaged arrays that are incomplete");
                        ensure!(*b == raw, "incomplete array holds {}, its bytes are {}: {}", hex(b), hex(&raw), what());
                    }
                    v => return Err(Fail(format!("damaged array decoded to {:.200?}: {}", v, what()))),
                }
            }
            RV::Str(_) => {
                cx.count("damaged strings");
                match &got_value {
                    RV::Str(s) => {
                        if let Ok(u) = std::str::from_utf8(&new) {
                            ensure!(s == u, "string is {:?}, its bytes are {}", s, hex(&new));
                        }
                    }
                    v => return Err(Fail(format!("damaged string decoded to {:.200?}: {}", v, what()))),
                }
            }
            RV::Bytes(_) => {
                cx.count("damaged bytes");
                ensure!(got_value == RV::Bytes(new.clone()), "bytes decoded to {:.200?}: {}", got_value, what());
            }
            _ => {
                cx.count("damaged unknown values");
                ensure!(got_value == RV::ULen(new.clone()), "unknown value decoded to {:.200?}: {}", got_value, what());
            }
        }
        cx.max("depth of damage", path.len() as u64);
        cx.eval(&payload, true);
        cx.sample(|| format!("damage at {:?} in {}", path, what()));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C08

pub fn c08(cx: &mut Cx) -> R {
    let cfg = wire_cfg(cx);
    let e = env(cx, &cfg)?;
    let mut log: Vec<(Tid, Vec<u8>, RMsg)> = vec![];
    let big = at_scale(cx);
    for i in 0..12 {
        let mut t = pick_msg(&mut cx.rng, &e.s);
        let big = i == 0 && big;
        let a = if big {
            let m = huge(cx, &e.s);
            t = m.tid;
            m
        } else {
            gen_msg(&mut cx.rng, &e.s, t)
        };
        let a = if cx.rng.bool() { with_unknowns(&mut cx.rng, &e.s, &a, false) } else { a };
        let pa = if cx.rng.one_in(3) { encode_sloppy(&a, &mut cx.rng) } else { encode(&a) };
        let pb = any_payload(&mut cx.rng, &e.s, t);
        let da = e.lifted(t, &pa)?;
        let db = e.lifted(t, &pb)?;
        ensure!(
            da.garbage.is_none() && da.fields.len() == a.fields.len(),
            "intact payload of {} fields decoded to {} fields: {}",
            a.fields.len(),
            da.fields.len(),
            hex(&pa)
        );
        // concatenation
        let pc = [&pa[..], &pb[..]].concat();
        let mut want = da.clone();
        want.fields.extend(db.fields.iter().cloned());
        want.garbage = db.garbage.clone();
        let got = e.lifted(t, &pc)?;
        if let Some(d) = self::diff(&want, &got) {
            return Err(Fail(format!(
                "{}: concatenation of {} and {}: {}",
                e.s.types[t].full,
                hex(&pa),
                hex(&pb),
                d
            )));
        }
        cx.count("concatenations");
        cx.eval(&pc, !pa.is_empty() && !pb.is_empty());
        cx.sample(|| format!("{} <- {} ++ {}", e.s.types[t].full, hex(&pa), hex(&pb)));
        // permutation with repetition
        if !a.fields.is_empty() {
            let mut idx: Vec<usize> = (0..a.fields.len()).collect();
            cx.rng.shuffle(&mut idx);
            for _ in 0..cx.rng.below(4) {
                let r = *cx.rng.pick(&idx);
                let at = cx.rng.below(idx.len() + 1);
                idx.insert(at, r);
            }
            if !big && cx.rng.one_in(8) {
                let k = idx.clone();
                for _ in 0..20 {
                    idx.extend(k.iter());
                }
            }
            let mut pm = RMsg::new(t);
            let mut want = RMsg::new(t);
            for i in &idx {
                pm.fields.push(a.fields[*i].clone());
                want.fields.push(da.fields[*i].clone());
            }
            let pp = encode(&pm);
            let got = e.lifted(t, &pp)?;
            if let Some(d) = self::diff(&want, &got) {
                return Err(Fail(format!(
                    "{}: fields in the order {:?} of {}: {}\n payload {}",
                    e.s.types[t].full,
                    idx,
                    hex(&pa),
                    d,
                    hex(&pp)
                )));
            }
            cx.count("permutations");
            cx.eval(&pp, idx.len() > 1);
        }
        // the same buffer with other content
        let mut buf = pa.clone();
        if !buf.is_empty() && !big {
            let first = e.lifted(t, &buf)?;
            if let Some(d) = self::diff(&da, &first) {
                return Err(Fail(format!("{}: decoding {} again: {}", e.s.types[t].full, hex(&pa), d)));
            }
            for _ in 0..3 {
                let at = cx.rng.below(buf.len());
                buf[at] ^= 1 << cx.rng.below(7);
                let here = e.lifted(t, &buf)?;
                let other = e.lifted(t, &[&buf[..], &[0]].concat()[..buf.len()])?;
                if let Some(d) = self::diff(&other, &here) {
                    return Err(Fail(format!(
                        "{}: {} in a buffer that held another payload before: {}",
                        e.s.types[t].full,
                        hex(&buf),
                        d
                    )));
                }
                cx.count("buffers used again");
            }
        }
        log.push((t, pa, da));
        log.push((t, pb, db));
        log.push((t, pc, got));
    }
    // the same again after all of that, in another order, and through the message
    let mut idx: Vec<usize> = (0..log.len()).collect();
    cx.rng.shuffle(&mut idx);
    for i in idx {
        let (t, p, first) = &log[i];
        let again = if cx.rng.bool() {
            e.lifted(*t, p)?
        } else {
            let v = call("MessageInfo::decode", || e.c.ctx.resolve_message(e.c.msg[t]).decode(p, &e.c.ctx))?;
            e.c.lift(&v)?
        };
        if let Some(d) = self::diff(first, &again) {
            return Err(Fail(format!("{}: decoding {} again: {}", e.s.types[*t].full, hex(p), d)));
        }
        cx.count("decoded again");
    }
    // a fresh context knows nothing of the history
    let hand = cx.rng.bool();
    let fresh = env_of(cx, e.s.clone(), hand)?;
    for (t, p, first) in &log {
        let again = fresh.lifted(*t, p)?;
        if let Some(d) = self::diff(first, &again) {
            return Err(Fail(format!("{}: decoding {} with a new context: {}", e.s.types[*t].full, hex(p), d)));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C09

pub fn c09(cx: &mut Cx) -> R {
    // one message with a repeated field of every numeric type under every declaration, in text
    let mut cfg = gen::Cfg::wire();
    cfg.files = 1;
    cfg.types = 4;
    let mut s = gen::generate(&mut cx.rng, &cfg);
    let t = *cx.rng.pick(&s.messages());
    let enums = s.enums();
    let full = s.types[t].full.clone();
    {
        let mut fields = vec![];
        let mut nums = std::collections::BTreeMap::new();
        let efull: Vec<(Tid, String)> = enums.iter().map(|x| (*x, s.types[*x].full.clone())).collect();
        let m = s.msg_mut(t);
        for f in &m.fields {
            nums.insert(f.number, ());
        }
        let mut kinds: Vec<Ty> = KINDS.iter().filter(|k| k.numeric()).map(|k| Ty::S(*k)).collect();
        kinds.extend(efull.iter().take(1).map(|(x, _)| Ty::T(*x)));
        for ty in kinds {
            for decl in 0..3 {
                if cx.rng.one_in(3) {
                    continue;
                }
                let number = gen::field_number(&mut cx.rng, &nums, false);
                nums.insert(number, ());
                let mut opts = vec![];
                let other = |n: &str, v: Const, l: &str| Opt {
                    name: n.into(),
                    value: v,
                    lit: vec![l.into()],
                };
                if cx.rng.one_in(4) {
                    opts.push(other("deprecated", Const::Bool(cx.rng.bool()), "true"));
                    opts[0].lit = vec![if opts[0].value == Const::Bool(true) { "true" } else { "false" }.into()];
                }
                match decl {
                    1 => opts.push(other("packed", Const::Bool(true), "true")),
                    2 => opts.push(other("packed", Const::Bool(false), "false")),
                    _ => {}
                }
                if cx.rng.one_in(4) {
                    opts.push(other("(my.packed)", Const::Bool(false), "false"));
                }
                let spelling = match ty {
                    Ty::S(k) => k.name().to_string(),
                    Ty::T(x) => format!(".{}", efull.iter().find(|(y, _)| *y == x).unwrap().1),
                };
                fields.push(Field {
                    name: format!("rep_{}_{}", number, decl),
                    number,
                    ty,
                    mult: Mult::Repeated,
                    opts,
                    oneof: None,
                    spelling,
                    num_lit: number.to_string(),
                });
            }
        }
        for f in fields {
            let i = m.fields.len();
            m.fields.push(f);
            let at = cx.rng.below(m.body.len() + 1);
            m.body.insert(at, Item::Field(i));
        }
    }
    let hand = cx.rng.one_in(4);
    let e = env_of(cx, s, hand)?;
    let fields: Vec<Field> = e
        .s
        .msg(t)
        .fields
        .iter()
        .filter(|f| f.mult == Mult::Repeated && !matches!(f.ty, Ty::S(K::String | K::Bytes)))
        .filter(|f| !matches!(f.ty, Ty::T(x) if e.s.is_msg(x)))
        .cloned()
        .collect();
    if fields.is_empty() {
        return Ok(());
    }
    for _ in 0..40 {
        let f = cx.rng.pick(&fields).clone();
        let k = match f.ty {
            Ty::S(k) => Some(k),
            _ => None, // enum: only unpacked, see the known finding
        };
        let n = match cx.rng.below(12) {
            0 => 0,
            1 if !cfg!(miri) && cx.rng.one_in(60) => far_size(&mut cx.rng),
            1 => cx.rng.range(50, 400),
            _ => cx.rng.range(1, 12),
        };
        cx.max("elements of a field", n as u64);
        let elems: Vec<u64> = (0..n)
            .map(|_| match k {
                Some(k) => gen_raw(&mut cx.rng, k),
                None => cx.rng.weird() as i32 as i64 as u64,
            })
            .collect();
        // what is written: runs, single elements, and other fields in between
        let mut m = RMsg::new(t);
        let mut want: Vec<RV> = vec![];
        let mut i = 0;
        let style = cx.rng.below(4);
        let mut others = 0;
        loop {
            if i == elems.len() && !cx.rng.one_in(3) {
                break;
            }
            if cx.rng.one_in(10) {
                let number = undeclared(&mut cx.rng, &e.s, t);
                m.fields.push((number, gen_unknown(&mut cx.rng, 0, false)));
                others += 1;
            }
            let packed = k.is_some() && (style == 0 || style > 1 && cx.rng.bool() || n > 400 && style < 3);
            let v = if packed || i == elems.len() {
                let k = match k {
                    Some(k) => k,
                    None => break,
                };
                let l = match cx.rng.below(6) {
                    0 => 0,
                    1 => elems.len() - i,
                    _ => cx.rng.below(elems.len() - i + 1),
                };
                let run = elems[i..i + l].to_vec();
                i += l;
                cx.count(if l == 0 { "empty runs" } else { "packed runs" });
                RV::Packed(k, run)
            } else {
                i += 1;
                cx.count("single elements");
                match (k, f.ty) {
                    (Some(k), _) => RV::Num(k, elems[i - 1]),
                    (None, Ty::T(x)) => RV::Enum(x, elems[i - 1] as i64),
                    _ => unreachable!(),
                }
            };
            m.fields.push((f.number, v.clone()));
            want.push(v);
        }
        let p = if cx.rng.one_in(3) { encode_sloppy(&m, &mut cx.rng) } else { encode(&m) };
        let got = e.lifted(t, &p)?;
        let gv: Vec<RV> = got.fields.iter().filter(|x| x.0 == f.number).map(|x| x.1.clone()).collect();
        let what = || {
            format!(
                "repeated {} of {} ({:?}), payload {}",
                f.spelling,
                full,
                f.opts.iter().map(|o| format!("{}={:?}", o.name, o.value)).collect::<Vec<_>>(),
                hex(&p)
            )
        };
        let mut flat = vec![];
        for v in &gv {
            match v {
                RV::Packed(kk, vs) if Some(*kk) == k => flat.extend(vs.iter().copied()),
                RV::Num(kk, v) if Some(*kk) == k => flat.push(*v),
                RV::Enum(x, v) if k.is_none() && f.ty == Ty::T(*x) => flat.push(*v as u64),
                v => return Err(Fail(format!("element is {:.200?}: {}", v, what()))),
            }
        }
        ensure!(flat == elems, "elements {:.300?}, expected {:.300?}: {}", flat, elems, what());
        ensure!(gv == want, "runs {:.300?}, expected {:.300?}: {}", gv, want, what());
        ensure!(
            got.fields.len() == want.len() + others && got.garbage.is_none(),
            "{} values besides the elements, expected {}: {}",
            got.fields.len() - want.len().min(got.fields.len()),
            others,
            what()
        );
        cx.count(&format!("fields of type {}", if k.is_none() { "enum" } else { &f.spelling }));
        cx.add("elements", elems.len() as u64);
        cx.eval(&[&p[..], f.spelling.as_bytes()].concat(), !elems.is_empty());
        cx.sample(what);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------- C10

/// Smallest payload that can hold the value: what is held of the payload, and one byte for each
/// tag and number.
fn held(m: &RMsg) -> u64 {
    let mut n = m.garbage.as_ref().map_or(0, |g| g.len() as u64);
    for (_, v) in &m.fields {
        n += 1;
        n += match v {
            RV::Num(k, _) => match k.wire() {
                1 => 8,
                5 => 4,
                _ => 1,
            },
            // a replacement character may stand for a single byte
            RV::Str(s) => 1 + s.chars().map(|c| if c == '\u{fffd}' { 1 } else { c.len_utf8() as u64 }).sum::<u64>(),
            RV::Bytes(b) | RV::ULen(b) => 1 + b.len() as u64,
            RV::Packed(k, v) => {
                1 + v.len() as u64
                    * match k.wire() {
                        1 => 8,
                        5 => 4,
                        _ => 1,
                    }
            }
            RV::Enum(..) | RV::UVar(_) => 1,
            RV::Msg(m) => 1 + held(m),
            RV::Incomplete(_, b) | RV::Invalid(_, b) => b.len() as u64,
            RV::U64(_) => 8,
            RV::U32(_) => 4,
            RV::Raw(..) => 0,
        };
    }
    n
}

pub const ALLOC_BASE: u64 = 64 * 1024;
pub const ALLOC_PER_BYTE: u64 = 600;

pub fn c10(cx: &mut Cx) -> R {
    let mut cfg = wire_cfg(cx);
    cfg.min_fields = 10;
    cfg.fields = 40;
    let mut s = gen::generate(&mut cx.rng, &cfg);
    // a message that contains itself, to nest in
    let t0 = *cx.rng.pick(&s.messages());
    nest(&mut cx.rng, &mut s, t0);
    let hand = cx.rng.one_in(4);
    let e = env_of(cx, s, hand)?;
    let big = at_scale(cx);
    for i in 0..14 {
        let big = i == 13 && big;
        let mut t = if cx.rng.bool() { t0 } else { pick_msg(&mut cx.rng, &e.s) };
        let top = if cx.tier == Tier::Thorough { 17 } else { 15 };
        let size = if i < 6 { 1 << cx.rng.range(8, top) } else { cx.rng.range(1, 3000) };
        let p = if big {
            let m = huge(cx, &e.s);
            t = m.tid;
            encode(&m)
        } else if i % 7 == 6 {
            any_payload(&mut cx.rng, &e.s, t)
        } else {
            hostile(&mut cx.rng, &e.s, t, size)
        };
        let len = p.len() as u64;
        let (v, du) = {
            let (r, u) = alloc::measure(|| guard(|| e.c.decode(t, &p)));
            (r.map_err(|x| Fail(format!("decode panicked: {}; payload {}", x, hex(&p))))?, u)
        };
        let what = || format!("{} <- {}", e.s.types[t].full, hex(&p));
        let bound = ALLOC_BASE + ALLOC_PER_BYTE * len;
        cx.max("bytes allocated by decode per payload byte (payloads over 4 KiB)", if len > 4096 { du.total / len } else { 0 });
        ensure!(
            du.total <= bound,
            "decoding {} bytes allocated {} bytes in total, {} at once (bound {}): {}",
            len,
            du.total,
            du.peak,
            bound,
            what()
        );
        let m = e.c.lift(&v)?;
        let h = held(&m);
        ensure!(h <= len, "values hold {} bytes of a payload of {}: {}", h, len, what());
        let (b, eu) = {
            let (r, u) = alloc::measure(|| guard(|| v.encode(&e.c.ctx)));
            (r.map_err(|x| Fail(format!("encode panicked: {}; payload {}", x, hex(&p))))?, u)
        };
        cx.max("bytes held at once by encode per payload byte (payloads over 4 KiB)", if len > 4096 { eu.peak / len } else { 0 });
        cx.max("bytes held at once by decode per payload byte (payloads over 4 KiB)", if len > 4096 { du.peak / len } else { 0 });
        cx.max("bytes allocated by encode per payload byte (payloads over 4 KiB)", if len > 4096 { eu.total / len } else { 0 });
        // every level of nesting has a buffer of its own for a while
        ensure!(
            eu.peak <= bound && (eu.total <= bound || big),
            "encoding the value of {} bytes allocated {} bytes in total, {} at once (bound {}): {}",
            len,
            eu.total,
            eu.peak,
            bound,
            what()
        );
        // truncated 32-bit integers are sign-extended again, strings get replacement characters
        ensure!(b.len() as u64 <= 10 * len, "re-encoded payload of {} bytes has {}: {}", len, b.len(), what());
        cx.max("payload bytes", len);
        cx.add("allocations", du.count + eu.count);
        cx.eval(&p, len > 0);
        cx.sample(what);
    }
    Ok(())
}
