//! Reference wire format: values, encoder, decoder. Written from the protobuf encoding and the
//! recovery rules protofish documents; shares no code with it.

use crate::model::*;
use crate::rng::Rng;
use std::collections::HashMap;

/// A reference value. Numbers are kept as 64 raw bits: integers sign- or zero-extended, floats as
/// their bit patterns.
#[derive(Clone, PartialEq, Debug)]
pub enum RV {
    Num(K, u64),
    Str(String),
    Bytes(Vec<u8>),
    Packed(K, Vec<u64>),
    Enum(Tid, i64),
    Msg(RMsg),
    Incomplete(u8, Vec<u8>),
    UVar(u128),
    U64(u64),
    ULen(Vec<u8>),
    U32(u32),
    Invalid(u8, Vec<u8>),
    /// Encoding only: wire type and bytes to put after the tag.
    Raw(u8, Vec<u8>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct RMsg {
    pub tid: Tid,
    pub fields: Vec<(u64, RV)>,
    pub garbage: Option<Vec<u8>>,
}

impl RMsg {
    pub fn new(tid: Tid) -> RMsg {
        RMsg {
            tid,
            fields: vec![],
            garbage: None,
        }
    }
}

// ---------------------------------------------------------------------------------- encoding

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn varint(v: u64) -> Vec<u8> {
    let mut o = vec![];
    put_varint(&mut o, v);
    o
}

/// How to write varints.
pub struct Enc<'a> {
    /// Pads varints and widens integers at random if set.
    pub sloppy: Option<&'a mut Rng>,
}

pub fn zigzag64(v: i64) -> u64 {
    if v < 0 {
        (!(v as u64)) * 2 + 1
    } else {
        (v as u64) * 2
    }
}

pub fn zigzag32(v: i32) -> u64 {
    if v < 0 {
        (!(v as u32)) as u64 * 2 + 1
    } else {
        (v as u32) as u64 * 2
    }
}

impl<'a> Enc<'a> {
    fn varint(&mut self, out: &mut Vec<u8>, v: u64) {
        let at = out.len();
        put_varint(out, v);
        if let Some(r) = &mut self.sloppy {
            if r.one_in(3) {
                let n = out.len() - at;
                let extra = r.below(10 - n + 1);
                if extra > 0 {
                    let l = out.len();
                    out[l - 1] |= 0x80;
                    for i in 0..extra {
                        out.push(if i == extra - 1 { 0 } else { 0x80 });
                    }
                }
            }
        }
    }

    fn num(&mut self, out: &mut Vec<u8>, k: K, raw: u64) {
        let mut wide = |lo: u64| -> u64 {
            // any bits above the low 32 are dropped by the reader
            if let Some(r) = &mut self.sloppy {
                if r.one_in(3) {
                    return (lo & 0xffff_ffff) | (r.weird() << 32);
                }
            }
            lo
        };
        match k {
            K::Double | K::Fixed64 | K::SFixed64 => out.extend_from_slice(&raw.to_le_bytes()),
            K::Float | K::Fixed32 | K::SFixed32 => out.extend_from_slice(&(raw as u32).to_le_bytes()),
            K::Int32 => {
                let v = wide(raw as i32 as i64 as u64);
                self.varint(out, v)
            }
            K::UInt32 => {
                let v = wide(raw as u32 as u64);
                self.varint(out, v)
            }
            K::SInt32 => {
                let v = wide(zigzag32(raw as i32));
                self.varint(out, v)
            }
            K::Int64 | K::UInt64 => self.varint(out, raw),
            K::SInt64 => self.varint(out, zigzag64(raw as i64)),
            K::Bool => {
                let mut v = (raw != 0) as u64;
                if let Some(r) = &mut self.sloppy {
                    if raw != 0 && r.bool() {
                        v = r.weird().max(1);
                    }
                }
                self.varint(out, v)
            }
            K::String | K::Bytes => unreachable!(),
        }
    }

    fn len(&mut self, out: &mut Vec<u8>, b: &[u8]) {
        self.varint(out, b.len() as u64);
        out.extend_from_slice(b);
    }

    pub fn value(&mut self, v: &RV) -> (u8, Vec<u8>) {
        let mut out = vec![];
        let wt = match v {
            RV::Num(k, raw) => {
                self.num(&mut out, *k, *raw);
                k.wire()
            }
            RV::Str(s) => {
                self.len(&mut out, s.as_bytes());
                2
            }
            RV::Bytes(b) | RV::ULen(b) => {
                self.len(&mut out, b);
                2
            }
            RV::Packed(k, vs) => {
                let mut body = vec![];
                for v in vs {
                    self.num(&mut body, *k, *v);
                }
                self.len(&mut out, &body);
                2
            }
            RV::Enum(_, v) => {
                self.varint(&mut out, *v as u64);
                0
            }
            RV::Msg(m) => {
                let b = self.msg(m);
                self.len(&mut out, &b);
                2
            }
            RV::Incomplete(wt, b) | RV::Invalid(wt, b) | RV::Raw(wt, b) => {
                out.extend_from_slice(b);
                *wt
            }
            RV::UVar(v) => {
                self.varint(&mut out, *v as u64);
                0
            }
            RV::U64(v) => {
                out.extend_from_slice(&v.to_le_bytes());
                1
            }
            RV::U32(v) => {
                out.extend_from_slice(&v.to_le_bytes());
                5
            }
        };
        (wt, out)
    }

    pub fn field(&mut self, out: &mut Vec<u8>, number: u64, v: &RV) {
        let (wt, b) = self.value(v);
        self.varint(out, number << 3 | wt as u64);
        out.extend_from_slice(&b);
    }

    pub fn msg(&mut self, m: &RMsg) -> Vec<u8> {
        let mut out = vec![];
        for (n, v) in &m.fields {
            self.field(&mut out, *n, v);
        }
        if let Some(g) = &m.garbage {
            out.extend_from_slice(g);
        }
        out
    }
}

/// Canonical encoding.
pub fn encode(m: &RMsg) -> Vec<u8> {
    Enc { sloppy: None }.msg(m)
}

pub fn encode_value(v: &RV) -> (u8, Vec<u8>) {
    Enc { sloppy: None }.value(v)
}

pub fn encode_sloppy(m: &RMsg, rng: &mut Rng) -> Vec<u8> {
    Enc { sloppy: Some(rng) }.msg(m)
}

// ---------------------------------------------------------------------------------- decoding

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct WField {
    pub ty: Ty,
    pub repeated: bool,
    pub is_enum: bool,
}

/// Fields by number of each message.
pub struct WSchema {
    pub msgs: HashMap<Tid, HashMap<u64, WField>>,
}

impl WSchema {
    pub fn new(s: &Schema) -> WSchema {
        let mut msgs = HashMap::new();
        for t in s.messages() {
            let mut m = HashMap::new();
            for f in &s.msg(t).fields {
                m.insert(
                    f.number,
                    WField {
                        ty: f.ty,
                        repeated: f.mult == Mult::Repeated,
                        is_enum: matches!(f.ty, Ty::T(x) if !s.is_msg(x)),
                    },
                );
            }
            msgs.insert(t, m);
        }
        WSchema { msgs }
    }
}

/// Reads a varint of up to ten bytes.
pub fn get_varint(d: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0u128;
    for i in 0..10 {
        let b = *d.get(i)?;
        v |= ((b & 0x7f) as u128) << (7 * i);
        if b < 0x80 {
            return Some((v as u64, i + 1));
        }
    }
    None
}

pub fn from_varint(k: K, v: u64) -> u64 {
    match k {
        K::Int32 => v as u32 as i32 as i64 as u64,
        K::UInt32 => v as u32 as u64,
        K::SInt32 => {
            let u = v as u32;
            let m = (u / 2) as i64;
            (if u % 2 == 1 { -m - 1 } else { m }) as u64
        }
        K::SInt64 => {
            let m = (v / 2) as i64;
            (if v % 2 == 1 { -m - 1 } else { m }) as u64
        }
        K::Bool => (v != 0) as u64,
        _ => v,
    }
}

pub fn num(d: &[u8], k: K) -> Option<(u64, usize)> {
    match k.wire() {
        1 => {
            let b: [u8; 8] = d.get(..8)?.try_into().ok()?;
            Some((u64::from_le_bytes(b), 8))
        }
        5 => {
            let b: [u8; 4] = d.get(..4)?.try_into().ok()?;
            let v = u32::from_le_bytes(b);
            let raw = if k == K::SFixed32 { v as i32 as i64 as u64 } else { v as u64 };
            Some((raw, 4))
        }
        _ => {
            let (v, n) = get_varint(d)?;
            Some((from_varint(k, v), n))
        }
    }
}

/// Content and total size of a length-delimited value.
fn delimited(d: &[u8]) -> Option<(&[u8], usize)> {
    let (len, n) = get_varint(d)?;
    let rest = &d[n..];
    if len > rest.len() as u64 {
        return None;
    }
    Some((&rest[..len as usize], n + len as usize))
}

impl WSchema {
    pub fn decode(&self, tid: Tid, mut d: &[u8]) -> RMsg {
        let mut m = RMsg::new(tid);
        while !d.is_empty() {
            let (tag, n) = match get_varint(d) {
                Some(x) => x,
                None => {
                    m.garbage = Some(d.to_vec());
                    break;
                }
            };
            d = &d[n..];
            let (number, wt) = (tag >> 3, (tag & 7) as u8);
            let (v, n) = self.value(self.msgs.get(&tid).and_then(|m| m.get(&number)), wt, d);
            m.fields.push((number, v));
            d = &d[n..];
        }
        m
    }

    fn value(&self, f: Option<&WField>, wt: u8, d: &[u8]) -> (RV, usize) {
        let known = f.and_then(|f| match f.ty {
            Ty::S(k) if k.numeric() && f.repeated && wt == 2 => Some(self.packed(k, d)),
            Ty::S(k) if k.wire() == wt => Some(match k {
                K::String => delimited(d).map(|(b, n)| (RV::Str(String::from_utf8_lossy(b).into_owned()), n)),
                K::Bytes => delimited(d).map(|(b, n)| (RV::Bytes(b.to_vec()), n)),
                _ => num(d, k).map(|(v, n)| (RV::Num(k, v), n)),
            }),
            Ty::T(t) if f.is_enum && wt == 0 => Some(get_varint(d).map(|(v, n)| (RV::Enum(t, v as i64), n))),
            Ty::T(t) if !f.is_enum && wt == 2 => {
                Some(delimited(d).map(|(b, n)| (RV::Msg(self.decode(t, b)), n)))
            }
            _ => None,
        });
        known
            .unwrap_or_else(|| match wt {
                0 => get_varint(d).map(|(v, n)| (RV::UVar(v as u128), n)),
                1 => num(d, K::Fixed64).map(|(v, n)| (RV::U64(v), n)),
                2 => delimited(d).map(|(b, n)| (RV::ULen(b.to_vec()), n)),
                5 => num(d, K::Fixed32).map(|(v, n)| (RV::U32(v as u32), n)),
                _ => Some((RV::Invalid(wt, d.to_vec()), d.len())),
            })
            .unwrap_or_else(|| (RV::Incomplete(wt, d.to_vec()), d.len()))
    }

    fn packed(&self, k: K, d: &[u8]) -> Option<(RV, usize)> {
        let (mut b, n) = delimited(d)?;
        let mut vs = vec![];
        while !b.is_empty() {
            match num(b, k) {
                Some((v, m)) => {
                    vs.push(v);
                    b = &b[m..];
                }
                None => return Some((RV::Incomplete(2, d[..n].to_vec()), n)),
            }
        }
        Some((RV::Packed(k, vs), n))
    }
}

// ---------------------------------------------------------------------------------- generation

pub struct ValGen<'a> {
    pub s: &'a Schema,
    pub depth: usize,
    /// Remaining fields overall.
    pub budget: usize,
    /// Only values a conforming writer would produce.
    pub enum32: bool,
    /// Repeated packable fields may come packed.
    pub packed: bool,
    /// Large strings and arrays are allowed.
    pub big: bool,
}

pub fn gen_raw(rng: &mut Rng, k: K) -> u64 {
    let w = rng.weird();
    match k {
        K::Int32 | K::SInt32 | K::SFixed32 => w as i32 as i64 as u64,
        K::UInt32 | K::Fixed32 => w as u32 as u64,
        K::Bool => w & 1,
        K::Float => match rng.below(6) {
            0 => f32::NAN.to_bits() as u64,
            1 => *rng.pick(&[0x8000_0000u64, 0x7f80_0000, 0xff80_0000, 1, 0x7fa0_0001, 0xffc0_1234, 0x3f80_0000]),
            _ => w as u32 as u64,
        },
        K::Double => match rng.below(6) {
            0 => f64::NAN.to_bits(),
            1 => *rng.pick(&[
                1u64 << 63,
                0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0000,
                1,
                0x7ff4_0000_0000_0001,
                0x3ff0_0000_0000_0000,
            ]),
            _ => w,
        },
        _ => w,
    }
}

fn length(rng: &mut Rng, big: bool) -> usize {
    match rng.below(30) {
        0 => *rng.pick(&[126, 127, 128, 129, 255, 256, 257]),
        1 if big => *rng.pick(&[16382, 16383, 16384, 16385, 65535, 65536, 65537]),
        2 if big && rng.one_in(30) => *rng.pick(&[2097151, 2097152, 2097153]),
        3 => rng.below(600),
        4..=7 => 0,
        _ => rng.below(24),
    }
}

pub fn gen_string(rng: &mut Rng, big: bool) -> String {
    let n = length(rng, big);
    let mut s = String::with_capacity(n + 4);
    let ascii = rng.bool();
    while s.len() < n {
        if ascii || rng.bool() {
            s.push((rng.below(128) as u8) as char);
        } else {
            s.push(
                char::from_u32(*rng.pick(&[
                    0x80u32, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f41f, 0x10ffff, 0xfeff, 0,
                ]))
                .unwrap(),
            );
        }
    }
    s
}

pub fn gen_bytes(rng: &mut Rng, big: bool) -> Vec<u8> {
    let n = length(rng, big);
    rng.bytes(n)
}

impl<'a> ValGen<'a> {
    pub fn new(s: &'a Schema) -> Self {
        ValGen {
            s,
            depth: 4,
            budget: 60,
            enum32: true,
            packed: true,
            big: false,
        }
    }

    pub fn value(&mut self, rng: &mut Rng, f: &Field, depth: usize) -> RV {
        match f.ty {
            Ty::S(K::String) => RV::Str(gen_string(rng, self.big)),
            Ty::S(K::Bytes) => RV::Bytes(gen_bytes(rng, self.big)),
            Ty::S(k) => {
                if f.mult == Mult::Repeated && self.packed && rng.below(3) > 0 {
                    let n = match rng.below(12) {
                        0 => 0,
                        1 if self.big => rng.range(100, 3000),
                        2 => rng.range(10, 140),
                        _ => rng.range(1, 6),
                    };
                    RV::Packed(k, (0..n).map(|_| gen_raw(rng, k)).collect())
                } else {
                    RV::Num(k, gen_raw(rng, k))
                }
            }
            Ty::T(t) => match &self.s.types[t].kind {
                Kind::Enum(e) => {
                    let v = if !e.values.is_empty() && rng.bool() {
                        rng.pick(&e.values).value
                    } else if self.enum32 {
                        rng.weird() as i32 as i64
                    } else {
                        rng.weird() as i64
                    };
                    RV::Enum(t, v)
                }
                Kind::Msg(_) => RV::Msg(self.msg(rng, t, depth + 1)),
            },
        }
    }

    pub fn msg(&mut self, rng: &mut Rng, tid: Tid, depth: usize) -> RMsg {
        let mut m = RMsg::new(tid);
        let fields = &self.s.msg(tid).fields;
        if fields.is_empty() || depth > self.depth {
            return m;
        }
        let n = match rng.below(6) {
            0 => rng.below(2),
            1 => rng.range(1, 20),
            _ => rng.range(1, 7),
        };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let f = rng.pick(fields);
            let v = self.value(rng, f, depth);
            m.fields.push((f.number, v));
        }
        m
    }
}

pub fn gen_msg(rng: &mut Rng, s: &Schema, tid: Tid) -> RMsg {
    ValGen::new(s).msg(rng, tid, 0)
}

/// Numbers of bytes or elements around which something may happen.
pub fn far_size(rng: &mut Rng) -> usize {
    let n = *rng.pick(&[
        1usize << 9, 1 << 10, 1000, 1 << 11, 1 << 12, 1 << 13, 10000, 1 << 14, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 100_000, 1 << 18,
    ]);
    match rng.below(6) {
        0 => n,
        1 => n - 1,
        2 => n + 1,
        3 => n + rng.below(600),
        4 => n - rng.below(n / 3),
        _ => n / 3 + rng.below(n),
    }
}

/// A message that has itself as a member, and the number of the field.
pub fn self_nested(s: &Schema) -> Option<(Tid, u64)> {
    s.messages().into_iter().find_map(|t| s.msg(t).fields.iter().find(|f| f.ty == Ty::T(t)).map(|f| (t, f.number)))
}

/// Values of unusual size: nested deep, long, or with many fields; a conforming writer would
/// produce them.
pub fn scaled(rng: &mut Rng, s: &Schema, t: Tid) -> RMsg {
    let mut small = ValGen::new(s);
    small.budget = 20;
    small.depth = 2;
    let fields = s.msg(t).fields.clone();
    let kind = rng.below(8);
    if kind < 2 {
        if let Some((t, n)) = self_nested(s) {
            let depth = if rng.bool() { rng.range(20, 140) } else { rng.range(100, 400) };
            let mut m = small.msg(rng, t, 1);
            let scalars: Vec<Field> =
                s.msg(t).fields.iter().filter(|f| f.mult != Mult::Repeated && matches!(f.ty, Ty::S(k) if k.numeric())).cloned().collect();
            let dense = rng.one_in(4);
            for _ in 0..depth {
                let mut o = RMsg::new(t);
                for side in 0..2 {
                    if side == 1 {
                        o.fields.push((n, RV::Msg(std::mem::replace(&mut m, RMsg::new(t)))));
                    }
                    if !scalars.is_empty() && (dense || rng.one_in(12)) {
                        let f = rng.pick(&scalars);
                        if let Ty::S(k) = f.ty {
                            o.fields.push((f.number, RV::Num(k, gen_raw(rng, k))));
                        }
                    }
                }
                m = o;
            }
            return m;
        }
    }
    let mut m = small.msg(rng, t, 0);
    if fields.is_empty() {
        return m;
    }
    let long: Vec<&Field> = fields
        .iter()
        .filter(|f| match f.ty {
            Ty::S(k) => !k.numeric() || f.mult == Mult::Repeated,
            _ => false,
        })
        .collect();
    if kind < 5 && !long.is_empty() {
        // one long value, perhaps with another
        for _ in 0..if rng.one_in(4) { 2 } else { 1 } {
            let f = *rng.pick(&long);
            let n = far_size(rng);
            let v = match f.ty {
                Ty::S(K::String) => {
                    let mut t = String::with_capacity(n);
                    let c = *rng.pick(&['a', 'é', '€', '🐟']);
                    let mixed = rng.bool();
                    while t.len() < n {
                        t.push(if mixed { (b' ' + rng.below(90) as u8) as char } else { c });
                    }
                    RV::Str(t)
                }
                Ty::S(K::Bytes) => RV::Bytes(rng.bytes(n)),
                Ty::S(k) => {
                    let n = if rng.one_in(3) { n } else { n / k_size(k) };
                    let same = rng.one_in(3);
                    let x = gen_raw(rng, k);
                    RV::Packed(k, (0..n).map(|_| if same { x } else { gen_raw(rng, k) }).collect())
                }
                _ => unreachable!(),
            };
            let at = rng.below(m.fields.len() + 1);
            m.fields.insert(at, (f.number, v));
        }
    } else {
        // many fields
        let n = far_size(rng).min(if rng.one_in(10) { 70_000 } else { 5000 });
        let one = rng.bool();
        let f0 = rng.pick(&fields).clone();
        let mut g = ValGen::new(s);
        g.depth = 0;
        for _ in 0..n {
            let f = if one { &f0 } else { rng.pick(&fields) };
            g.budget = 3;
            let mut v = g.value(rng, f, 0);
            if let RV::Packed(_, x) = &mut v {
                x.truncate(3);
            }
            m.fields.push((f.number, v));
        }
    }
    // inside another message
    if rng.one_in(3) {
        let holders: Vec<(Tid, u64)> = s
            .messages()
            .into_iter()
            .flat_map(|h| s.msg(h).fields.iter().filter(|f| f.ty == Ty::T(t)).map(move |f| (h, f.number)).collect::<Vec<_>>())
            .collect();
        if !holders.is_empty() {
            let (h, n) = *rng.pick(&holders);
            let mut o = small.msg(rng, h, 1);
            let at = rng.below(o.fields.len() + 1);
            o.fields.insert(at, (n, RV::Msg(m)));
            return o;
        }
    }
    m
}

fn k_size(k: K) -> usize {
    match k.wire() {
        1 => 8,
        5 => 4,
        _ => 5,
    }
}

/// A field number that the message does not declare.
pub fn undeclared(rng: &mut Rng, s: &Schema, tid: Tid) -> u64 {
    loop {
        let n = match rng.below(5) {
            0 => rng.below(20) as u64,
            1 => *rng.pick(&[0, 15, 16, 2047, 2048, 536870911, 536870912, (1 << 61) - 1, 1 << 60, 1 << 32]),
            2 => rng.weird() >> 3,
            _ => rng.below(5000) as u64,
        };
        if !s.msg(tid).fields.iter().any(|f| f.number == n) {
            return n;
        }
    }
}

pub fn gen_unknown(rng: &mut Rng, wt: u8, big: bool) -> RV {
    match wt {
        2 if big && rng.one_in(4) => {
            let n = far_size(rng);
            RV::ULen(rng.bytes(n))
        }
        0 => RV::UVar(rng.weird() as u128),
        1 => RV::U64(rng.weird()),
        2 => RV::ULen(gen_bytes(rng, big)),
        _ => RV::U32(rng.weird() as u32),
    }
}

/// Damages a payload in one of many ways.
pub fn damage(rng: &mut Rng, s: &Schema, tid: Tid, p: &[u8], other: &[u8]) -> Vec<u8> {
    let mut p = p.to_vec();
    for _ in 0..rng.range(1, 3) {
        match rng.below(11) {
            0 => {
                let n = rng.below(p.len() + 1);
                p.truncate(n);
            }
            1 if !p.is_empty() => {
                let i = rng.below(p.len());
                p[i] ^= 1 << rng.below(8);
            }
            2 if !p.is_empty() => {
                let i = rng.below(p.len());
                p[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]);
            }
            3 => {
                let i = rng.below(p.len() + 1);
                let n = rng.range(1, 12);
                let b = rng.bytes(n);
                p.splice(i..i, b);
            }
            4 if !p.is_empty() => {
                let i = rng.below(p.len());
                let j = (i + rng.range(1, 10)).min(p.len());
                p.drain(i..j);
            }
            5 => {
                // a hostile varint somewhere
                let i = rng.below(p.len() + 1);
                let n = rng.range(1, 14);
                let mut b = vec![*rng.pick(&[0x80u8, 0xff, 0xfe, 0x81]); n];
                if rng.bool() {
                    b.push(*rng.pick(&[0u8, 1, 2, 0x7f]));
                }
                let j = if rng.bool() { (i + 1).min(p.len()) } else { i };
                p.splice(i..j, b);
            }
            6 => {
                let i = rng.below(p.len() + 1);
                let j = rng.below(other.len() + 1);
                p.truncate(i);
                p.extend_from_slice(&other[j..]);
            }
            7 => {
                let b = soup(rng, s, tid, 6);
                let i = if rng.bool() { p.len() } else { rng.below(p.len() + 1) };
                p.splice(i..i, b);
            }
            8 => {
                // a length that lies
                let n = field_num(rng, s, tid);
                put_varint(&mut p, n << 3 | 2);
                let l = rng.weird();
                put_varint(&mut p, l);
                let k = rng.below(20);
                let b = rng.bytes(k);
                p.extend(b);
            }
            9 => {
                let n = rng.range(1, 15);
                p.extend(vec![*rng.pick(&[0x80u8, 0xff]); n]);
            }
            _ => {
                if !p.is_empty() {
                    let i = rng.below(p.len());
                    let n = rng.range(1, 8).min(p.len() - i);
                    let c: Vec<u8> = p[i..i + n].to_vec();
                    let j = rng.below(p.len());
                    p.splice(j..j, c);
                }
            }
        }
    }
    p
}

fn field_num(rng: &mut Rng, s: &Schema, tid: Tid) -> u64 {
    let f = &s.msg(tid).fields;
    if f.is_empty() || rng.one_in(5) {
        rng.weird() & ((1 << 61) - 1)
    } else {
        rng.pick(f).number
    }
}

/// Tags of declared and other fields with arbitrary wire types and arbitrary content.
pub fn soup(rng: &mut Rng, s: &Schema, tid: Tid, n: usize) -> Vec<u8> {
    let mut p = vec![];
    for _ in 0..rng.range(1, n) {
        let num = field_num(rng, s, tid);
        let wt = match rng.below(12) {
            0 => rng.below(8) as u64,
            1..=3 => 0,
            4 => 1,
            5 => 5,
            _ => 2,
        };
        put_varint(&mut p, num << 3 | wt);
        match wt {
            0 => {
                let v = rng.weird();
                if rng.one_in(8) {
                    p.extend(vec![0xff; rng.range(8, 12)]);
                    p.push(rng.below(4) as u8);
                } else {
                    put_varint(&mut p, v)
                }
            }
            1 => p.extend_from_slice(&rng.weird().to_le_bytes()),
            5 => p.extend_from_slice(&(rng.weird() as u32).to_le_bytes()),
            2 => {
                let k = rng.below(16);
                let b = if rng.one_in(3) {
                    let ms = s.messages();
                    let t = *rng.pick(&ms);
                    if n > 1 {
                        soup(rng, s, t, n / 2)
                    } else {
                        vec![]
                    }
                } else {
                    rng.bytes(k)
                };
                let l = match rng.below(20) {
                    0 => b.len() as u64 + 1,
                    1 => rng.weird(),
                    2 => b.len().saturating_sub(1) as u64,
                    _ => b.len() as u64,
                };
                put_varint(&mut p, l);
                p.extend(b);
            }
            _ => {
                let k = rng.below(10);
                let b = rng.bytes(k);
                p.extend(b);
            }
        }
    }
    p
}

/// Any payload at all.
pub fn any_payload(rng: &mut Rng, s: &Schema, tid: Tid) -> Vec<u8> {
    match rng.below(10) {
        0 => {
            let n = rng.below(40);
            rng.bytes(n)
        }
        1 | 2 => soup(rng, s, tid, 12),
        3 => {
            let m = gen_msg(rng, s, tid);
            encode_sloppy(&m, rng)
        }
        4 => {
            let m = gen_msg(rng, s, tid);
            encode(&m)
        }
        _ => {
            let m = gen_msg(rng, s, tid);
            let p = if rng.one_in(4) { encode_sloppy(&m, rng) } else { encode(&m) };
            let ms = s.messages();
            let t = *rng.pick(&ms);
            let o = gen_msg(rng, s, t);
            let o = encode(&o);
            damage(rng, s, tid, &p, &o)
        }
    }
}

/// A payload in which one nested message is damaged and the lengths around it are right.
pub fn nested_damage(rng: &mut Rng, s: &Schema, m: &RMsg) -> RMsg {
    let mut m = m.clone();
    let subs: Vec<usize> = (0..m.fields.len()).filter(|i| matches!(m.fields[*i].1, RV::Msg(_))).collect();
    if subs.is_empty() {
        return m;
    }
    let i = *rng.pick(&subs);
    if let RV::Msg(sub) = m.fields[i].1.clone() {
        if rng.bool() {
            m.fields[i].1 = RV::Msg(nested_damage(rng, s, &sub));
        } else {
            let b = encode(&sub);
            let d = damage(rng, s, sub.tid, &b, &b.clone());
            let mut v = varint(d.len() as u64);
            v.extend(d);
            m.fields[i].1 = RV::Raw(2, v);
        }
    }
    m
}
