//! Payloads across versions of a schema (C25), declarations among others (C26).

use super::dec::{at_scale, diff, env_of, huge, nest, Env};
use super::eq::respell;
use crate::ctx::{snap_ctx, Ctx, Snap};
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::render::{self, Layout};
use crate::rng::Rng;
use crate::wire::*;
use protofish::context::{Context, ParseError, TypeInfo, TypeRef};
use std::collections::{BTreeMap, BTreeSet, HashSet};

// --------------------------------------------------------------------------------------- C25

fn reindex(items: &mut Vec<Item>, gone: usize) {
    items.retain(|x| !matches!(x, Item::Field(j) if *j == gone));
    for x in items {
        if let Item::Field(j) = x {
            if *j > gone {
                *j -= 1;
            }
        }
    }
}

fn remove_field(m: &mut Msg, i: usize) -> bool {
    if let Some(o) = m.fields[i].oneof {
        if m.fields.iter().filter(|f| f.oneof == Some(o)).count() < 2 {
            return false;
        }
    }
    m.fields.remove(i);
    reindex(&mut m.body, i);
    for b in &mut m.oneof_bodies {
        reindex(b, i);
    }
    true
}

fn any_ty(rng: &mut Rng, s: &Schema) -> Ty {
    if rng.bool() {
        Ty::S(*rng.pick(&KINDS))
    } else {
        Ty::T(rng.below(s.types.len()))
    }
}

/// A field like the ones of its message but with a free number.
fn add_field(rng: &mut Rng, s: &mut Schema, t: Tid, name: String, at_start: bool, reserved: &[u64]) {
    let ty = any_ty(rng, s);
    let m = s.msg_mut(t);
    let used: BTreeMap<u64, ()> = m.fields.iter().map(|f| f.number).chain(reserved.iter().copied()).map(|n| (n, ())).collect();
    let number = gen::field_number(rng, &used, false);
    let i = m.fields.len();
    let f = Field {
        name,
        number,
        ty,
        mult: *rng.pick(&[Mult::Single, Mult::Optional, Mult::Repeated]),
        opts: vec![],
        oneof: None,
        spelling: String::new(),
        num_lit: number.to_string(),
    };
    if rng.one_in(4) && f.mult != Mult::Repeated && !m.oneofs.is_empty() {
        let o = rng.below(m.oneofs.len());
        m.fields.push(Field {
            oneof: Some(o),
            mult: Mult::Single,
            ..f
        });
        m.oneof_bodies[o].push(Item::Field(i));
        return;
    }
    m.fields.push(f);
    if at_start {
        m.body.insert(0, Item::Field(i));
    } else {
        m.body.push(Item::Field(i));
    }
}

fn add_type(rng: &mut Rng, s: &mut Schema, parent: Parent, name: String, at_start: bool) {
    let t = s.types.len();
    let e = rng.one_in(3);
    let kind = if e {
        Kind::Enum(Enum {
            values: vec![EnumValue {
                name: format!("{}_ZERO", name.to_uppercase()),
                value: 0,
                lit: vec!["0".into()],
                opts: vec![],
            }],
            opts: vec![],
            body: vec![Item::Value(0)],
        })
    } else {
        Kind::Msg(Msg::default())
    };
    s.types.push(Type {
        name,
        full: String::new(),
        parent,
        kind,
    });
    let body = match parent {
        Parent::File(f) => &mut s.files[f].items,
        Parent::Type(p) => {
            let m = s.msg_mut(p);
            m.inner.push(t);
            &mut m.body
        }
    };
    if at_start {
        body.insert(0, Item::Type(t));
    } else {
        body.push(Item::Type(t));
    }
    if !e {
        for i in 0..rng.below(4) {
            add_field(rng, s, t, format!("zz_new{}", i), false, &[]);
        }
    }
}

/// Another version of the schema. Whether the type of a field that stays has changed.
fn evolve(rng: &mut Rng, s: &mut Schema) -> bool {
    let mut retyped = false;
    let types = s.types.len();
    let change_types = rng.bool();
    for t in s.messages() {
        let mut gone = vec![];
        let mut i = 0;
        while i < s.msg(t).fields.len() {
            let ty = any_ty(rng, s);
            let scalar = Ty::S(*rng.pick(&KINDS));
            let m = s.msg_mut(t);
            let alone = m.fields[i].oneof.is_none();
            match rng.below(12) {
                0 | 1 => {
                    let n = m.fields[i].number;
                    if remove_field(m, i) {
                        // its number may come back for something else
                        if !change_types {
                            gone.push(n);
                        }
                        retyped |= change_types;
                        continue;
                    }
                }
                2 | 3 if change_types => {
                    let f = &mut m.fields[i];
                    // mostly one that is written the same way
                    let near = |a: Ty, b: Ty| matches!((a, b), (Ty::S(a), Ty::S(b)) if a.wire() == b.wire());
                    let ty = if near(f.ty, scalar) || rng.bool() { scalar } else { ty };
                    if f.ty != ty {
                        f.ty = ty;
                        f.opts.retain(|o| o.name != "packed");
                        retyped = true;
                    }
                }
                4 if alone && change_types => {
                    let f = &mut m.fields[i];
                    let u = *rng.pick(&[Mult::Single, Mult::Optional, Mult::Repeated]);
                    if f.mult != u {
                        f.mult = u;
                        f.opts.retain(|o| o.name != "packed");
                        retyped = true;
                    }
                }
                5 | 6 => m.fields[i].name = format!("zz_renamed{}", i),
                7 => {
                    // into a oneof or out of it
                    let f = &m.fields[i];
                    if let Some(o) = f.oneof {
                        if m.fields.iter().filter(|f| f.oneof == Some(o)).count() > 1 {
                            m.oneof_bodies[o].retain(|x| !matches!(x, Item::Field(j) if *j == i));
                            m.fields[i].oneof = None;
                            m.fields[i].mult = Mult::Single;
                            m.body.push(Item::Field(i));
                        }
                    } else if f.mult != Mult::Repeated && !m.oneofs.is_empty() {
                        let o = rng.below(m.oneofs.len());
                        m.body.retain(|x| !matches!(x, Item::Field(j) if *j == i));
                        m.fields[i].oneof = Some(o);
                        m.fields[i].mult = Mult::Single;
                        m.oneof_bodies[o].push(Item::Field(i));
                    }
                }
                8 => {
                    // elsewhere in the text
                    let b = &mut m.body;
                    if let Some(p) = b.iter().position(|x| matches!(x, Item::Field(j) if *j == i)) {
                        let x = b.remove(p);
                        let q = rng.below(b.len() + 1);
                        b.insert(q, x);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        for i in 0..rng.below(4) {
            let first = rng.bool();
            add_field(rng, s, t, format!("zz_added{}", i), first, &gone);
        }
    }
    for i in 0..rng.below(4) {
        let f = rng.below(s.files.len());
        let first = rng.bool();
        add_type(rng, s, Parent::File(f), format!("ZzNew{}", i), first);
    }
    for t in 0..types {
        if rng.one_in(4) {
            s.types[t].name = format!("ZzEvo{}", t);
        }
        if let Kind::Enum(e) = &mut s.types[t].kind {
            for (i, v) in e.values.iter_mut().enumerate() {
                if rng.one_in(3) {
                    v.name = format!("ZZ_VALUE{}_{}", t, i);
                }
            }
            if e.values.len() > 1 && rng.one_in(3) {
                let i = e.values.len() - 1;
                if e.values[i].value != 0 {
                    e.values.pop();
                    e.body.retain(|x| !matches!(x, Item::Value(j) if *j == i));
                }
            }
        }
    }
    for (i, f) in s.files.iter_mut().enumerate() {
        if rng.one_in(3) {
            f.package = Some(format!("zzevo{}", i));
        }
    }
    respell(s);
    retyped
}

fn unknown(v: &RV) -> RV {
    let (w, b) = encode_value(v);
    match w {
        0 => RV::UVar(get_varint(&b).unwrap().0 as u128),
        1 => RV::U64(u64::from_le_bytes(b.try_into().unwrap())),
        5 => RV::U32(u32::from_le_bytes(b.try_into().unwrap())),
        _ => RV::ULen(content(v)),
    }
}

/// What is inside a delimited value.
fn content(v: &RV) -> Vec<u8> {
    match v {
        RV::Str(x) => x.clone().into_bytes(),
        RV::Bytes(x) | RV::ULen(x) => x.clone(),
        RV::Msg(m) => encode(m),
        v => {
            let (_, b) = encode_value(v);
            let n = get_varint(&b).unwrap().1;
            b[n..].to_vec()
        }
    }
}

fn to_varint(k: K, raw: u64) -> u64 {
    match k {
        K::SInt32 => zigzag32(raw as i32),
        K::SInt64 => zigzag64(raw as i64),
        _ => raw,
    }
}

/// A number of one type as another that is written with the same number of bytes.
fn convert_num(from: K, to: K, raw: u64) -> u64 {
    match to.wire() {
        0 => from_varint(to, to_varint(from, raw)),
        5 if to == K::SFixed32 => raw as u32 as i32 as i64 as u64,
        5 => raw as u32 as u64,
        _ => raw,
    }
}

/// What a value of one version is in another.
fn convert(w: &WSchema, v: &RV, f: Option<&WField>) -> RV {
    let f = match f {
        Some(f) => f,
        None => return unknown(v),
    };
    match (v, f.ty) {
        (RV::Num(k, x), Ty::S(l)) if l.numeric() && k.wire() == l.wire() => RV::Num(l, convert_num(*k, l, *x)),
        (RV::Enum(_, x), Ty::S(l)) if l.wire() == 0 => RV::Num(l, from_varint(l, *x as u64)),
        (RV::Num(k, x), Ty::T(t)) if k.wire() == 0 && f.is_enum => RV::Enum(t, to_varint(*k, *x) as i64),
        (RV::Enum(_, x), Ty::T(t)) if f.is_enum => RV::Enum(t, *x),
        (RV::Packed(k, x), Ty::S(l)) if l.numeric() && f.repeated && k.wire() == l.wire() => {
            RV::Packed(l, x.iter().map(|x| convert_num(*k, l, *x)).collect())
        }
        (RV::Msg(m), Ty::T(t)) if !f.is_enum => RV::Msg(convert_msg(w, m, t)),
        (RV::Str(x), Ty::S(K::String)) => RV::Str(x.clone()),
        (RV::Str(_) | RV::Bytes(_) | RV::Msg(_) | RV::Packed(..), Ty::S(K::String)) => {
            RV::Str(String::from_utf8_lossy(&content(v)).into_owned())
        }
        (RV::Str(_) | RV::Bytes(_) | RV::Msg(_) | RV::Packed(..), Ty::S(K::Bytes)) => RV::Bytes(content(v)),
        (RV::Str(_) | RV::Bytes(_) | RV::Packed(..), Ty::T(t)) if !f.is_enum => RV::Msg(w.decode(t, &content(v))),
        // the bytes of something else as an array
        (RV::Str(_) | RV::Bytes(_) | RV::Msg(_) | RV::Packed(..), Ty::S(l)) if l.numeric() && f.repeated => array(l, v),
        _ => unknown(v),
    }
}

fn array(k: K, v: &RV) -> RV {
    let b = content(v);
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        match num(&b[at..], k) {
            Some((x, n)) => {
                out.push(x);
                at += n;
            }
            None => return RV::Incomplete(2, encode_value(v).1),
        }
    }
    RV::Packed(k, out)
}

fn convert_msg(w: &WSchema, m: &RMsg, t: Tid) -> RMsg {
    RMsg {
        tid: t,
        fields: m.fields.iter().map(|(n, v)| (*n, convert(w, v, w.msgs.get(&t).and_then(|x| x.get(n))))).collect(),
        garbage: None,
    }
}

fn hop(cx: &mut Cx, from: &Env, to: &Env, t: Tid, retyped: bool, big: bool) -> R {
    let m = if big {
        let mut m = huge(cx, &from.s);
        if !to.w.msgs.contains_key(&m.tid) {
            m = gen_msg(&mut cx.rng, &from.s, t);
        }
        m
    } else {
        gen_msg(&mut cx.rng, &from.s, t)
    };
    let t = m.tid;
    let what = |p: &[u8]| format!("{} {}, then {}", from.s.types[t].full, hex(p), to.s.types[t].full);
    let v1 = from.c.lower(&m);
    let p = from.encode(&v1)?;
    if p != encode(&m) {
        // for C05 to judge
        return Ok(());
    }
    let want = convert_msg(&to.w, &m, t);
    let v = to.decode(t, &p)?;
    let got = to.c.lift(&v).map_err(|e| Fail(format!("{}: {}", e, what(&p))))?;
    if let Some(d) = diff(&want, &got) {
        return Err(Fail(format!("written under one schema, read under another: {}\n{}", d, what(&p))));
    }
    let known = |m: &RMsg| m.fields.iter().filter(|(_, v)| !matches!(v, RV::UVar(_) | RV::U64(_) | RV::U32(_) | RV::ULen(_))).count();
    cx.add("fields known to both versions", known(&got) as u64);
    cx.add("fields unknown to the reader", (got.fields.len() - known(&got)) as u64);
    // what passes through the other version comes back
    let q = to.encode(&v)?;
    let expected = encode(&want);
    ensure!(q == expected, "a payload passed on by another version becomes {} rather than {}\n{}", hex(&q), hex(&expected), what(&p));
    if expected == p {
        cx.count("payloads passed on unchanged");
        let back = from.lifted(t, &q)?;
        if let Some(d) = diff(&m, &back) {
            return Err(Fail(format!("written, passed on by another version, read again: {}\n{}", d, what(&p))));
        }
    }
    ensure!(retyped || expected == p, "harness: {} becomes {}", hex(&p), hex(&expected));
    // an edit under the other version is the only change
    if !want.fields.is_empty() {
        let i = cx.rng.below(want.fields.len());
        let mut edited = v.clone();
        let n = want.fields[i].0;
        if let Some(f) = to.s.msg(t).fields.iter().find(|f| f.number == n) {
            let new = ValGen::new(&to.s).value(&mut cx.rng, f, 2);
            edited.fields[i].value = to.c.lower_value(&new);
            let mut w2 = want.clone();
            w2.fields[i].1 = new;
            let q = to.encode(&edited)?;
            let back = from.lifted(t, &q)?;
            let w3 = from.w.decode(t, &encode(&w2));
            if let Some(d) = diff(&w3, &back) {
                return Err(Fail(format!("field {} changed under another version, read again: {}\n{}", n, d, what(&p))));
            }
            cx.count("fields edited under the other version");
        }
    }
    cx.eval(&p, !m.fields.is_empty());
    Ok(())
}

pub fn c25(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::wire();
    if cx.rng.one_in(6) {
        cfg.fields = 40;
        cfg.min_fields = 20;
    }
    let mut s1 = gen::generate(&mut cx.rng, &cfg);
    if cx.rng.bool() {
        let t = *cx.rng.pick(&s1.messages());
        nest(&mut cx.rng, &mut s1, t);
    }
    let mut s2 = s1.clone();
    let retyped = evolve(&mut cx.rng, &mut s2);
    let (h1, h2) = (cx.rng.one_in(4), cx.rng.one_in(4));
    let e1 = env_of(cx, s1, h1)?;
    let e2 = env_of(cx, s2, h2)?;
    let ms = e1.s.messages();
    let big = at_scale(cx);
    for i in 0..16 {
        let t = *cx.rng.pick(&ms);
        hop(cx, &e1, &e2, t, retyped, big && i == 0)?;
        hop(cx, &e2, &e1, t, retyped, big && i == 1)?;
    }
    cx.sample(|| format!("{}\n=====\n{}", e1.texts.join("\n"), e2.texts.join("\n")).chars().take(1500).collect());
    Ok(())
}

// --------------------------------------------------------------------------------------- C26

fn shift_items(items: &mut [Item], types: usize, services: usize) {
    for i in items {
        match i {
            Item::Type(t) => *t += types,
            Item::Service(v) => *v += services,
            _ => {}
        }
    }
}

/// Adds the declarations of one schema to another.
fn absorb(s: &mut Schema, x: &Schema) {
    let (nt, nf, nv) = (s.types.len(), s.files.len(), s.services.len());
    for t in &x.types {
        let mut t = t.clone();
        t.parent = match t.parent {
            Parent::File(f) => Parent::File(f + nf),
            Parent::Type(p) => Parent::Type(p + nt),
        };
        if let Kind::Msg(m) = &mut t.kind {
            for f in &mut m.fields {
                if let Ty::T(x) = &mut f.ty {
                    *x += nt;
                }
            }
            for i in &mut m.inner {
                *i += nt;
            }
            shift_items(&mut m.body, nt, nv);
        }
        s.types.push(t);
    }
    for v in &x.services {
        let mut v = v.clone();
        v.file += nf;
        for r in &mut v.rpcs {
            r.input += nt;
            r.output += nt;
        }
        s.services.push(v);
    }
    for f in &x.files {
        let mut f = f.clone();
        shift_items(&mut f.items, nt, nv);
        s.files.push(f);
    }
}

/// Gives what is declared in the files names that are nowhere else.
fn estrange(rng: &mut Rng, x: &mut Schema, s: &Schema) {
    let mut packages: Vec<Option<String>> = s.files.iter().map(|f| f.package.clone()).collect();
    for p in s.files.iter().filter_map(|f| f.package.as_ref()) {
        packages.push(p.rfind('.').map(|i| p[..i].to_string()));
        packages.push(Some(format!("{}.zzsub", p)));
        packages.push(Some(format!("zzx.{}", p)));
    }
    for (i, f) in x.files.iter_mut().enumerate() {
        f.package = match rng.below(4) {
            0 => Some(format!("zzx.p{}", i)),
            1 => Some(format!("zzx{}", i)),
            _ => rng.pick(&packages).clone(),
        };
    }
    for t in 0..x.types.len() {
        if let Parent::File(_) = x.types[t].parent {
            x.types[t].name = format!("Zzx{}{}", t, x.types[t].name);
        }
    }
    for (i, v) in x.services.iter_mut().enumerate() {
        v.name = format!("Zzv{}{}", i, v.name);
    }
    respell(x);
}

/// The same declarations in packages of their own, with other types here and there.
fn echo(rng: &mut Rng, s: &Schema) -> Schema {
    let mut x = s.clone();
    let sy = s.symbols();
    let taken = |n: &str| sy.map.keys().any(|k| k.split('.').any(|c| c == n));
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    for (i, f) in x.files.iter_mut().enumerate() {
        let old = f.package.clone().unwrap_or_default();
        let (first, rest) = match old.find('.') {
            Some(i) => old.split_at(i),
            None => (old.as_str(), ""),
        };
        // of the same length if there is one
        let new = names.entry(first.to_string()).or_insert_with(|| {
            let mut n = "q".repeat(first.len());
            if n.is_empty() || taken(&n) {
                n = format!("zzq{}", i);
            }
            n
        });
        f.package = Some(format!("{}{}", new, rest));
    }
    // of two names one may be the start of the other
    let all: BTreeSet<&String> = names.values().collect();
    if all.len() < names.len() {
        for (i, f) in x.files.iter_mut().enumerate() {
            f.package = Some(match &s.files[i].package {
                Some(p) => format!("zzq.{}", p),
                None => "zzq".into(),
            });
        }
    }
    if rng.bool() {
        for t in x.messages() {
            for i in 0..x.msg(t).fields.len() {
                if rng.one_in(3) {
                    let ty = any_ty(rng, &x);
                    let f = &mut x.msg_mut(t).fields[i];
                    f.ty = ty;
                    f.opts.retain(|o| o.name != "packed");
                }
            }
        }
    }
    respell(&mut x);
    spell_shortly(rng, &mut x);
    x
}

/// Moves some top-level declarations to files of their own.
fn scatter(rng: &mut Rng, s: &mut Schema) {
    for f in 0..s.files.len() {
        let items = std::mem::take(&mut s.files[f].items);
        let mut stay = vec![];
        for i in items {
            if s.files.len() > 200 || !matches!(i, Item::Type(_) | Item::Service(_)) || rng.bool() {
                stay.push(i);
                continue;
            }
            let n = s.files.len();
            match i {
                Item::Type(t) => s.types[t].parent = Parent::File(n),
                Item::Service(v) => s.services[v].file = n,
                _ => {}
            }
            s.files.push(File {
                package: s.files[f].package.clone(),
                items: vec![i],
                ..Default::default()
            });
        }
        s.files[f].package_at = s.files[f].package_at.min(stay.len());
        s.files[f].items = stay;
    }
}

/// Other spellings of the same references.
fn spell_shortly(rng: &mut Rng, x: &mut Schema) {
    let sy = x.symbols();
    let fulls: Vec<String> = x.types.iter().map(|t| t.full.clone()).collect();
    let mut shorten = |spelling: &mut String, t: Tid, scope: &str, rpc: bool| {
        if rng.one_in(4) {
            return;
        }
        let v = gen::spellings(&sy, &fulls[t], scope, sy.map[&fulls[t]], rpc);
        *spelling = rng.pick(&v).clone();
    };
    for t in &mut x.types {
        if let Kind::Msg(m) = &mut t.kind {
            for f in &mut m.fields {
                if let Ty::T(x) = f.ty {
                    shorten(&mut f.spelling, x, &t.full, false);
                }
            }
        }
    }
    for v in &mut x.services {
        for r in &mut v.rpcs {
            shorten(&mut r.input_spelling, r.input, &v.full, true);
            shorten(&mut r.output_spelling, r.output, &v.full, true);
        }
    }
}

/// Every word that means something in the schema.
fn words(s: &Schema) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut add = |n: &str| out.extend(n.split('.').map(|c| c.to_string()));
    for f in &s.files {
        add(f.package.as_deref().unwrap_or(""));
    }
    for t in &s.types {
        add(&t.full);
        match &t.kind {
            Kind::Msg(m) => {
                m.oneofs.iter().for_each(|o| add(&o.name));
                for f in &m.fields {
                    add(&f.name);
                    add(&f.spelling);
                }
            }
            Kind::Enum(e) => e.values.iter().for_each(|v| add(&v.name)),
        }
    }
    for v in &s.services {
        add(&v.full);
        for r in &v.rpcs {
            add(&r.name);
            add(&r.input_spelling);
            add(&r.output_spelling);
        }
    }
    out
}

/// Names that are in use in the scope.
fn siblings(s: &Schema, parent: Parent) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let values = |t: &Type, out: &mut BTreeSet<String>| {
        if let Kind::Enum(e) = &t.kind {
            out.extend(e.values.iter().map(|v| v.name.clone()));
        }
    };
    let scope = match parent {
        Parent::File(f) => {
            let p = &s.files[f].package;
            for t in &s.types {
                if matches!(t.parent, Parent::File(g) if s.files[g].package == *p) {
                    out.insert(t.name.clone());
                    values(t, &mut out);
                }
            }
            out.extend(s.services.iter().filter(|v| s.files[v.file].package == *p).map(|v| v.name.clone()));
            p.clone().unwrap_or_default()
        }
        Parent::Type(t) => {
            let m = s.msg(t);
            out.extend(m.fields.iter().map(|f| f.name.clone()));
            out.extend(m.oneofs.iter().map(|o| o.name.clone()));
            for i in &m.inner {
                out.insert(s.types[*i].name.clone());
                values(&s.types[*i], &mut out);
            }
            s.types[t].full.clone()
        }
    };
    // packages
    for p in s.files.iter().filter_map(|f| f.package.as_ref()) {
        let rest = if scope.is_empty() { Some(p.as_str()) } else { p.strip_prefix(&scope).and_then(|r| r.strip_prefix('.')) };
        out.extend(rest.and_then(|r| r.split('.').next()).map(|c| c.to_string()));
    }
    out
}

/// A name that is not in use, often one close to a name that is. If all references are absolute it
/// may be one that is in use elsewhere.
fn new_name(rng: &mut Rng, s: &Schema, parent: Parent, absolute: bool, i: usize) -> String {
    let plain = format!("ZzTop{}", i);
    if s.types.is_empty() || rng.one_in(4) {
        return plain;
    }
    let base = &rng.pick(&s.types).name;
    let mut name = match rng.below(9) {
        _ if absolute && rng.bool() => base.clone(),
        0 | 1 => format!("{}_", base),
        2 => format!("{}{}", base, rng.below(10)),
        3 => format!("x{}", base),
        4 => base[..base.len() - 1].to_string(),
        5 => base.to_lowercase(),
        6 => base.to_uppercase(),
        7 => format!("{}{}", base, base),
        _ => format!("{}Type", base),
    };
    if rng.one_in(6) && absolute {
        name = words(s).into_iter().nth(rng.below(8)).unwrap_or_default();
    }
    let ours = name.starts_with("zz") || name.chars().all(|c| c == 'q');
    let ok = !ours && name.starts_with(|c: char| c.is_ascii_alphabetic()) && !gen::KEYWORDS.contains(&name.as_str());
    let free = if absolute { !siblings(s, parent).contains(&name) } else { !words(s).contains(&name) };
    // what is declared next to a package of its name
    if !ok || !free || siblings(s, parent).contains(&name) || siblings(s, parent).contains(&format!("{}_ZERO", name.to_uppercase())) {
        plain
    } else {
        name
    }
}

/// A reference that leads nowhere or to the wrong kind of thing.
fn fault(rng: &mut Rng, s: &mut Schema, x: &Schema) -> Option<&'static str> {
    match rng.below(6) {
        4 | 5 => {
            // a name that something unrelated has elsewhere
            let c: Vec<(Tid, usize)> = s.messages().into_iter().flat_map(|t| (0..s.msg(t).fields.len()).map(move |i| (t, i))).collect();
            let c: Vec<(Tid, usize)> = c.into_iter().filter(|(t, i)| matches!(s.msg(*t).fields[*i].ty, Ty::T(_))).collect();
            if c.is_empty() || x.types.is_empty() {
                return None;
            }
            let (t, i) = *rng.pick(&c);
            let full = &rng.pick(&x.types).full;
            let parts: Vec<&str> = full.split('.').collect();
            let n = rng.range(1, parts.len().min(3));
            let mut name = parts[parts.len() - n..].join(".");
            if rng.one_in(3) {
                name = match rng.below(3) {
                    0 => full.to_lowercase(),
                    1 => format!("{}.{}", s.types[t].name, full),
                    _ => format!(".{}", name),
                };
            }
            let mut all = s.clone();
            absorb(&mut all, x);
            let sy = all.symbols();
            let first = name.split('.').next().unwrap_or("");
            if gen::KEYWORDS.contains(&first) || sy.satisfiable(&name, &s.types[t].full) || sy.protoc(&name, &s.types[t].full, false).is_some() {
                return None;
            }
            s.msg_mut(t).fields[i].spelling = name;
            Some("a field of a type that only has its name elsewhere")
        }
        0 | 1 => {
            let c: Vec<(Tid, usize)> = s.messages().into_iter().flat_map(|t| (0..s.msg(t).fields.len()).map(move |i| (t, i))).collect();
            let c: Vec<(Tid, usize)> = c.into_iter().filter(|(t, i)| matches!(s.msg(*t).fields[*i].ty, Ty::T(_))).collect();
            if c.is_empty() {
                return None;
            }
            let (t, i) = *rng.pick(&c);
            let f = &mut s.msg_mut(t).fields[i];
            f.spelling = if rng.bool() { "Qq.Missing".into() } else { format!("{}.Missing", f.spelling) };
            Some("a field of a type that does not exist")
        }
        2 => {
            let c: Vec<(usize, usize)> = (0..s.services.len()).flat_map(|v| (0..s.services[v].rpcs.len()).map(move |r| (v, r))).collect();
            if c.is_empty() {
                return None;
            }
            let (v, r) = *rng.pick(&c);
            s.services[v].rpcs[r].output_spelling = ".qq.Missing".into();
            Some("an rpc of a type that does not exist")
        }
        _ => {
            let c: Vec<(usize, usize)> = (0..s.services.len()).flat_map(|v| (0..s.services[v].rpcs.len()).map(move |r| (v, r))).collect();
            let es = s.enums();
            if c.is_empty() || es.is_empty() {
                return None;
            }
            let (v, r) = *rng.pick(&c);
            let e = *rng.pick(&es);
            s.services[v].rpcs[r].input_spelling = format!(".{}", s.types[e].full);
            Some("an rpc with an enum")
        }
    }
}

/// Puts further declarations next to the ones of the schema. Returns the names whose own
/// declaration has changed, and whether fields have come.
fn enlarge(rng: &mut Rng, s: &mut Schema, types: usize, absolute: bool) -> (BTreeSet<String>, bool) {
    let mut touched = BTreeSet::new();
    let ms: Vec<Tid> = (0..types).filter(|t| s.is_msg(*t)).collect();
    let mut fields = false;
    let with_fields = rng.bool();
    for i in 0..rng.below(5) {
        let first = rng.bool();
        match rng.below(5) {
            0 => {
                let f = rng.below(s.files.len());
                let name = new_name(rng, s, Parent::File(f), absolute, i);
                add_type(rng, s, Parent::File(f), name, first);
                resemble(rng, s, types);
            }
            1 if !ms.is_empty() => {
                let t = *rng.pick(&ms);
                let name = new_name(rng, s, Parent::Type(t), absolute, i);
                add_type(rng, s, Parent::Type(t), name, first);
                resemble(rng, s, types);
                touched.insert(s.types[t].full.clone());
            }
            2 if !ms.is_empty() && with_fields => {
                let t = *rng.pick(&ms);
                add_field(rng, s, t, format!("zz_more{}", i), first, &[]);
                touched.insert(s.types[t].full.clone());
                fields = true;
            }
            3 => {
                let all = s.messages();
                let f = rng.below(s.files.len());
                if all.is_empty() {
                    continue;
                }
                let v = s.services.len();
                s.services.push(Service {
                    name: format!("ZzService{}", i),
                    full: String::new(),
                    file: f,
                    rpcs: vec![],
                    opts: vec![],
                    body: vec![],
                });
                let at = if first { 0 } else { s.files[f].items.len() };
                s.files[f].items.insert(at, Item::Service(v));
                add_rpc(rng, s, v, "ZzCall".into(), first);
            }
            _ => {
                if s.services.is_empty() || s.messages().is_empty() {
                    continue;
                }
                let v = rng.below(s.services.len());
                touched.insert(s.services[v].full.clone());
                add_rpc(rng, s, v, format!("ZzMore{}", i), first);
            }
        }
    }
    (touched, fields)
}

/// Gives the last type the fields of another one, with other types.
fn resemble(rng: &mut Rng, s: &mut Schema, types: usize) {
    let last = s.types.len() - 1;
    if !s.is_msg(last) || rng.one_in(3) {
        return;
    }
    let name = s.types[last].name.clone();
    let same: Vec<Tid> = (0..types).filter(|t| s.is_msg(*t) && s.types[*t].name == name).collect();
    let any: Vec<Tid> = (0..types).filter(|t| s.is_msg(*t)).collect();
    let c = if same.is_empty() { any } else { same };
    if c.is_empty() {
        return;
    }
    let from = s.msg(*rng.pick(&c)).fields.clone();
    let mut fields = vec![];
    for mut f in from {
        f.ty = any_ty(rng, s);
        f.opts = vec![];
        f.oneof = None;
        f.spelling = String::new();
        fields.push(f);
    }
    let m = s.msg_mut(last);
    m.body = (0..fields.len()).map(Item::Field).collect();
    m.fields = fields;
}

fn add_rpc(rng: &mut Rng, s: &mut Schema, v: usize, name: String, at_start: bool) {
    let ms = s.messages();
    let (a, b) = (*rng.pick(&ms), *rng.pick(&ms));
    let v = &mut s.services[v];
    let r = v.rpcs.len();
    v.rpcs.push(Rpc {
        name,
        input: a,
        input_spelling: String::new(),
        input_stream: rng.bool(),
        output: b,
        output_spelling: String::new(),
        output_stream: rng.bool(),
        opts: vec![],
        body: None,
    });
    let at = if at_start { 0 } else { v.body.len() };
    v.body.insert(at, Item::Rpc(r));
}

/// Full names, and spellings of what has none.
fn complete(s: &mut Schema) {
    let mut full = s.clone();
    respell(&mut full);
    for (t, f) in s.types.iter_mut().zip(full.types) {
        t.full = f.full;
        if let (Kind::Msg(m), Kind::Msg(n)) = (&mut t.kind, f.kind) {
            for (a, b) in m.fields.iter_mut().zip(n.fields) {
                if a.spelling.is_empty() {
                    a.spelling = b.spelling;
                }
            }
        }
    }
    for (v, f) in s.services.iter_mut().zip(full.services) {
        v.full = f.full;
        for (a, b) in v.rpcs.iter_mut().zip(f.rpcs) {
            if a.input_spelling.is_empty() {
                a.input_spelling = b.input_spelling;
            }
            if a.output_spelling.is_empty() {
                a.output_spelling = b.output_spelling;
            }
        }
    }
}

/// Lists with their orders kept.
fn weave(rng: &mut Rng, a: Vec<String>, b: Vec<String>) -> Vec<String> {
    let mut out = vec![];
    let (mut a, mut b) = (a.into_iter().peekable(), b.into_iter().peekable());
    while a.peek().is_some() || b.peek().is_some() {
        let first = b.peek().is_none() || (a.peek().is_some() && rng.bool());
        out.extend(if first { a.next() } else { b.next() });
    }
    out
}

/// The error without what it is made of: syntax errors name positions.
fn error(e: &ParseError) -> String {
    match e {
        ParseError::SyntaxError { .. } => "syntax error".into(),
        e => format!("{:?}", e),
    }
}

pub fn c26(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.opts = if cx.rng.one_in(4) { gen::Opts::Wild } else { gen::Opts::Simple };
    cfg.vast = cx.rng.one_in(40);
    if cx.rng.one_in(3) {
        cfg.names = gen::pool(&mut cx.rng);
    }
    if cx.rng.bool() {
        cfg.min_fields = 2;
    }
    let mut s = gen::generate(&mut cx.rng, &cfg);
    let mut xcfg = cfg.clone();
    xcfg.vast = cx.rng.one_in(if cfg!(miri) { 1000 } else { 30 });
    if s.files.len() == 1 && cx.rng.bool() || cx.rng.one_in(6) {
        scatter(&mut cx.rng, &mut s);
    }
    let absolute = cx.rng.one_in(3);
    if absolute {
        respell(&mut s);
    }
    let x = if cx.rng.one_in(3) {
        echo(&mut cx.rng, &s)
    } else {
        let mut x = gen::generate(&mut cx.rng, &xcfg);
        estrange(&mut cx.rng, &mut x, &s);
        if cx.rng.bool() {
            spell_shortly(&mut cx.rng, &mut x);
        }
        x
    };
    let broken = if cx.rng.one_in(5) { fault(&mut cx.rng, &mut s, &x) } else { None };
    let skip = || Fail(SKIP.into());
    let alone = render::render(&s, &mut cx.rng, Layout::Plain);
    let others = render::render(&x, &mut cx.rng, Layout::Plain);
    let parse = |t: &[String]| guard(|| Context::parse(t));
    let c0 = parse(&alone).map_err(|_| skip())?;
    let cx0 = parse(&others).map_err(|_| skip())?.map_err(|_| skip())?;
    let c0 = match (c0, broken) {
        (Ok(c), None) => c,
        (Err(e), Some(what)) => {
            // what is wrong stays wrong
            let all = weave(&mut cx.rng, alone, others);
            let (want, got) = (error(&e), parse(&all).map_err(|p| Fail(format!("panic parsing: {}\n{}", p, super::sch::show(&all))))?);
            match got {
                Err(e) => ensure!(error(&e) == want, "{}: the error is {} with unrelated files and {} without\n{}", what, error(&e), want, super::sch::show(&all)),
                Ok(_) => return Err(Fail(format!("{}: refused alone ({}) but accepted with unrelated files\n{}", what, want, super::sch::show(&all)))),
            }
            cx.count(what);
            cx.eval(all.concat().as_bytes(), true);
            return Ok(());
        }
        _ => return Err(skip()),
    };
    let base = snap_ctx(&c0, &s);
    let base_x = snap_ctx(&cx0, &x);
    let c0 = Ctx::attach(c0, &s).map_err(|_| skip())?;
    for round in 0..4 {
        let mut big = s.clone();
        let (touched, fields) = if round == 0 { Default::default() } else { enlarge(&mut cx.rng, &mut big, s.types.len(), absolute) };
        let with_x = round != 1;
        if with_x {
            absorb(&mut big, &x);
        }
        complete(&mut big);
        let texts = render::render(&big, &mut cx.rng, Layout::Plain);
        let (a, b) = texts.split_at(s.files.len());
        let texts = match cx.rng.below(3) {
            0 => texts,
            1 => [b, a].concat(),
            _ => weave(&mut cx.rng, a.to_vec(), b.to_vec()),
        };
        let show = || super::sch::show(&texts);
        let c = match parse(&texts).map_err(|p| Fail(format!("panic parsing: {}\n{}", p, show())))? {
            Ok(c) => c,
            Err(e) => return Err(Fail(format!("files that are accepted on their own are refused with unrelated declarations: {}\n{}", e, show()))),
        };
        let got = snap_ctx(&c, &s);
        let ours = |m: &Snap| m.iter().filter(|(k, _)| !touched.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect::<Snap>();
        if let Some(d) = crate::ctx::diff(&ours(&base), &ours(&got)) {
            return Err(Fail(format!("with unrelated declarations, {}\n{}", d, show())));
        }
        cx.add("declarations found unchanged", ours(&base).len() as u64);
        if with_x {
            if let Some(d) = crate::ctx::diff(&base_x, &snap_ctx(&c, &x)) {
                return Err(Fail(format!("with unrelated files, {}\n{}", d, show())));
            }
            cx.add("declarations found unchanged", base_x.len() as u64);
        }
        if !touched.is_empty() {
            cx.count("texts with declarations added in place");
        }
        let refs: HashSet<_> = s.types.iter().filter_map(|t| c.get_type(&t.full)).map(|i| format!("{:?}", match i {
            TypeInfo::Message(m) => TypeRef::Message(m.self_ref),
            TypeInfo::Enum(e) => TypeRef::Enum(e.self_ref),
        })).collect();
        ensure!(refs.len() == s.types.len(), "with unrelated declarations, {} types have {} references\n{}", s.types.len(), refs.len(), show());
        let ms = s.messages();
        if !fields && !ms.is_empty() {
            let c = Ctx::attach(c, &s).map_err(|_| skip())?;
            for _ in 0..6 {
                let t = *cx.rng.pick(&ms);
                let p = any_payload(&mut cx.rng, &s, t);
                let (v0, v) = match guard(|| c0.decode(t, &p)) {
                    Ok(v0) => (v0, call("decode", || c.decode(t, &p))?),
                    Err(_) => continue,
                };
                let at = || format!("{} payload {}\n{}", s.types[t].full, hex(&p), show());
                let (l0, l) = (c0.lift(&v0).map_err(|_| skip())?, c.lift(&v).map_err(|e| Fail(format!("with unrelated declarations: {} {}", e, at())))?);
                if let Some(d) = diff(&l0, &l) {
                    return Err(Fail(format!("decoded with unrelated declarations: {}\n{}", d, at())));
                }
                if let Ok(q0) = guard(|| v0.encode(&c0.ctx)) {
                    let q = call("encode", || v.encode(&c.ctx))?;
                    ensure!(q0 == q, "encoded with unrelated declarations: {} rather than {}\n{}", hex(&q), hex(&q0), at());
                }
                cx.count("payloads decoded the same");
                cx.eval(&p, !p.is_empty());
            }
        }
        cx.eval(texts.concat().as_bytes(), true);
    }
    cx.sample(|| super::sch::show(&alone));
    Ok(())
}
