//! Memory: the operations of all other properties under whatever sanitizer this is built with, and
//! direct checks of what can be seen without one.

use crate::alloc;
use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::props::{dec, far, sch};
use crate::render;
use crate::rng::{hash_bytes, Rng};
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;

pub fn c20(cx: &mut Cx) -> R {
    if cfg!(miri) {
        return small(cx);
    }
    match cx.idx % 4 {
        0 | 1 => other(cx),
        2 => values(cx),
        _ => texts(cx),
    }
}

/// A case of another property. Whether that property holds is not judged here: what counts is
/// that the process survives and that no sanitizer reports.
fn other(cx: &mut Cx) -> R {
    let all: Vec<_> = super::ALL.iter().filter(|(n, _)| *n != "C20" && *n != "C21").collect();
    let (name, f) = all[cx.idx as usize / 4 % all.len()];
    let n = cx.samples.len();
    let _ = guard(|| f(cx));
    cx.samples.truncate(n);
    cx.count(&format!("cases of {}", name));
    Ok(())
}

/// What is wrong with how a value is represented.
fn bad_value(v: &Value) -> Option<String> {
    fn bad_bool(b: &bool) -> bool {
        unsafe { std::ptr::read_volatile(b as *const bool as *const u8) > 1 }
    }
    match v {
        Value::String(s) if std::str::from_utf8(&Vec::from(s.as_bytes())).is_err() => {
            Some(format!("a string of the bytes {} is not UTF-8", hex(s.as_bytes())))
        }
        Value::Bool(b) if bad_bool(b) => Some("a bool that is neither true nor false".into()),
        Value::Packed(PackedArray::Bool(a)) if a.iter().any(bad_bool) => Some("a bool that is neither true nor false".into()),
        Value::Message(m) => bad_message(m),
        _ => None,
    }
}

fn bad_message(m: &MessageValue) -> Option<String> {
    m.fields.iter().find_map(|f| bad_value(&f.value))
}

fn strings(m: &MessageValue) -> u64 {
    m.fields
        .iter()
        .map(|f| match &f.value {
            Value::String(_) => 1,
            Value::Message(m) => strings(m),
            _ => 0,
        })
        .sum()
}

/// Runs an operation several times. It must free what it allocates, and what it returns may not
/// depend on what was in the memory it was given.
fn clean(cx: &mut Cx, what: &str, about: &dyn Fn() -> String, mut op: impl FnMut() -> Vec<u8>) -> R {
    let mut kept = vec![];
    let mut seen: Option<Vec<u8>> = None;
    for (i, fill) in [None, Some(0xa5u8), Some(0x5a), Some(0xff)].iter().enumerate() {
        let before = alloc::live();
        alloc::fill(*fill);
        let r = guard(|| {
            let r = op();
            // at its own size, so that the books balance
            r.into_boxed_slice()
        });
        alloc::fill(None);
        let r = match r {
            Ok(r) => r,
            // a panic leaves a message behind and is not this property's
            Err(_) => return Ok(()),
        };
        let left = alloc::live() - before - r.len() as i64;
        if i > 0 {
            kept.push(left);
        }
        let r = r.into_vec();
        match &seen {
            None => seen = Some(r),
            Some(s) => ensure!(
                *s == r,
                "{} depends on uninitialised or freed memory: {} and {}\n{}",
                what,
                hex(s),
                hex(&r),
                about()
            ),
        }
    }
    if !cfg!(feature = "noalloc") {
        ensure!(
            !kept.iter().all(|n| *n > 0),
            "{} leaks: {:?} bytes kept by three runs\n{}",
            what,
            kept,
            about()
        );
    }
    cx.count("operations checked for leaks and uninitialised memory");
    Ok(())
}

/// Strings that are invalid in many ways, where the schema has strings.
fn stringy(rng: &mut Rng, s: &Schema, t: Tid) -> Vec<u8> {
    let mut p = any_payload(rng, s, t);
    let fs: Vec<u64> = s.msg(t).fields.iter().filter(|f| f.ty == Ty::S(K::String)).map(|f| f.number).collect();
    if fs.is_empty() {
        return p;
    }
    for _ in 0..rng.below(4) {
        let n = *rng.pick(&fs);
        let mut b = gen_string(rng, false).into_bytes();
        for _ in 0..rng.below(4) {
            let bad: &[u8] = *rng.pick(&[
                &[0x80u8][..],
                &[0xff],
                &[0xc0, 0x80],
                &[0xed, 0xa0, 0x80],
                &[0xf4, 0x90, 0x80, 0x80],
                &[0xf0, 0x9f, 0x90],
                &[0xe2, 0x82],
                &[0xc3],
                &[0xc3, 0x28],
                &[0xfe],
            ]);
            let at = match rng.below(4) {
                0 => 0,
                1 => b.len(),
                _ => rng.below(b.len() + 1),
            };
            b.splice(at..at, bad.iter().copied());
        }
        let mut q = varint(n << 3 | 2);
        put_varint(&mut q, b.len() as u64);
        q.extend(b);
        if rng.bool() {
            q.extend(p);
            p = q;
        } else {
            p.extend(q);
        }
    }
    p
}

fn values(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::wire();
    cfg.huge_numbers = cx.rng.one_in(4);
    let e = dec::env(cx, &cfg)?;
    for _ in 0..10 {
        let ms = e.s.messages();
        let t = *cx.rng.pick(&ms);
        let p = stringy(&mut cx.rng, &e.s, t);
        check_payload(cx, &e.s, &e.c, t, &p)?;
    }
    if dec::at_scale(cx) {
        let m = dec::huge(cx, &e.s);
        let mut p = encode(&m);
        if cx.rng.one_in(3) {
            p = damage(&mut cx.rng, &e.s, m.tid, &p, &[0xff; 30]);
        }
        check_payload(cx, &e.s, &e.c, m.tid, &p)?;
    }
    Ok(())
}

fn check_payload(cx: &mut Cx, s: &Schema, c: &Ctx, t: Tid, p: &[u8]) -> R {
    let about = || format!("{} payload {}", s.types[t].full, hex(p));
    let ctx = &c.ctx;
    let r = c.msg[&t];
    let exact: Box<[u8]> = p.into();
    let v = match guard(|| ctx.decode(r, &exact)) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    if let Some(b) = bad_message(&v) {
        return Err(Fail(format!("decoding returns {}\n{}", b, about())));
    }
    cx.add("strings checked", strings(&v));
    if let Ok(b) = guard(|| v.clone()) {
        if let Some(b) = bad_message(&b) {
            return Err(Fail(format!("cloning returns {}\n{}", b, about())));
        }
    }
    let want = match guard(|| v.encode(ctx).to_vec()) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    drop(v);

    // what lies behind the payload must not matter
    let mut seen = vec![];
    for tail in [0u8, 0xff, 0x01] {
        let mut buf = vec![tail; p.len() + 40];
        let at = 20;
        buf[at..at + p.len()].copy_from_slice(p);
        let got = guard(|| ctx.decode(r, &buf[at..at + p.len()]));
        // neither must what becomes of it
        for b in buf.iter_mut() {
            *b = tail ^ 0x55;
        }
        if let Ok(v) = got {
            drop(buf);
            if let Ok(b) = guard(|| v.encode(ctx).to_vec()) {
                seen.push(b);
            }
        }
    }
    for b in &seen {
        ensure!(
            *b == want,
            "the decoded value depends on memory outside the payload or on the payload's memory afterwards: {} and {}\n{}",
            hex(&want),
            hex(b),
            about()
        );
    }

    clean(cx, "decoding", &about, || {
        let v = ctx.decode(r, p);
        let mut o = c.lift(&v).map(|l| format!("{:?}", l)).unwrap_or_default().into_bytes();
        o.extend(v.encode(ctx));
        o
    })?;
    let v = guard(|| ctx.decode(r, p)).map_err(|_| Fail(SKIP.into()))?;
    clean(cx, "encoding", &about, || v.encode(ctx).to_vec())?;
    clean(cx, "cloning", &about, || {
        let w = v.clone();
        let o = format!("{:?}", w).into_bytes();
        let same = w == v;
        drop(w);
        let mut o = hash_bytes(&o).to_le_bytes().to_vec();
        o.push(same as u8);
        o
    })?;
    cx.eval(p, !p.is_empty());
    cx.sample(about);
    Ok(())
}

fn texts(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.files = 2;
    cfg.types = 8;
    if cx.rng.bool() {
        cfg.opts = gen::Opts::Wild;
    }
    let s = gen::generate(&mut cx.rng, &cfg);
    let names = sch::all_names(&s);
    let valid = render::render(&s, &mut cx.rng, render::Layout::Wild);
    for i in 0..3 {
        let texts: Vec<String> = if i == 0 {
            valid.clone()
        } else if i == 1 && cx.rng.bool() {
            sch::holes(&mut cx.rng)
        } else {
            let rng = &mut cx.rng;
            let o = rng.pick(&valid).clone();
            valid.iter().map(|t| sch::mutate_text(rng, t, &o)).collect()
        };
        let about = || sch::show(&texts);
        let digest = |r: &Result<Context, ParseError>| match r {
            Ok(c) => listing(c, &names),
            Err(e) => e.to_string(),
        };
        let want = match guard(|| digest(&Context::parse(&texts))) {
            Ok(d) => d,
            Err(_) => continue,
        };
        ensure!(
            std::str::from_utf8(&Vec::from(want.as_bytes())).is_ok(),
            "parsing returns strings that are not UTF-8\n{}",
            about()
        );
        // what becomes of the texts must not matter
        let mut copies: Vec<Vec<u8>> = texts.iter().map(|t| t.clone().into_bytes()).collect();
        let got = guard(|| {
            let t: Vec<&str> = copies.iter().map(|c| std::str::from_utf8(c).unwrap()).collect();
            Context::parse(&t)
        });
        for c in &mut copies {
            c.iter_mut().for_each(|b| *b = b'x');
        }
        if let Ok(r) = got {
            if let Ok(d) = guard(|| digest(&r)) {
                ensure!(d == want, "what parsing returned changes with the memory of the texts\n{}", about());
            }
        }
        clean(cx, "parsing", &about, || {
            let d = digest(&Context::parse(&texts));
            hash_bytes(d.as_bytes()).to_le_bytes().to_vec()
        })?;
        cx.eval(texts.join("\0").as_bytes(), true);
        cx.sample(about);
    }
    let h = HandCfg {
        oneofs_last: cx.rng.bool(),
        reverse_fields: cx.rng.bool(),
    };
    clean(cx, "building a context by hand", &|| sch::show(&valid), || match by_hand(&s, h) {
        Ok(c) => hash_bytes(listing(&c, &names).as_bytes()).to_le_bytes().to_vec(),
        Err(e) => e.into_bytes(),
    })?;
    Ok(())
}

/// A workload small enough to be interpreted.
fn small(cx: &mut Cx) -> R {
    if cx.idx % 4 == 3 {
        let n = cx.samples.len();
        let _ = guard(|| far::c27(cx));
        cx.samples.truncate(n);
        cx.count("cases of C27");
        return Ok(());
    }
    let e = match small_env(cx) {
        Some(e) => e,
        None => return Err(Fail(SKIP.into())),
    };
    let (s, c) = e;
    let ctx = &c.ctx;
    for i in 0..6 {
        let ms = s.messages();
        let t = *cx.rng.pick(&ms);
        let p: Box<[u8]> = match i {
            0 | 1 => {
                let mut g = ValGen::new(&s);
                g.budget = 10;
                g.depth = 2;
                encode(&g.msg(&mut cx.rng, t, 0)).into()
            }
            2 => soup(&mut cx.rng, &s, t, 8).into(),
            3 => {
                let k = cx.rng.below(24);
                cx.rng.bytes(k).into()
            }
            _ => {
                let mut p = stringy(&mut cx.rng, &s, t);
                p.truncate(120);
                p.into()
            }
        };
        let r = guard(|| {
            let v = ctx.decode(c.msg[&t], &p);
            let b = v.encode(ctx);
            let w = v.clone();
            let same = w == v;
            drop(v);
            let l = format!("{:?}", w).len();
            let bad = bad_message(&w);
            (b.to_vec(), same, l, bad)
        });
        if let Ok((b, same, l, bad)) = r {
            if let Some(b) = bad {
                return Err(Fail(format!("decoding returns {}; payload {}", b, hex(&p))));
            }
            // every byte that came back is used, so that an uninitialised one is noticed
            let h = hash_bytes(&b) ^ same as u64 ^ l as u64;
            if h == 0 {
                cx.count("zero hashes");
            }
            cx.count("payloads");
            cx.eval(&p, !p.is_empty());
            cx.sample(|| format!("{} payload {}", s.types[t].full, hex(&p)));
        }
    }
    Ok(())
}

/// A small context that is built by hand.
pub fn small_env(cx: &mut Cx) -> Option<(Schema, Ctx)> {
    let mut cfg = gen::Cfg::wire();
    cfg.files = 1;
    cfg.types = 3;
    cfg.fields = 10;
    cfg.min_fields = 5;
    cfg.depth = 2;
    let s = gen::generate(&mut cx.rng, &cfg);
    let h = HandCfg {
        oneofs_last: cx.rng.bool(),
        reverse_fields: cx.rng.bool(),
    };
    let c = guard(|| by_hand(&s, h)).ok()?.ok()?;
    let d = guard(|| listing(&c, &sch::all_names(&s))).ok()?;
    cx.add("listing bytes", d.len() as u64);
    let c = Ctx::attach(c, &s).ok()?;
    if s.messages().is_empty() {
        return None;
    }
    Some((s, c))
}
