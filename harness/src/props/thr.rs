//! Sharing: many threads use one context, and what was done before must not matter.

use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::props::{san, sch};
use crate::render;
use crate::rng::{hash_bytes, Rng};
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Lets threads share what may not be `Sync`. Whether it is, the compiler decides (`probe/`);
/// here the results count.
struct Share<'a, T>(&'a T);
impl<T> Clone for Share<'_, T> {
    fn clone(&self) -> Self {
        Share(self.0)
    }
}
unsafe impl<T> Send for Share<'_, T> {}
impl<'a, T> Share<'a, T> {
    fn get(&self) -> &'a T {
        self.0
    }
}

struct Job {
    t: MessageRef,
    p: Vec<u8>,
}

/// What a context was parsed to, or the error.
fn parse_digest(texts: &[String], names: &[String]) -> Result<(Option<Context>, String), String> {
    guard(|| match Context::parse(texts) {
        Ok(c) => {
            let l = listing(&c, names);
            (Some(c), l)
        }
        Err(e) => (None, format!("{}\n{:?}", e, std::mem::discriminant(&e))),
    })
}

/// What decoding and encoding gives, with values in full.
fn job_digest(c: &Context, j: &Job) -> u64 {
    let r = guard(|| {
        let v = c.decode(j.t, &j.p);
        let mut b = v.encode(c).to_vec();
        b.extend(format!("{:?}", v).into_bytes());
        b
    });
    match r {
        Ok(b) => hash_bytes(&b),
        Err(p) => hash_bytes(p.as_bytes()),
    }
}

/// All lookups of one message, with the answers.
struct Probe<'a> {
    name: &'a str,
    m: MessageRef,
    numbers: Vec<(u64, Option<String>)>,
    names: Vec<(String, Option<u64>)>,
}

fn probes<'a>(c: &Context, s: &'a Schema, t: Tid, r: MessageRef) -> Probe<'a> {
    let m = c.resolve_message(r);
    let fs = &s.msg(t).fields;
    let mut numbers: Vec<u64> = fs.iter().map(|f| f.number).collect();
    numbers.extend([0, 1, 2, 3, 15, 16, 1 << 29, (1 << 32) + 1, u64::MAX]);
    let mut names: Vec<String> = fs.iter().map(|f| f.name.clone()).collect();
    names.extend(["".to_string(), "nothing".to_string()]);
    Probe {
        name: &s.types[t].full,
        m: r,
        numbers: numbers.iter().map(|n| (*n, m.get_field(*n).map(|f| f.name.clone()))).collect(),
        names: names.into_iter().map(|n| (n.clone(), m.get_field_by_name(&n).map(|f| f.number))).collect(),
    }
}

/// One lookup, compared with what a single thread got.
fn ask(rng: &mut Rng, c: &Context, p: &Probe) -> Option<String> {
    match rng.below(4) {
        0 => {
            let got = c.get_message(p.name).map(|m| m.self_ref);
            if got != Some(p.m) {
                return Some(format!("get_message({}) returned {:?}, not {:?}", p.name, got, p.m));
            }
        }
        1 => {
            let (n, want) = rng.pick(&p.names);
            let got = c.resolve_message(p.m).get_field_by_name(n).map(|f| f.number);
            if got != *want {
                return Some(format!("{}.get_field_by_name({}) returned {:?}, not {:?}", p.name, n, got, want));
            }
        }
        _ => {
            let (n, want) = rng.pick(&p.numbers);
            let got = c.resolve_message(p.m).get_field(*n).map(|f| &f.name);
            if got != want.as_ref() {
                return Some(format!("{}.get_field({}) returned {:?}, not {:?}", p.name, n, got, want));
            }
        }
    }
    None
}

pub fn c21(cx: &mut Cx) -> R {
    if cfg!(miri) {
        let (s, c) = san::small_env(cx).ok_or_else(|| Fail(SKIP.into()))?;
        return shared(cx, &s, &c, None);
    }
    if cx.idx % 4 == 3 {
        return history(cx);
    }
    if cx.idx % 16 == 6 {
        return crowd(cx);
    }
    let mut cfg = gen::Cfg::wire();
    cfg.services = true;
    if cx.rng.one_in(4) {
        cfg.fields = 40;
        cfg.min_fields = 12;
    }
    let s = gen::generate(&mut cx.rng, &cfg);
    let texts = render::render(&s, &mut cx.rng, render::Layout::Plain);
    let h = HandCfg {
        oneofs_last: cx.rng.bool(),
        reverse_fields: cx.rng.bool(),
    };
    let parsed = || guard(|| Context::parse(&texts)).ok().and_then(|r| r.ok());
    let built = || guard(|| by_hand(&s, h)).ok().and_then(|r| r.ok());
    let ctx = if cx.rng.one_in(4) { built().or_else(parsed) } else { parsed().or_else(built) };
    let ctx = ctx.ok_or_else(|| Fail(SKIP.into()))?;
    let c = Ctx::attach(ctx, &s).map_err(|_| Fail(SKIP.into()))?;
    shared(cx, &s, &c, Some(&texts))
}

/// All threads do the same demanding thing at the same time: what is limited or pooled for one
/// must not run out for many.
fn crowd(cx: &mut Cx) -> R {
    let rng = &mut cx.rng;
    let text = r#"syntax = "proto3";
        message M {
            M m = 1; repeated M ms = 2; bytes b = 3; string s = 4; repeated sint64 p = 5; E e = 6;
            oneof o { M om = 7; double d = 8; }
        }
        enum E { A = 0; B = 1; }"#;
    let ctx = guard(|| Context::parse(&[text])).ok().and_then(|r| r.ok()).ok_or_else(|| Fail(SKIP.into()))?;
    let m = ctx.get_message("M").ok_or_else(|| Fail(SKIP.into()))?.self_ref;
    fn varint(p: &mut Vec<u8>, mut v: u64) {
        while v > 127 {
            p.push(v as u8 | 128);
            v >>= 7;
        }
        p.push(v as u8);
    }
    let field = |p: &mut Vec<u8>, n: u8, data: &[u8]| {
        p.push(n << 3 | 2);
        varint(p, data.len() as u64);
        p.extend_from_slice(data);
    };
    let kind = rng.below(6);
    let jobs: Vec<Job> = (0..rng.range(1, 2))
        .map(|_| {
            let mut p = vec![];
            match kind {
                // deep
                0 | 1 | 2 => {
                    for _ in 0..rng.range(40, 100) {
                        let mut q = vec![];
                        let n = *rng.pick(&[1u8, 1, 2, 7]);
                        field(&mut q, n, &p);
                        if rng.one_in(8) {
                            q.extend([0x30, rng.below(3) as u8]);
                        }
                        p = q;
                    }
                }
                // wide
                3 => {
                    for _ in 0..rng.range(100, 800) {
                        let q = if rng.bool() { vec![] } else { vec![0x30, 1] };
                        field(&mut p, 2, &q);
                    }
                }
                // large
                4 => {
                    for _ in 0..rng.range(1, 3) {
                        let q: Vec<u8> = (0..rng.range(3_000, 15_000)).map(|_| rng.below(256) as u8).collect();
                        let n = *rng.pick(&[3u8, 4]);
                        field(&mut p, n, &q);
                    }
                }
                // many elements
                _ => {
                    let q: Vec<u8> = (0..rng.range(3_000, 15_000)).map(|_| rng.below(128) as u8).collect();
                    field(&mut p, 5, &q);
                }
            }
            Job { t: m, p }
        })
        .collect();
    let threads = *rng.pick(&[8usize, 8, 12]);
    let rounds = if kind < 3 { 150 } else { 25 };
    for j in &jobs {
        cx.digest(&j.p);
    }
    let answers = |j: &Job| -> Option<(MessageValue, Vec<u8>)> {
        guard(|| {
            let v = ctx.decode(j.t, &j.p);
            let b = v.encode(&ctx).to_vec();
            (v, b)
        })
        .ok()
    };
    let ready = AtomicUsize::new(0);
    let inside = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let want: Vec<_> = jobs.iter().map(answers).collect();
    let shared = Share(&(&ctx, &jobs, &want));
    let (ready, inside, most) = (&ready, &inside, &most);
    let wrong: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let shared = shared.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let (ctx, jobs, want) = *shared.get();
                        ready.fetch_add(1, Ordering::SeqCst);
                        while ready.load(Ordering::SeqCst) < threads {
                            std::thread::yield_now();
                        }
                        for round in 0..rounds {
                            let i = (round + k) % jobs.len();
                            let n = inside.fetch_add(1, Ordering::SeqCst) + 1;
                            most.fetch_max(n, Ordering::SeqCst);
                            let got = guard(|| {
                                let v = ctx.decode(jobs[i].t, &jobs[i].p);
                                let b = v.encode(ctx).to_vec();
                                (v, b)
                            })
                            .ok();
                            inside.fetch_sub(1, Ordering::SeqCst);
                            if got != want[i] {
                                return Some(format!(
                                    "of {} threads that decode and encode {} bytes, one got another result in round {}",
                                    threads,
                                    jobs[i].p.len(),
                                    round
                                ));
                            }
                        }
                        None
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread died".into()))).collect()
    });
    if let Some(w) = wrong.into_iter().flatten().next() {
        return Err(Fail(format!("{}: {}", w, hex(&jobs[0].p[..jobs[0].p.len().min(400)]))));
    }
    cx.add("results of a crowd compared", (threads * rounds) as u64);
    cx.max("threads within the crate at once", most.load(Ordering::SeqCst) as u64);
    cx.eval(&jobs[0].p, true);
    Ok(())
}

fn shared(cx: &mut Cx, s: &Schema, c: &Ctx, texts: Option<&[String]>) -> R {
    let ctx = &c.ctx;
    let names = sch::all_names(s);
    let ms = s.messages();
    let mut jobs = vec![];
    for _ in 0..if cfg!(miri) { 4 } else { 24 } {
        let t = *cx.rng.pick(&ms);
        let p = if cfg!(miri) { soup(&mut cx.rng, s, t, 6) } else { any_payload(&mut cx.rng, s, t) };
        if p.len() < 20_000 {
            cx.digest(&p);
            jobs.push(Job { t: c.msg[&t], p });
        }
    }
    let probes: Vec<Probe> = ms.iter().map(|t| probes(ctx, s, *t, c.msg[t])).collect();
    let threads = if cfg!(miri) { 3 } else { *cx.rng.pick(&[2usize, 4, 8]) };
    let asks = if cfg!(miri) { 10 } else { 400 };
    let rounds = if cfg!(miri) { 1 } else { 3 };
    // Usually the threads come first, so that a context that they share has not been used yet.
    let first = cx.rng.one_in(3);
    let alone = || -> Vec<u64> { jobs.iter().map(|j| job_digest(ctx, j)).collect() };
    let mut want = if first { Some(alone()) } else { None };
    let list = if first { Some(listing(ctx, &names)) } else { None };

    let ready = AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..threads).map(|_| cx.rng.next()).collect();
    let shared_ctx = Share(ctx);
    let shared_probes = Share(&probes);
    let shared_jobs = Share(&jobs);
    let names_ref = &names;
    let ready_ref = &ready;
    type Out = (Vec<(usize, u64)>, Vec<String>, Option<String>, Vec<String>, u64);
    let outs: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (ctx, probes, jobs) = (shared_ctx.clone(), shared_probes.clone(), shared_jobs.clone());
                let seed = *seed;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let (ctx, probes, jobs) = (ctx.get(), probes.get(), jobs.get());
                        let mut rng = Rng::new(seed);
                        let mut got = vec![];
                        let mut parses = vec![];
                        let mut wrong = None;
                        let mut listings = vec![];
                        let mut asked = 0;
                        let mut buf = Job {
                            t: probes[0].m,
                            p: Vec::with_capacity(20_000),
                        };
                        ready_ref.fetch_add(1, Ordering::SeqCst);
                        while ready_ref.load(Ordering::SeqCst) < threads {
                            if cfg!(miri) {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        for round in 0..rounds {
                            let mut order: Vec<usize> = (0..jobs.len()).collect();
                            rng.shuffle(&mut order);
                            for i in order {
                                if round == 1 {
                                    // as readers do, with one buffer for all payloads
                                    buf.p.clear();
                                    buf.p.extend_from_slice(&jobs[i].p);
                                    buf.t = jobs[i].t;
                                    got.push((i, job_digest(ctx, &buf)));
                                    if !buf.p.is_empty() {
                                        let n = rng.below(buf.p.len());
                                        buf.p[n] ^= 1 << rng.below(7);
                                        let elsewhere = Job {
                                            t: buf.t,
                                            p: [&[0u8][..], &buf.p].concat()[1..].to_vec(),
                                        };
                                        if job_digest(ctx, &buf) != job_digest(ctx, &elsewhere) {
                                            wrong = Some(format!("decoding {} depends on what was decoded before", hex(&buf.p)));
                                        }
                                    }
                                } else {
                                    got.push((i, job_digest(ctx, &jobs[i])));
                                }
                                let k = rng.below(4);
                                for _ in 0..k {
                                    asked += 1;
                                    let p = rng.pick(probes);
                                    if wrong.is_none() {
                                        wrong = guard(|| ask(&mut rng, ctx, p)).unwrap_or_else(Some);
                                    }
                                }
                            }
                            // only lookups, of one message
                            let p = &probes[round % probes.len()];
                            let bad = guard(|| {
                                for _ in 0..asks {
                                    if let Some(w) = ask(&mut rng, ctx, p) {
                                        return Some(w);
                                    }
                                }
                                None
                            });
                            asked += asks;
                            if wrong.is_none() {
                                wrong = bad.unwrap_or_else(Some);
                            }
                            if let (Some(t), true) = (texts, round == 0) {
                                if let Ok((_, d)) = parse_digest(t, names_ref) {
                                    parses.push(d);
                                }
                            }
                            if round == 0 {
                                listings.push(guard(|| listing(ctx, names_ref)).unwrap_or_default());
                            }
                        }
                        (got, parses, wrong, listings, asked)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (vec![], vec![], Some("a thread died".into()), vec![], 0))).collect()
    });
    if want.is_none() {
        want = Some(alone());
    }
    let want = want.unwrap();
    let list2 = listing(ctx, &names);
    let list = list.unwrap_or_else(|| list2.clone());
    let parsed = match texts {
        Some(t) => parse_digest(t, &names).ok().map(|r| r.1),
        None => None,
    };
    let about = || {
        let j: Vec<String> = jobs.iter().map(|j| hex(&j.p)).collect();
        format!("payloads {}\n{}", j.join(" "), texts.map(sch::show).unwrap_or_default())
    };
    ensure!(list == list2, "the context lists other things after use\n{}", about());
    for (got, parses, wrong, listings, asked) in &outs {
        if let Some(w) = wrong {
            return Err(Fail(format!("with {} threads, {}\n{}", threads, w, about())));
        }
        for (i, d) in got {
            ensure!(
                *d == want[*i],
                "one of {} threads decodes {} differently from a single thread\n{}",
                threads,
                hex(&jobs[*i].p),
                about()
            );
        }
        for l in listings {
            ensure!(*l == list, "one of {} threads sees another context than a single thread\n{}", threads, about());
        }
        for p in parses {
            ensure!(
                Some(p) == parsed.as_ref(),
                "one of {} threads parses to something else than a single thread\n{}",
                threads,
                about()
            );
        }
        cx.add("lookups by threads", *asked);
        cx.add("decodes by threads", got.len() as u64);
        cx.add("parses by threads", parses.len() as u64);
    }
    cx.count(&format!("cases with {} threads", threads));
    // values of one thread used by another, and dropped there
    if !jobs.is_empty() {
        let vs: Vec<MessageValue> = jobs.iter().filter_map(|j| guard(|| ctx.decode(j.t, &j.p)).ok()).collect();
        if vs.len() == jobs.len() {
            let own: Vec<u64> = vs.iter().filter_map(|v| guard(|| hash_bytes(&v.encode(ctx))).ok()).collect();
            struct Moved(Vec<MessageValue>);
            unsafe impl Send for Moved {}
            let m = Moved(vs);
            let x = shared_ctx.clone();
            let there: Vec<u64> = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let m = m;
                    m.0.iter().filter_map(|v| guard(|| hash_bytes(&v.encode(x.get()))).ok()).collect()
                })
                .join()
                .unwrap_or_default()
            });
            ensure!(own == there, "values encode differently in another thread\n{}", about());
        }
    }
    for d in &want {
        cx.digest(&d.to_le_bytes());
    }
    cx.digest(list.as_bytes());
    if let Some(p) = &parsed {
        cx.digest(p.as_bytes());
    }
    for j in &jobs {
        let mut k = threads.to_le_bytes().to_vec();
        k.extend(&j.p);
        cx.eval(&k, !j.p.is_empty());
    }
    cx.sample(|| format!("{} threads, {}", threads, about()));
    Ok(())
}

/// The same things done again, after other things, must have the same results.
fn history(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::text();
    cfg.files = 3;
    cfg.types = 8;
    cfg.opts = if cx.rng.bool() { gen::Opts::Wild } else { gen::Opts::Simple };
    if cx.rng.bool() {
        // the same names over and over, with different meanings
        cfg.names = gen::Names::Pool;
        cfg.share_packages = false;
    }
    let mut sets: Vec<(Vec<String>, Vec<String>, Schema, Vec<(String, Vec<u8>)>)> = vec![];
    for _ in 0..3 {
        let s = gen::generate(&mut cx.rng, &cfg);
        let mut texts = render::render(&s, &mut cx.rng, render::Layout::Wild);
        match cx.rng.below(6) {
            0 | 1 => {
                let o = cx.rng.pick(&texts).clone();
                let i = cx.rng.below(texts.len());
                texts[i] = sch::mutate_text(&mut cx.rng, &texts[i], &o);
            }
            2 => {
                let t = cx.rng.pick(&texts).clone();
                texts.push(t);
            }
            _ => {}
        }
        let mut payloads = vec![];
        let ms = s.messages();
        if !ms.is_empty() {
            for _ in 0..6 {
                let t = *cx.rng.pick(&ms);
                let p = any_payload(&mut cx.rng, &s, t);
                payloads.push((s.types[t].full.clone(), p));
            }
        }
        let names = sch::all_names(&s);
        sets.push((texts, names, s, payloads));
    }
    let run = |i: usize| -> Option<String> {
        let (texts, names, _, payloads) = &sets[i];
        let (c, mut d) = parse_digest(texts, names).ok()?;
        if let Some(c) = c {
            for (n, p) in payloads {
                if let Some(m) = c.get_message(n) {
                    let h = job_digest(
                        &c,
                        &Job {
                            t: m.self_ref,
                            p: p.clone(),
                        },
                    );
                    d.push_str(&format!("{} {:x}\n", n, h));
                }
            }
        }
        Some(d)
    };
    let mut known: Vec<Option<String>> = vec![None; sets.len()];
    for _ in 0..7 {
        let i = cx.rng.below(sets.len());
        let d = match run(i) {
            Some(d) => d,
            None => continue,
        };
        if let Some(k) = &known[i] {
            let at = k.lines().zip(d.lines()).find(|(a, b)| a != b);
            ensure!(
                *k == d,
                "the result depends on what was done before: {:?}\n{}",
                at,
                sch::show(&sets[i].0)
            );
            cx.count("repetitions");
        } else {
            cx.digest(&[i as u8]);
            cx.digest(d.as_bytes());
            known[i] = Some(d);
        }
        cx.eval(sets[i].0.join("\0").as_bytes(), true);
    }
    cx.sample(|| sch::show(&sets[0].0));
    Ok(())
}
