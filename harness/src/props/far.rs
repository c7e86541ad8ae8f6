//! References of another context (C27).

use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::props::sch;
use crate::render;
use crate::wire::*;
use protofish::context::*;
use protofish::decode::*;
use std::collections::HashMap;

/// A context with everything that is known to be in it.
struct Side {
    s: Schema,
    texts: Vec<String>,
    c: Context,
    names: Vec<String>,
    msgs: Vec<(MessageRef, String, Tid)>,
    enums: Vec<(EnumRef, String)>,
    packages: Vec<PackageRef>,
    oneofs: Vec<OneofRef>,
}

fn side(cx: &mut Cx, large: bool) -> Result<Side, Fail> {
    let mut cfg = gen::Cfg::wire();
    cfg.services = true;
    if cfg!(miri) {
        cfg.files = 2;
        cfg.types = if large { 6 } else { 2 };
        cfg.fields = 4;
        cfg.services = false;
    } else if large {
        cfg.files = *cx.rng.pick(&[1, 6, 12, 20]);
        cfg.types = cx.rng.range(8, 40);
    } else {
        cfg.files = *cx.rng.pick(&[1, 1, 3, 8]);
        cfg.types = cx.rng.range(1, 8);
    }
    let s = gen::generate(&mut cx.rng, &cfg);
    let texts = render::render(&s, &mut cx.rng, render::Layout::Plain);
    let hand = cx.rng.one_in(3);
    let parsed = || guard(|| Context::parse(&texts)).ok().and_then(|r| r.ok());
    let built = || {
        let h = HandCfg {
            oneofs_last: false,
            reverse_fields: false,
        };
        guard(|| by_hand(&s, h)).ok().and_then(|r| r.ok())
    };
    let c = if cfg!(miri) {
        built()
    } else if hand {
        built().or_else(parsed)
    } else {
        parsed()
    };
    let c = c.ok_or_else(|| Fail(SKIP.into()))?;
    let mut x = Side {
        names: sch::all_names(&s),
        msgs: vec![],
        enums: vec![],
        packages: vec![],
        oneofs: vec![],
        texts,
        c,
        s,
    };
    for (i, t) in x.s.types.iter().enumerate() {
        let parent = match x.c.get_type(&t.full) {
            Some(TypeInfo::Message(m)) => {
                x.msgs.push((m.self_ref, t.full.clone(), i));
                x.oneofs.extend(m.oneofs.iter().map(|o| o.self_ref));
                m.parent
            }
            Some(TypeInfo::Enum(e)) => {
                x.enums.push((e.self_ref, t.full.clone()));
                e.parent
            }
            None => return Err(Fail(SKIP.into())),
        };
        if let TypeParent::Package(p) = parent {
            x.packages.push(p);
        }
    }
    for v in &x.s.services {
        if let Some(v) = x.c.get_service(&v.full) {
            x.packages.push(v.parent);
        }
    }
    Ok(x)
}

fn both(a: &Side, b: &Side) -> String {
    format!("{}\n===== of\n{}", sch::show(&a.texts), sch::show(&b.texts))
}

pub fn c27(cx: &mut Cx) -> R {
    let (la, lb) = *cx.rng.pick(&[(false, false), (false, true), (false, true), (true, false), (true, true)]);
    let mut a = side(cx, la)?;
    let b = side(cx, lb)?;
    lookups(cx, &a, &b)?;
    decoding(cx, &a, &b)?;
    insertion(cx, &mut a, &b)?;
    cx.sample(|| both(&a, &b).chars().take(1500).collect());
    cx.eval(both(&a, &b).as_bytes(), true);
    Ok(())
}

fn lookups(cx: &mut Cx, a: &Side, b: &Side) -> R {
    let c = &a.c;
    let known: HashMap<MessageRef, &str> = a.msgs.iter().map(|(r, n, _)| (*r, n.as_str())).collect();
    for (r, from, _) in &b.msgs {
        let got = guard(|| {
            let m = c.resolve_message(*r);
            (m.self_ref, m.full_name.clone())
        });
        match (known.get(r), got) {
            (Some(n), Ok((s, f))) if s == *r && f == *n => cx.count("foreign messages that equal one"),
            (None, Err(_)) => cx.count("foreign messages refused"),
            (want, got) => {
                return Err(Fail(format!(
                    "{:?} of {} in another context stands for {:?}, but resolves to {:?}\n{}",
                    r,
                    from,
                    want,
                    got.map(|g| g.1),
                    both(a, b)
                )))
            }
        }
        cx.evals += 1;
    }
    let known: HashMap<EnumRef, &str> = a.enums.iter().map(|(r, n)| (*r, n.as_str())).collect();
    for (r, from) in &b.enums {
        let got = guard(|| {
            let m = c.resolve_enum(*r);
            (m.self_ref, m.full_name.clone())
        });
        match (known.get(r), got) {
            (Some(n), Ok((s, f))) if s == *r && f == *n => cx.count("foreign enums that equal one"),
            (None, Err(_)) => cx.count("foreign enums refused"),
            (want, got) => {
                return Err(Fail(format!(
                    "{:?} of {} in another context stands for {:?}, but resolves to {:?}\n{}",
                    r,
                    from,
                    want,
                    got.map(|g| g.1),
                    both(a, b)
                )))
            }
        }
        cx.evals += 1;
    }
    let mut found = vec![];
    for r in &b.packages {
        let got = guard(|| {
            let p = c.resolve_package(*r);
            (p as *const Package as usize, format!("{:?}", p).len())
        });
        match got {
            Ok((p, _)) => {
                if a.packages.contains(r) {
                    ensure!(
                        guard(|| c.resolve_package(*r) as *const Package as usize) == Ok(p),
                        "{:?} resolves to two different packages\n{}",
                        r,
                        both(a, b)
                    );
                }
                if let Some((_, o)) = found.iter().find(|(q, f)| *q == p && f != r) {
                    return Err(Fail(format!("{:?} and {:?} resolve to the same package\n{}", o, r, both(a, b))));
                }
                if !found.contains(&(p, *r)) {
                    found.push((p, *r));
                }
                cx.count("foreign packages that equal one");
            }
            Err(p) => {
                ensure!(!a.packages.contains(r), "{:?} is in the context, but {}\n{}", r, p, both(a, b));
                cx.count("foreign packages refused");
            }
        }
        cx.evals += 1;
    }
    ensure!(
        found.len() <= a.s.files.len(),
        "{} references of another context resolve to packages, but there are only {} files\n{}",
        found.len(),
        a.s.files.len(),
        both(a, b)
    );
    for (r, n, _) in &a.msgs {
        let m = match guard(|| c.resolve_message(*r)) {
            Ok(m) => m,
            Err(_) => continue,
        };
        for _ in 0..b.oneofs.len().min(6) {
            let o = *cx.rng.pick(&b.oneofs);
            let want = m.oneofs.iter().find(|x| x.self_ref == o).map(|x| &x.name);
            let got = call("get_oneof", || m.get_oneof(o).map(|x| &x.name))?;
            ensure!(
                got == want,
                "{:?} of another context stands for {:?} in {}, but get_oneof returns {:?}\n{}",
                o,
                want,
                n,
                got,
                both(a, b)
            );
            cx.count("foreign oneofs");
            cx.evals += 1;
        }
    }
    Ok(())
}

fn decoding(cx: &mut Cx, a: &Side, b: &Side) -> R {
    let known: HashMap<MessageRef, (&str, Tid)> = a.msgs.iter().map(|(r, n, t)| (*r, (n.as_str(), *t))).collect();
    if b.msgs.is_empty() {
        return Ok(());
    }
    for _ in 0..if cfg!(miri) { 3 } else { 6 } {
        let (r, from, bt) = cx.rng.pick(&b.msgs).clone();
        // by the reference alone
        let p = match known.get(&r) {
            Some((_, t)) if !cfg!(miri) => any_payload(&mut cx.rng, &a.s, *t),
            _ => soup(&mut cx.rng, &b.s, bt, 8),
        };
        let got = guard(|| {
            let v = a.c.decode(r, &p);
            (format!("{:?}", v), v.encode(&a.c).to_vec())
        });
        match (known.get(&r), got) {
            (Some((n, _)), Ok(g)) => {
                let w = guard(|| {
                    let v = a.c.get_message(n).unwrap().decode(&p, &a.c);
                    (format!("{:?}", v), v.encode(&a.c).to_vec())
                });
                ensure!(
                    w.as_ref() == Ok(&g),
                    "decoding {} by {:?} gives {}, not what {} gives\n{}",
                    hex(&p),
                    r,
                    g.0,
                    n,
                    both(a, b)
                );
                cx.count("payloads decoded by foreign references");
            }
            (Some((n, _)), Err(e)) => {
                return Err(Fail(format!("{:?} stands for {}, but decoding by it: {}\n{}", r, n, e, both(a, b))));
            }
            (None, Err(_)) => cx.count("decoding by foreign references refused"),
            (None, Ok(g)) => {
                return Err(Fail(format!(
                    "{:?} of {} in another context stands for nothing, but decoding {} by it gives {}\n{}",
                    r,
                    from,
                    hex(&p),
                    g.0,
                    both(a, b)
                )))
            }
        }
        cx.eval(&p, !p.is_empty());
        // a message of another context, with fields whose types may be missing here
        let p = if cfg!(miri) { soup(&mut cx.rng, &b.s, bt, 6) } else { any_payload(&mut cx.rng, &b.s, bt) };
        let info = match guard(|| b.c.resolve_message(r)) {
            Ok(i) => i,
            Err(_) => continue,
        };
        let home = guard(|| info.decode(&p, &b.c));
        let away = guard(|| {
            let v = info.decode(&p, &a.c);
            let e = v.encode(&a.c).to_vec();
            (v, e)
        });
        let home = match home {
            Ok(h) => h,
            Err(_) => continue,
        };
        let missing = home.fields.iter().any(|f| match &f.value {
            Value::Message(m) => !known.contains_key(&m.msg_ref),
            _ => false,
        });
        match away {
            Err(e) => {
                ensure!(
                    missing,
                    "all types of {} stand for something in the other context, but decoding {}: {}\n{}",
                    from,
                    hex(&p),
                    e,
                    both(a, b)
                );
                cx.count("messages with missing types refused");
            }
            Ok((v, e)) => {
                let same = v.fields.len() == home.fields.len()
                    && v.fields.iter().zip(&home.fields).all(|(x, y)| {
                        x.number == y.number
                            && match (&x.value, &y.value) {
                                (Value::Message(x), Value::Message(y)) => x.msg_ref == y.msg_ref,
                                (x, y) => format!("{:?}", x) == format!("{:?}", y),
                            }
                    });
                ensure!(
                    same && v.garbage == home.garbage,
                    "with another context, decoding {} of {} gives {:?}, not {:?}\n{}",
                    hex(&p),
                    from,
                    v,
                    home,
                    both(a, b)
                );
                // what is within it is what the message of this context makes of it
                for f in &v.fields {
                    if let Value::Message(m) = &f.value {
                        if let Ok(inner) = guard(|| a.c.resolve_message(m.msg_ref)) {
                            let e = guard(|| m.encode(&a.c).to_vec());
                            let again = e.and_then(|e| guard(|| inner.decode(&e, &a.c).encode(&a.c).to_vec()));
                            ensure!(
                                again == guard(|| m.encode(&a.c).to_vec()),
                                "a nested {} does not decode alike on its own: {}\n{}",
                                inner.full_name,
                                hex(&p),
                                both(a, b)
                            );
                        }
                    }
                }
                cx.count("payloads of foreign messages decoded");
                cx.add("bytes of foreign messages encoded", e.len() as u64);
            }
        }
        cx.eval(&p, !p.is_empty());
    }
    Ok(())
}

fn insertion(cx: &mut Cx, a: &mut Side, b: &Side) -> R {
    let mut names = a.names.clone();
    names.push("Zz_new".into());
    for n in &a.names {
        names.push(format!("{}.Zz_new", n));
    }
    for f in &a.s.files {
        if let Some(p) = &f.package {
            names.push(format!("{}.Zz_new", p));
        }
    }
    for _ in 0..4 {
        let parent = if b.packages.is_empty() || (cx.rng.bool() && !b.msgs.is_empty()) {
            TypeParent::Message(cx.rng.pick(&b.msgs).0)
        } else {
            TypeParent::Package(*cx.rng.pick(&b.packages))
        };
        let around = match parent {
            TypeParent::Message(m) => a.msgs.iter().find(|x| x.0 == m).map(|x| Some(x.1.clone())),
            TypeParent::Package(p) => {
                if a.packages.contains(&p) {
                    Some(None)
                } else {
                    None
                }
            }
        };
        let as_enum = cx.rng.bool();
        let before = guard(|| listing(&a.c, &names)).map_err(|_| Fail(SKIP.into()))?;
        let c = &mut a.c;
        let got = guard(|| {
            if as_enum {
                c.insert_enum(EnumInfo::new("Zz_new".into(), parent)).map(|_| ()).map_err(|_| ())
            } else {
                c.insert_message(MessageInfo::new("Zz_new".into(), parent)).map(|_| ()).map_err(|_| ())
            }
        });
        match got {
            Ok(Ok(())) => {
                if let TypeParent::Message(m) = parent {
                    match &around {
                        Some(Some(n)) => {
                            let full = format!("{}.Zz_new", n);
                            ensure!(
                                a.c.get_type(&full).map(|t| t.parent()) == Some(parent),
                                "{} was inserted by {:?}, but is not there\n{}",
                                full,
                                m,
                                both(a, b)
                            );
                        }
                        _ => {
                            return Err(Fail(format!(
                                "{:?} of another context stands for nothing, but a type was inserted into it\n{}",
                                m,
                                both(a, b)
                            )))
                        }
                    }
                }
                cx.count("insertions by foreign references");
                // more of them would only be conflicts
                break;
            }
            r => {
                ensure!(
                    r.is_ok() || around.is_none(),
                    "{:?} stands for {:?}, but inserting into it: {:?}\n{}",
                    parent,
                    around,
                    r,
                    both(a, b)
                );
                if r.is_err() {
                    // What a context is worth after a panic is not specified.
                    cx.count("insertions by foreign references refused");
                    break;
                }
                let after = guard(|| listing(&a.c, &names));
                ensure!(
                    after.as_ref() == Ok(&before),
                    "a refused insertion into {:?} of another context changes the context from {} to {:?}\n{}",
                    parent,
                    before,
                    after,
                    both(a, b)
                );
                cx.count("insertions that conflict");
            }
        }
        cx.evals += 1;
    }
    Ok(())
}
