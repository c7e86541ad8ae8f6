//! Changing contexts.

use crate::ctx::*;
use crate::cx::*;
use crate::ensure;
use crate::gen;
use crate::model as m;
use crate::props::{dec, sch};
use crate::render::{self, Layout};
use crate::rng::Rng;
use crate::wire;
use protofish::context::*;
use protofish::decode::MessageValue;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

// --------------------------------------------------------------------------------------- C18

#[derive(Clone, Copy, Debug)]
enum Ref {
    M(MessageRef),
    E(EnumRef),
}

/// A field as it was added.
#[derive(Clone, Debug)]
struct FieldSpec {
    name: String,
    ty: ValueType,
    mult: Multiplicity,
    opts: Vec<m::Opt>,
    /// Index of the oneof.
    oneof: Option<usize>,
}

#[derive(Clone, Debug)]
struct OneofSpec {
    name: String,
    fields: BTreeSet<u64>,
    opts: Vec<m::Opt>,
}

/// What was added to a message.
#[derive(Clone, Debug, Default)]
struct MsgModel {
    fields: BTreeMap<u64, FieldSpec>,
    by_name: BTreeMap<String, u64>,
    oneofs: Vec<OneofSpec>,
    orefs: Vec<OneofRef>,
    oneof_names: BTreeSet<String>,
}

/// What was added to an enum.
#[derive(Clone, Debug, Default)]
struct EnumModel {
    values: BTreeMap<i64, (String, Vec<m::Opt>)>,
    by_name: BTreeMap<String, i64>,
}

#[derive(Clone, Debug)]
enum Members {
    M(Rc<MsgModel>),
    E(Rc<EnumModel>),
    /// It was parsed.
    Unknown,
}

/// What the model knows of an item that is in the context.
#[derive(Clone, Debug)]
struct Known {
    full: String,
    name: String,
    parent: Option<TypeParent>,
    r: Ref,
    members: Members,
    /// The types that were inserted with it as their parent, in order; unknown for what was parsed.
    inner: Option<Vec<Ref>>,
}

const NAMES: &[&str] = &["A", "B", "C", "a", "b", "AB", "A_", "x"];
const ODD_NAMES: &[&str] = &[
    "A.B", ".A", "A.", "a b", "\u{e9}", "e\u{301}", "\u{1f600}", "A\0", "A\n", "message", "Ab", "aB", "\u{130}", "i", "I", "A ", "\"", "B.A",
];
const NUMBERS: &[u64] = &[0, 1, 2, 3, 4, 5, 15, 16, 536870911, 1 << 32, (1 << 32) + 1, u64::MAX];
const VALUES: &[i64] = &[
    0,
    1,
    -1,
    2,
    i64::MAX,
    i64::MIN,
    i32::MAX as i64,
    i32::MIN as i64,
    1 << 32,
    (1 << 32) + 1,
    u32::MAX as i64,
];

/// What names and numbers a history is made of, and how long it is.
struct Pool {
    names: Vec<String>,
    types: Vec<String>,
    packages: Vec<Option<String>>,
    numbers: Vec<u64>,
    values: Vec<i64>,
    /// Most members added to one message or enum.
    members: usize,
    /// How many oneofs the message has that references are taken from that are not ours.
    strange: usize,
    ops: usize,
    big: bool,
}

fn many_names(rng: &mut Rng, n: usize) -> Vec<String> {
    let long = rng.one_in(4);
    let base: String = if long { "n".repeat(rng.range(100, 3000)) } else { "n".into() };
    (0..n)
        .map(|i| match i % 7 {
            0 => format!("{}{}", base, i),
            1 => format!("{}{:04}", base, i),
            2 => format!("N{}", i - 2),
            3 => format!("{}_{}", i, base),
            4 => format!("n{}_", i),
            5 => format!("\u{e9}{}", i),
            _ => format!("n{}", i - 1),
        })
        .collect()
}

fn pool(rng: &mut Rng) -> Pool {
    let owned = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut p = Pool {
        names: owned(NAMES),
        types: owned(NAMES),
        packages: vec![],
        numbers: NUMBERS.to_vec(),
        values: VALUES.to_vec(),
        members: 18,
        strange: 6,
        ops: if rng.one_in(15) { 120 } else { rng.range(5, 40) },
        big: false,
    };
    if rng.one_in(4) {
        p.names.extend(owned(ODD_NAMES));
        p.names.push(String::new());
        p.types.extend(owned(ODD_NAMES));
    }
    p.packages.push(None);
    for _ in 0..5 {
        let n = rng.pick(&p.types).clone();
        p.packages.push(Some(n));
        let n = format!("{}.{}", rng.pick(NAMES), rng.pick(NAMES));
        p.packages.push(Some(n));
    }
    if rng.one_in(20) {
        p.members = 80;
    }
    if cfg!(miri) {
        p.ops = rng.range(3, 9);
        p.members = 8;
        return p;
    }
    if rng.one_in(150) {
        p.big = true;
        let n = *rng.pick(&[40, 300, 600, 1100, 2500]);
        match rng.below(3) {
            0 => {
                // few items with many members
                p.ops = rng.range(2, 5);
                p.members = n + n / 2;
                p.strange = n + 10;
                p.names = many_names(rng, n);
                let a = rng.next() >> rng.below(64);
                for i in 0..n as u64 {
                    p.numbers.push(match rng.below(4) {
                        0 => rng.next() >> rng.below(64),
                        1 => i,
                        _ => a.wrapping_add(i),
                    });
                    p.values.push(match rng.below(4) {
                        0 => (rng.next() as i64) >> rng.below(64),
                        1 => -(i as i64),
                        _ => a.wrapping_add(i) as i64,
                    });
                }
            }
            1 => {
                // many types
                p.ops = n;
                p.members = 4;
                let k = n / rng.range(1, 6);
                p.types = many_names(rng, k);
                for i in 0..5 {
                    p.packages.push(Some(format!("pkg{}", i)));
                }
            }
            _ => {
                // many packages
                p.ops = n;
                p.members = 3;
                let names = many_names(rng, n);
                for n in names {
                    p.packages.push(Some(if rng.bool() { n } else { format!("{}.{}", rng.pick(NAMES), n) }));
                }
            }
        }
    }
    p
}

fn value_type(rng: &mut Rng, known: &[Known]) -> ValueType {
    if !known.is_empty() && rng.one_in(3) {
        match rng.pick(known).r {
            Ref::M(m) => ValueType::Message(m),
            Ref::E(e) => ValueType::Enum(e),
        }
    } else {
        scalar(*rng.pick(&m::KINDS))
    }
}

fn field(number: u64, f: &FieldSpec, oneof: Option<OneofRef>) -> MessageField {
    let mut x = MessageField::new(f.name.clone(), number, f.ty.clone());
    x.multiplicity = f.mult.clone();
    x.oneof = oneof;
    x.options = options(&f.opts);
    x
}

fn oneof(name: &str, fields: &[u64], self_ref: Option<OneofRef>, opts: &[m::Opt]) -> Oneof {
    let mut o = Oneof::new(name.into());
    o.fields = fields.to_vec();
    o.options = options(opts);
    if let Some(r) = self_ref {
        // whatever it says before, the message decides
        o.self_ref = r;
    }
    o
}

/// Compares a message with what was added to it.
fn check_message(info: &MessageInfo, md: &MsgModel, lookups: &Pool, log: &str) -> R {
    let mut n = 0;
    let mut last = None;
    for f in info.iter_fields() {
        n += 1;
        let want = md.fields.get(&f.number).map(|x| field(f.number, x, x.oneof.map(|o| md.orefs[o])));
        ensure!(
            want.as_ref() == Some(f),
            "field {} is listed as {:?}, but {:?} was added\n{}",
            f.number,
            f,
            want,
            log
        );
        ensure!(last < Some(f.number), "field {} is listed twice or out of order\n{}", f.number, log);
        last = Some(f.number);
    }
    ensure!(n == md.fields.len(), "{} fields are listed, {} were added\n{}", n, md.fields.len(), log);
    for num in &lookups.numbers {
        let want = md.fields.get(num).map(|f| &f.name);
        let got = info.get_field(*num).map(|f| &f.name);
        ensure!(got == want, "get_field({}) gives {:?} instead of {:?}\n{}", num, got, want, log);
    }
    for name in &lookups.names {
        let want = md.by_name.get(name).copied();
        let got = info.get_field_by_name(name).map(|f| f.number);
        ensure!(got == want, "get_field_by_name({:?}) gives {:?} instead of {:?}\n{}", name, got, want, log);
    }
    ensure!(
        info.oneofs.len() == md.oneofs.len(),
        "{} oneofs are listed, {} were added\n{}",
        info.oneofs.len(),
        md.oneofs.len(),
        log
    );
    for (i, spec) in md.oneofs.iter().enumerate() {
        let got = info.get_oneof(md.orefs[i]);
        let ok = got.map_or(false, |o| {
            o.name == spec.name
                && o.fields.len() == spec.fields.len()
                && o.fields.iter().all(|f| spec.fields.contains(f))
                && o.self_ref == md.orefs[i]
                && o.options == options(&spec.opts)
        });
        ensure!(ok, "oneof {:?} was added, but {:?} is found\n{}", spec, got, log);
    }
    Ok(())
}

fn check_enum(info: &EnumInfo, md: &EnumModel, lookups: &Pool, log: &str) -> R {
    for v in md.values.keys().chain(&lookups.values) {
        let want = md.values.get(v).map(|(n, o)| {
            let mut f = EnumField::new(n.clone(), *v);
            f.options = options(o);
            f
        });
        let got = info.get_field_by_value(*v);
        ensure!(got == want.as_ref(), "value {} is {:?} instead of {:?}\n{}", v, got, want, log);
    }
    Ok(())
}

fn build_message(
    cx: &mut Cx,
    pool: &Pool,
    name: &str,
    parent: TypeParent,
    known: &[Known],
    log: &mut String,
) -> R<(MessageInfo, MessageInfo, MsgModel)> {
    let mut info = MessageInfo::new(name.into(), parent);
    let mut twin = MessageInfo::new(name.into(), parent);
    let mut md = MsgModel::default();
    // references to oneofs this message may not have
    let mut foreign = MessageInfo::new("F".into(), parent);
    let mut strange = vec![];
    for i in 0..pool.strange {
        if let Ok(r) = foreign.add_oneof(Oneof::new(format!("o{}", i))) {
            strange.push(r);
        }
    }
    let n = if pool.members > 18 && cx.rng.bool() { pool.members } else { cx.rng.below(pool.members) };
    let mut free: Vec<u64> = vec![];
    // in a big message, mostly one or the other
    let oneofs_in = if pool.big { *cx.rng.pick(&[2, 3, 40]) } else { 3 };
    for step in 0..n {
        let rng = &mut cx.rng;
        let opts = gen::gen_opts(rng, gen::Opts::Simple, 2);
        if rng.one_in(oneofs_in) {
            let name = rng.pick(&pool.names).clone();
            let mut fields: Vec<u64> = vec![];
            let k = if pool.big && rng.one_in(20) { rng.below(pool.members) } else { rng.below(4) };
            for _ in 0..k {
                let f = match rng.below(if k > 4 { 40 } else { 6 }) {
                    0 => *rng.pick(&pool.numbers),
                    1 if !md.fields.is_empty() => {
                        let i = rng.below(md.fields.len());
                        *md.fields.keys().nth(i).unwrap()
                    }
                    _ if !free.is_empty() => *rng.pick(&free),
                    _ => continue,
                };
                if !fields.contains(&f) {
                    fields.push(f);
                }
            }
            let self_ref = if rng.bool() { Some(*rng.pick(&strange)) } else { None };
            log.push_str(&format!("add_oneof {:?} {:?}\n", name, fields));
            let got = call("add_oneof", || info.add_oneof(oneof(&name, &fields, self_ref, &opts)))?;
            let dup = md.oneof_names.contains(&name);
            let missing: Vec<u64> = fields.iter().copied().filter(|f| !md.fields.contains_key(f)).collect();
            let taken: Vec<u64> = fields.iter().copied().filter(|f| md.fields.get(f).map_or(false, |f| f.oneof.is_some())).collect();
            let ok = match &got {
                Ok(_) => !dup && missing.is_empty() && taken.is_empty(),
                Err(OneofInsertError::NameConflict) => dup,
                Err(OneofInsertError::FieldNotFound { field }) => missing.contains(field),
                Err(OneofInsertError::FieldInOneof { field }) => taken.contains(field),
                Err(_) => false,
            };
            ensure!(
                ok,
                "add_oneof gives {:?}; name taken {}, missing fields {:?}, fields in oneofs {:?}\n{}",
                got,
                dup,
                missing,
                taken,
                log
            );
            match got {
                Ok(r) => {
                    cx.count("oneofs added");
                    ensure!(!md.orefs.contains(&r), "the new oneof has the reference of another\n{}", log);
                    let r2 = twin.add_oneof(oneof(&name, &fields, None, &opts));
                    ensure!(
                        matches!(r2, Ok(r2) if r2 == r),
                        "a message with the same history gives {:?} instead of {:?}\n{}",
                        r2,
                        r,
                        log
                    );
                    let id = md.oneofs.len();
                    for f in &fields {
                        md.fields.get_mut(f).unwrap().oneof = Some(id);
                    }
                    free.retain(|f| !fields.contains(f));
                    md.oneof_names.insert(name.clone());
                    md.oneofs.push(OneofSpec {
                        name,
                        fields: fields.iter().copied().collect(),
                        opts,
                    });
                    md.orefs.push(r);
                }
                Err(_) => cx.count("oneofs refused"),
            }
        } else {
            let name = rng.pick(&pool.names).clone();
            let number = *rng.pick(&pool.numbers);
            let ty = value_type(rng, known);
            let mult = rng
                .pick(&[Multiplicity::Single, Multiplicity::Repeated, Multiplicity::RepeatedPacked, Multiplicity::Optional])
                .clone();
            let of = match rng.below(4) {
                0 => Some(*rng.pick(&strange)),
                1 if !md.orefs.is_empty() => Some(*rng.pick(&md.orefs)),
                _ => None,
            };
            log.push_str(&format!("add_field {:?} {} {:?}\n", name, number, of));
            let mut spec = FieldSpec {
                name,
                ty,
                mult,
                opts,
                oneof: None,
            };
            let got = call("add_field", || info.add_field(field(number, &spec, of)))?;
            let in_oneof = of.map(|o| md.orefs.iter().position(|x| *x == o));
            let dup_num = md.fields.contains_key(&number);
            let dup_name = md.by_name.contains_key(&spec.name);
            let dangling = in_oneof == Some(None);
            let ok = match &got {
                Ok(()) => !dup_num && !dup_name && !dangling,
                Err(MemberInsertError::NumberConflict) => dup_num,
                Err(MemberInsertError::NameConflict) => dup_name,
                Err(MemberInsertError::MissingOneof) => dangling,
                Err(_) => false,
            };
            ensure!(
                ok,
                "add_field gives {:?}; number taken {}, name taken {}, no such oneof {}\n{}",
                got,
                dup_num,
                dup_name,
                dangling,
                log
            );
            match got {
                Ok(()) => {
                    cx.count("fields added");
                    let r2 = twin.add_field(field(number, &spec, of));
                    ensure!(r2.is_ok(), "a message with the same history gives {:?}\n{}", r2, log);
                    let f = info.get_field(number);
                    ensure!(f == Some(&field(number, &spec, of)), "the new field is found as {:?}\n{}", f, log);
                    spec.oneof = in_oneof.flatten();
                    if let Some(o) = spec.oneof {
                        md.oneofs[o].fields.insert(number);
                    } else {
                        free.push(number);
                    }
                    md.by_name.insert(spec.name.clone(), number);
                    md.fields.insert(number, spec);
                }
                Err(_) => cx.count("fields refused"),
            }
        }
        if !pool.big || step + 1 == n || step.is_power_of_two() || step % 97 == 0 {
            ensure!(info == twin, "a refused change left a trace:\n{:?}\n{:?}\n{}", info, twin, log);
            check_message(&info, &md, pool, log)?;
        }
    }
    cx.max("fields in a message", md.fields.len() as u64);
    cx.max("oneofs in a message", md.oneofs.len() as u64);
    Ok((info, twin, md))
}

fn build_enum(cx: &mut Cx, pool: &Pool, name: &str, parent: TypeParent, log: &mut String) -> R<(EnumInfo, EnumInfo, EnumModel)> {
    let mut info = EnumInfo::new(name.into(), parent);
    let mut twin = EnumInfo::new(name.into(), parent);
    let mut md = EnumModel::default();
    let n = cx.rng.below(pool.members);
    for step in 0..n {
        let rng = &mut cx.rng;
        let opts = gen::gen_opts(rng, gen::Opts::Simple, 2);
        let name = rng.pick(&pool.names).clone();
        let v = *rng.pick(&pool.values);
        let new = || {
            let mut f = EnumField::new(name.to_string(), v);
            f.options = options(&opts);
            f
        };
        log.push_str(&format!("add_field {:?} {}\n", name, v));
        let got = call("add_field", || info.add_field(new()))?;
        let dup_num = md.values.contains_key(&v);
        let dup_name = md.by_name.contains_key(&name);
        let ok = match &got {
            Ok(()) => !dup_num && !dup_name,
            Err(MemberInsertError::NumberConflict) => dup_num,
            Err(MemberInsertError::NameConflict) => dup_name,
            Err(_) => false,
        };
        ensure!(ok, "add_field gives {:?}; value taken {}, name taken {}\n{}", got, dup_num, dup_name, log);
        if got.is_ok() {
            cx.count("enum values added");
            ensure!(twin.add_field(new()).is_ok(), "an enum with the same history refuses\n{}", log);
            ensure!(info.get_field_by_value(v) == Some(&new()), "the new value is not found as it was added\n{}", log);
            md.by_name.insert(name.clone(), v);
            md.values.insert(v, (name, opts));
        } else {
            cx.count("enum values refused");
        }
        if !pool.big || step + 1 == n || step.is_power_of_two() || step % 97 == 0 {
            ensure!(info == twin, "a refused change left a trace:\n{:?}\n{:?}\n{}", info, twin, log);
            check_enum(&info, &md, pool, log)?;
        }
    }
    cx.max("values in an enum", md.values.len() as u64);
    Ok((info, twin, md))
}

fn check_known(c: &Context, known: &mut dyn Iterator<Item = &Known>, pool: &Pool, log: &str) -> R {
    for k in known {
        let t = c.get_type(&k.full);
        match (k.r, t) {
            (Ref::M(r), Some(TypeInfo::Message(x))) => {
                let y = call("resolve_message", || c.resolve_message(r))?;
                ensure!(std::ptr::eq(x, y), "the reference of {} leads to {}\n{}", k.full, y.full_name, log);
                ensure!(
                    c.get_message(&k.full).map_or(false, |z| std::ptr::eq(x, z)),
                    "get_message does not find {}\n{}",
                    k.full,
                    log
                );
                ensure!(x.self_ref == r, "{} has another reference than it was given\n{}", k.full, log);
                ensure!(
                    x.name == k.name && x.full_name == k.full && k.parent.map_or(true, |p| p == x.parent),
                    "{} is called {} ({}) in {:?}, not {:?}\n{}",
                    k.full,
                    x.full_name,
                    x.name,
                    x.parent,
                    k.parent,
                    log
                );
                if let Members::M(md) = &k.members {
                    check_message(x, md, pool, log)?;
                }
                if let Some(inner) = &k.inner {
                    let want: Vec<TypeRef> = inner.iter().map(|r| type_ref(*r)).collect();
                    let ok = want.len() == x.inner_types.len() && want.iter().all(|t| x.inner_types.contains(t));
                    ensure!(ok, "{} lists {:?} instead of {:?}\n{}", k.full, x.inner_types, want, log);
                }
            }
            (Ref::E(r), Some(TypeInfo::Enum(x))) => {
                let y = call("resolve_enum", || c.resolve_enum(r))?;
                ensure!(std::ptr::eq(x, y), "the reference of {} leads to {}\n{}", k.full, y.full_name, log);
                ensure!(c.get_message(&k.full).is_none(), "get_message finds the enum {}\n{}", k.full, log);
                ensure!(
                    x.self_ref == r && x.name == k.name && x.full_name == k.full && k.parent.map_or(true, |p| p == x.parent),
                    "{} is found as {} in {:?}\n{}",
                    k.full,
                    x.full_name,
                    x.parent,
                    log
                );
                if let Members::E(md) = &k.members {
                    check_enum(x, md, pool, log)?;
                }
            }
            (_, t) => return Err(Fail(format!("{} is found as {:?}\n{}", k.full, t.map(|t| t.name()), log))),
        }
    }
    Ok(())
}

fn type_ref(r: Ref) -> TypeRef {
    match r {
        Ref::M(m) => TypeRef::Message(m),
        Ref::E(e) => TypeRef::Enum(e),
    }
}

/// A payload for a message, with small numbers so that many of its fields are met.
fn some_payload(rng: &mut Rng, x: &MessageInfo) -> Vec<u8> {
    let mut out = vec![];
    let numbers: Vec<u64> = x.iter_fields().map(|f| f.number).filter(|n| *n < 1 << 61).collect();
    for _ in 0..rng.below(6) {
        let n = if numbers.is_empty() || rng.one_in(4) { rng.below(20) as u64 } else { *rng.pick(&numbers) };
        let wt = *rng.pick(&[0u64, 1, 2, 2, 5]);
        wire::put_varint(&mut out, n << 3 | wt);
        match wt {
            0 => {
                let v = rng.weird();
                wire::put_varint(&mut out, v)
            }
            1 => out.extend(rng.bytes(8)),
            5 => out.extend(rng.bytes(4)),
            _ => {
                let k = rng.below(9);
                out.push(k as u8);
                out.extend(rng.bytes(k));
            }
        }
    }
    out
}

pub fn c18(cx: &mut Cx) -> R {
    let pool = pool(&mut cx.rng);
    let mut log = String::new();
    let mut known: Vec<Known> = vec![];
    let mut by_full: HashMap<String, usize> = HashMap::new();
    let mut packages: Vec<(Option<String>, PackageRef)> = vec![];
    let mut package_of: HashMap<Option<String>, PackageRef> = HashMap::new();
    let mut package_refs: HashSet<PackageRef> = HashSet::new();
    let mut services: BTreeSet<String> = BTreeSet::new();
    // an empty context or one that was parsed
    let (mut c, mut twin) = if cx.rng.bool() || cfg!(miri) {
        if cx.rng.bool() {
            (Context::new(), Context::new())
        } else {
            (Context::default(), Context::new())
        }
    } else {
        let mut cfg = gen::Cfg::text();
        cfg.names = gen::pool(&mut cx.rng);
        cfg.opts = gen::Opts::None;
        cfg.share_packages = false;
        cfg.files = 3;
        cfg.types = 10;
        let s = gen::generate(&mut cx.rng, &cfg);
        let texts = render::render(&s, &mut cx.rng, Layout::Plain);
        let get = || match guard(|| Context::parse(&texts)) {
            Ok(Ok(c)) => Ok(c),
            _ => Err(Fail(SKIP.into())),
        };
        let mut c = get()?;
        let twin = get()?;
        log.push_str(&sch::show(&texts));
        log.push('\n');
        for f in &s.files {
            match call("insert_package", || c.insert_package(Package::new(f.package.clone())))? {
                Err(r) => {
                    packages.push((f.package.clone(), r));
                    package_of.insert(f.package.clone(), r);
                    package_refs.insert(r);
                }
                Ok(_) => return Err(Fail(format!("package {:?} is inserted although the parsed file has it\n{}", f.package, log))),
            }
        }
        for t in &s.types {
            let info = c.get_type(&t.full).ok_or_else(|| Fail(SKIP.into()))?;
            by_full.insert(t.full.clone(), known.len());
            known.push(Known {
                full: t.full.clone(),
                name: t.name.clone(),
                parent: Some(info.parent()),
                r: match info {
                    TypeInfo::Message(m) => Ref::M(m.self_ref),
                    TypeInfo::Enum(e) => Ref::E(e.self_ref),
                },
                members: Members::Unknown,
                inner: None,
            });
        }
        services.extend(s.services.iter().map(|s| s.full.clone()));
        (c, twin)
    };
    // payloads decoded while the context grows
    let mut decoded: Vec<(MessageRef, Vec<u8>, MessageValue, String)> = vec![];
    for op in 0..pool.ops {
        let kind = if packages.is_empty() {
            0
        } else if pool.big && pool.packages.len() > 30 {
            *cx.rng.pick(&[0, 0, 0, 1, 5])
        } else {
            cx.rng.below(6)
        };
        let mut changed = false;
        if kind == 0 {
            let name = cx.rng.pick(&pool.packages).clone();
            log.push_str(&format!("insert_package {:?}\n", name));
            let have = package_of.get(&name).copied();
            let got = call("insert_package", || c.insert_package(Package::new(name.clone())))?;
            match (have, got) {
                (Some(r), Err(e)) => {
                    ensure!(r == e, "the conflict is with {:?}, not {:?}\n{}", r, e, log);
                    cx.count("packages refused");
                }
                (None, Ok(r)) => {
                    ensure!(package_refs.insert(r), "the new package has the reference of another\n{}", log);
                    call("resolve_package", || {
                        c.resolve_package(r);
                    })?;
                    let r2 = twin.insert_package(Package::new(name.clone()));
                    ensure!(r2 == Ok(r), "a context with the same history gives {:?} instead of {:?}\n{}", r2, r, log);
                    package_of.insert(name.clone(), r);
                    packages.push((name, r));
                    changed = true;
                    cx.count("packages added");
                }
                (have, got) => return Err(Fail(format!("insert_package gives {:?}, existing {:?}\n{}", got, have, log))),
            }
        } else {
            let mut parent = None;
            if !known.is_empty() && cx.rng.bool() {
                for _ in 0..4 {
                    let i = if cx.rng.one_in(3) { known.len() - 1 } else { cx.rng.below(known.len()) };
                    // names grow with the depth
                    if let (Ref::M(m), true) = (known[i].r, known[i].full.len() < 20_000) {
                        parent = Some((TypeParent::Message(m), known[i].full.clone(), Some(i)));
                        break;
                    }
                }
            }
            let (parent, scope, outer) = parent.unwrap_or_else(|| {
                let (n, r) = cx.rng.pick(&packages).clone();
                (TypeParent::Package(r), n.unwrap_or_default(), None)
            });
            let name = &*cx.rng.pick(&pool.types).clone();
            let full = if scope.is_empty() { name.to_string() } else { format!("{}.{}", scope, name) };
            if services.contains(&full) {
                continue;
            }
            let taken = by_full.get(&full).map(|i| known[*i].clone());
            log.push_str(&format!("new {:?} in {:?} {:?}\n", name, parent, scope));
            let mut garbage = if cx.rng.one_in(3) { Some(cx.rng.pick(NAMES).to_string()) } else { None };
            if let (Some(g), Some(k)) = (&mut garbage, known.last()) {
                if cx.rng.bool() {
                    *g = k.full.clone();
                }
            }
            let (got, members) = if kind < 5 {
                let (mut info, tw, md) = build_message(cx, &pool, name, parent, &known, &mut log)?;
                if let Some(g) = garbage {
                    // documented to be of no meaning before the insertion
                    info.full_name = g;
                    if let Some(Ref::M(r)) = known.iter().map(|k| k.r).find(|r| matches!(r, Ref::M(_))) {
                        info.self_ref = r;
                    }
                }
                let got = call("insert_message", || c.insert_message(info))?;
                if got.is_ok() {
                    let r2 = twin.insert_message(tw);
                    ensure!(
                        r2.as_ref().ok() == got.as_ref().ok(),
                        "a context with the same history gives {:?} instead of {:?}\n{}",
                        r2,
                        got,
                        log
                    );
                }
                (got.map(Ref::M), Members::M(Rc::new(md)))
            } else {
                let (mut info, tw, md) = build_enum(cx, &pool, name, parent, &mut log)?;
                if let Some(g) = garbage {
                    info.full_name = g;
                }
                let got = call("insert_enum", || c.insert_enum(info))?;
                if got.is_ok() {
                    let r2 = twin.insert_enum(tw);
                    ensure!(
                        r2.as_ref().ok() == got.as_ref().ok(),
                        "a context with the same history gives {:?} instead of {:?}\n{}",
                        r2,
                        got,
                        log
                    );
                }
                (got.map(Ref::E), Members::E(Rc::new(md)))
            };
            match (taken, got) {
                (None, Ok(r)) => {
                    changed = true;
                    cx.count("types added");
                    if let TypeParent::Message(p) = parent {
                        let want = type_ref(r);
                        let inner = &c.resolve_message(p).inner_types;
                        ensure!(
                            inner.iter().filter(|t| **t == want).count() == 1,
                            "{} is not listed by its parent: {:?}\n{}",
                            full,
                            inner,
                            log
                        );
                    }
                    if let Some(inner) = outer.and_then(|i| known[i].inner.as_mut()) {
                        inner.push(r);
                    }
                    by_full.insert(full.clone(), known.len());
                    known.push(Known {
                        full,
                        name: name.into(),
                        parent: Some(parent),
                        r,
                        members,
                        inner: Some(vec![]),
                    });
                }
                (Some(k), Err(InsertError::TypeExists { original })) => {
                    cx.count("types refused");
                    ensure!(type_ref(k.r) == original, "{} conflicts with {:?}, not {:?}\n{}", full, k.r, original, log);
                }
                (taken, got) => return Err(Fail(format!("inserting {} gives {:?}, existing {:?}\n{}", full, got, taken, log))),
            }
        }
        let full_look = !pool.big || op + 1 == pool.ops || op % 301 == 0;
        if full_look {
            ensure!(c == twin, "the context differs from one with only the successful changes\n{:?}\n{:?}\n{}", c, twin, log);
        }
        if changed && full_look {
            check_known(&c, &mut known.iter(), &pool, &log)?;
        } else if changed {
            let some: Vec<usize> = (0..5).map(|_| cx.rng.below(known.len().max(1))).collect();
            check_known(&c, &mut known.iter().rev().take(5), &pool, &log)?;
            check_known(&c, &mut some.iter().filter_map(|i| known.get(*i)), &pool, &log)?;
        }
        for n in NAMES {
            ensure!(
                c.get_type(n).is_some() == by_full.contains_key(*n),
                "get_type({}) finds what is not there or misses what is\n{}",
                n,
                log
            );
        }
        if !known.is_empty() && cx.rng.one_in(8) {
            if let Ref::M(r) = cx.rng.pick(&known).r {
                let p = some_payload(&mut cx.rng, c.resolve_message(r));
                let v = call("decode", || c.decode(r, &p))?;
                let e = call("encode", || v.encode(&c))?;
                decoded.push((r, p, v, hex(&e)));
            }
        }
    }
    for (r, p, v, e) in &decoded {
        let v2 = call("decode", || c.decode(*r, p))?;
        // NaN is not equal to itself
        ensure!(
            format!("{:?}", v2) == format!("{:?}", v),
            "after other types were added {} decodes to {:?} instead of {:?}\n{}",
            hex(p),
            v2,
            v,
            log
        );
        let e2 = call("encode", || v.encode(&c))?;
        ensure!(hex(&e2) == *e, "after other types were added {:?} encodes to {} instead of {}\n{}", v, hex(&e2), e, log);
        cx.count("payloads decoded before and after changes");
    }
    let all: Vec<String> = by_full.keys().chain(&services).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    call("looking around", || walk(&c, &all))?.map_err(|e| Fail(format!("{}\n{}", e, log)))?;
    check_known(&c, &mut known.iter(), &pool, &log)?;
    cx.max("operations in a history", log.lines().count() as u64);
    cx.max("types in a context", known.len() as u64);
    cx.max("packages in a context", packages.len() as u64);
    cx.eval(log.as_bytes(), known.len() > 1);
    cx.sample(|| log.clone());
    Ok(())
}

// --------------------------------------------------------------------------------------- C19

pub fn c19(cx: &mut Cx) -> R {
    let mut cfg = gen::Cfg::wire();
    cfg.files = 4;
    cfg.types = if cx.rng.one_in(6) { 40 } else { 10 };
    cfg.depth = 5;
    cfg.opts = gen::Opts::Simple;
    cfg.names = *cx.rng.pick(&[gen::Names::Plain, gen::Names::Tricky, gen::Names::Pool, gen::Names::Kin, gen::Names::Long]);
    cfg.huge_numbers = cx.rng.one_in(3);
    cfg.vast = crate::props::sch::vast(cx);
    cfg.lits = cx.rng.bool();
    cfg.wide_values = cx.rng.one_in(3);
    let s = gen::generate(&mut cx.rng, &cfg);
    let layout = if cx.rng.bool() { Layout::Plain } else { Layout::Wild };
    let texts = render::render(&s, &mut cx.rng, layout);
    let parsed = match guard(|| Context::parse(&texts)) {
        Ok(Ok(c)) => c,
        _ => return Err(Fail(SKIP.into())),
    };
    let mut built = vec![];
    for (oneofs_last, reverse_fields) in [(false, false), (true, false), (true, true)] {
        let h = HandCfg {
            oneofs_last,
            reverse_fields,
        };
        let c = call("building", || by_hand(&s, h))?.map_err(|e| Fail(format!("{}\n{}", e, sch::show(&texts))))?;
        ensure!(
            c == parsed,
            "the context built by hand ({}) differs from the parsed one: {}\n{:?}\n{:?}\n{}",
            if oneofs_last { "oneofs last" } else { "oneofs first" },
            diff(&snap_ctx(&parsed, &s), &snap_ctx(&c, &s)).unwrap_or_default(),
            parsed,
            c,
            sch::show(&texts)
        );
        ensure!(parsed == c, "equality of contexts is not symmetric\n{}", sch::show(&texts));
        cx.eval(&texts.join("\0").into_bytes(), true);
        cx.count("contexts compared");
        built.push(c);
    }
    let a = Ctx::attach(parsed, &s).map_err(|_| Fail(SKIP.into()))?;
    for c in built {
        let b = Ctx::attach(c, &s).map_err(|e| Fail(format!("{}\n{}", e, sch::show(&texts))))?;
        for _ in 0..6 {
            let t = *cx.rng.pick(&s.messages());
            let p = wire::any_payload(&mut cx.rng, &s, t);
            let x: MessageValue = call("decode", || a.decode(t, &p))?;
            let y: MessageValue = call("decode", || b.decode(t, &p))?;
            let (lx, ly) = (a.lift(&x)?, b.lift(&y)?);
            if let Some(d) = dec::diff(&lx, &ly) {
                return Err(Fail(format!("decoding differs: {}; payload {}\n{}", d, hex(&p), sch::show(&texts))));
            }
            let (ex, ey) = (call("encode", || x.encode(&a.ctx))?, call("encode", || y.encode(&b.ctx))?);
            ensure!(ex == ey, "encoding differs; payload {}\n{}", hex(&p), sch::show(&texts));
            cx.count("payloads decoded with both");
            cx.eval(&p, p.len() > 2);
        }
    }
    cx.sample(|| sch::show(&texts));
    Ok(())
}
