//! Contexts from schemas, and values and contexts back to reference form.

use crate::model::*;
use crate::wire::{RMsg, RV};
use bytes::Bytes;
use protofish::context::*;
use protofish::context::Oneof;
use protofish::decode::EnumValue;
use protofish::decode::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Ctx {
    pub ctx: Context,
    pub msg: HashMap<Tid, MessageRef>,
    pub enm: HashMap<Tid, EnumRef>,
    pub rmsg: HashMap<MessageRef, Tid>,
    pub renm: HashMap<EnumRef, Tid>,
}

impl Ctx {
    /// Finds the types of the schema in the context.
    pub fn attach(ctx: Context, s: &Schema) -> Result<Ctx, String> {
        let mut c = Ctx {
            ctx,
            msg: HashMap::new(),
            enm: HashMap::new(),
            rmsg: HashMap::new(),
            renm: HashMap::new(),
        };
        for (i, t) in s.types.iter().enumerate() {
            match c.ctx.get_type(&t.full) {
                Some(TypeInfo::Message(m)) if s.is_msg(i) => {
                    c.msg.insert(i, m.self_ref);
                    if c.rmsg.insert(m.self_ref, i).is_some() {
                        return Err(format!("{}: reference shared with another type", t.full));
                    }
                }
                Some(TypeInfo::Enum(e)) if !s.is_msg(i) => {
                    c.enm.insert(i, e.self_ref);
                    if c.renm.insert(e.self_ref, i).is_some() {
                        return Err(format!("{}: reference shared with another type", t.full));
                    }
                }
                Some(_) => return Err(format!("{} is of the wrong kind", t.full)),
                None => return Err(format!("{} is not in the context", t.full)),
            }
        }
        Ok(c)
    }

    pub fn decode(&self, tid: Tid, d: &[u8]) -> MessageValue {
        self.ctx.decode(self.msg[&tid], d)
    }

    pub fn lift(&self, m: &MessageValue) -> Result<RMsg, String> {
        let tid = *self
            .rmsg
            .get(&m.msg_ref)
            .ok_or_else(|| format!("value refers to unknown message {:?}", m.msg_ref))?;
        let mut fields = Vec::with_capacity(m.fields.len());
        for f in &m.fields {
            fields.push((f.number, self.lift_value(&f.value)?));
        }
        Ok(RMsg {
            tid,
            fields,
            garbage: m.garbage.as_ref().map(|g| g.to_vec()),
        })
    }

    pub fn lift_value(&self, v: &Value) -> Result<RV, String> {
        Ok(match v {
            Value::Double(v) => RV::Num(K::Double, v.to_bits()),
            Value::Float(v) => RV::Num(K::Float, v.to_bits() as u64),
            Value::Int32(v) => RV::Num(K::Int32, *v as i64 as u64),
            Value::Int64(v) => RV::Num(K::Int64, *v as u64),
            Value::UInt32(v) => RV::Num(K::UInt32, *v as u64),
            Value::UInt64(v) => RV::Num(K::UInt64, *v),
            Value::SInt32(v) => RV::Num(K::SInt32, *v as i64 as u64),
            Value::SInt64(v) => RV::Num(K::SInt64, *v as u64),
            Value::Fixed32(v) => RV::Num(K::Fixed32, *v as u64),
            Value::Fixed64(v) => RV::Num(K::Fixed64, *v),
            Value::SFixed32(v) => RV::Num(K::SFixed32, *v as i64 as u64),
            Value::SFixed64(v) => RV::Num(K::SFixed64, *v as u64),
            Value::Bool(v) => RV::Num(K::Bool, *v as u64),
            Value::String(s) => RV::Str(s.clone()),
            Value::Bytes(b) => RV::Bytes(b.to_vec()),
            Value::Packed(p) => match p {
                PackedArray::Double(v) => RV::Packed(K::Double, v.iter().map(|v| v.to_bits()).collect()),
                PackedArray::Float(v) => RV::Packed(K::Float, v.iter().map(|v| v.to_bits() as u64).collect()),
                PackedArray::Int32(v) => RV::Packed(K::Int32, v.iter().map(|v| *v as i64 as u64).collect()),
                PackedArray::Int64(v) => RV::Packed(K::Int64, v.iter().map(|v| *v as u64).collect()),
                PackedArray::UInt32(v) => RV::Packed(K::UInt32, v.iter().map(|v| *v as u64).collect()),
                PackedArray::UInt64(v) => RV::Packed(K::UInt64, v.clone()),
                PackedArray::SInt32(v) => RV::Packed(K::SInt32, v.iter().map(|v| *v as i64 as u64).collect()),
                PackedArray::SInt64(v) => RV::Packed(K::SInt64, v.iter().map(|v| *v as u64).collect()),
                PackedArray::Fixed32(v) => RV::Packed(K::Fixed32, v.iter().map(|v| *v as u64).collect()),
                PackedArray::Fixed64(v) => RV::Packed(K::Fixed64, v.clone()),
                PackedArray::SFixed32(v) => RV::Packed(K::SFixed32, v.iter().map(|v| *v as i64 as u64).collect()),
                PackedArray::SFixed64(v) => RV::Packed(K::SFixed64, v.iter().map(|v| *v as u64).collect()),
                PackedArray::Bool(v) => RV::Packed(K::Bool, v.iter().map(|v| *v as u64).collect()),
            },
            Value::Message(m) => RV::Msg(self.lift(m)?),
            Value::Enum(e) => RV::Enum(
                *self
                    .renm
                    .get(&e.enum_ref)
                    .ok_or_else(|| format!("value refers to unknown enum {:?}", e.enum_ref))?,
                e.value,
            ),
            Value::Incomplete(wt, b) => RV::Incomplete(*wt, b.to_vec()),
            Value::Unknown(u) => match u {
                UnknownValue::Varint(v) => RV::UVar(*v),
                UnknownValue::Fixed64(v) => RV::U64(*v),
                UnknownValue::VariableLength(b) => RV::ULen(b.to_vec()),
                UnknownValue::Fixed32(v) => RV::U32(*v),
                UnknownValue::Invalid(wt, b) => RV::Invalid(*wt, b.to_vec()),
            },
        })
    }

    pub fn lower(&self, m: &RMsg) -> MessageValue {
        MessageValue {
            msg_ref: self.msg[&m.tid],
            fields: m
                .fields
                .iter()
                .map(|(n, v)| FieldValue {
                    number: *n,
                    value: self.lower_value(v),
                })
                .collect(),
            garbage: m.garbage.as_ref().map(|g| Bytes::copy_from_slice(g)),
        }
    }

    pub fn lower_value(&self, v: &RV) -> Value {
        match v {
            RV::Num(k, r) => match k {
                K::Double => Value::Double(f64::from_bits(*r)),
                K::Float => Value::Float(f32::from_bits(*r as u32)),
                K::Int32 => Value::Int32(*r as i32),
                K::Int64 => Value::Int64(*r as i64),
                K::UInt32 => Value::UInt32(*r as u32),
                K::UInt64 => Value::UInt64(*r),
                K::SInt32 => Value::SInt32(*r as i32),
                K::SInt64 => Value::SInt64(*r as i64),
                K::Fixed32 => Value::Fixed32(*r as u32),
                K::Fixed64 => Value::Fixed64(*r),
                K::SFixed32 => Value::SFixed32(*r as i32),
                K::SFixed64 => Value::SFixed64(*r as i64),
                K::Bool => Value::Bool(*r != 0),
                K::String | K::Bytes => unreachable!(),
            },
            RV::Str(s) => Value::String(s.clone()),
            RV::Bytes(b) => Value::Bytes(Bytes::copy_from_slice(b)),
            RV::Packed(k, v) => Value::Packed(match k {
                K::Double => PackedArray::Double(v.iter().map(|r| f64::from_bits(*r)).collect()),
                K::Float => PackedArray::Float(v.iter().map(|r| f32::from_bits(*r as u32)).collect()),
                K::Int32 => PackedArray::Int32(v.iter().map(|r| *r as i32).collect()),
                K::Int64 => PackedArray::Int64(v.iter().map(|r| *r as i64).collect()),
                K::UInt32 => PackedArray::UInt32(v.iter().map(|r| *r as u32).collect()),
                K::UInt64 => PackedArray::UInt64(v.clone()),
                K::SInt32 => PackedArray::SInt32(v.iter().map(|r| *r as i32).collect()),
                K::SInt64 => PackedArray::SInt64(v.iter().map(|r| *r as i64).collect()),
                K::Fixed32 => PackedArray::Fixed32(v.iter().map(|r| *r as u32).collect()),
                K::Fixed64 => PackedArray::Fixed64(v.clone()),
                K::SFixed32 => PackedArray::SFixed32(v.iter().map(|r| *r as i32).collect()),
                K::SFixed64 => PackedArray::SFixed64(v.iter().map(|r| *r as i64).collect()),
                K::Bool => PackedArray::Bool(v.iter().map(|r| *r != 0).collect()),
                K::String | K::Bytes => unreachable!(),
            }),
            RV::Enum(t, v) => Value::Enum(EnumValue {
                enum_ref: self.enm[t],
                value: *v,
            }),
            RV::Msg(m) => Value::Message(Box::new(self.lower(m))),
            RV::Incomplete(wt, b) => Value::Incomplete(*wt, Bytes::copy_from_slice(b)),
            RV::UVar(v) => Value::Unknown(UnknownValue::Varint(*v)),
            RV::U64(v) => Value::Unknown(UnknownValue::Fixed64(*v)),
            RV::ULen(b) => Value::Unknown(UnknownValue::VariableLength(Bytes::copy_from_slice(b))),
            RV::U32(v) => Value::Unknown(UnknownValue::Fixed32(*v)),
            RV::Invalid(wt, b) => Value::Unknown(UnknownValue::Invalid(*wt, Bytes::copy_from_slice(b))),
            RV::Raw(..) => unreachable!(),
        }
    }
}

// ---------------------------------------------------------------------------------- building

pub fn constant(c: &Const) -> Constant {
    match c {
        Const::Ident(s) => Constant::Ident(s.clone()),
        Const::Int(i) => Constant::Integer(*i),
        Const::Float(b) => Constant::Float(f64::from_bits(*b)),
        Const::Str(s) => Constant::String(Bytes::copy_from_slice(s)),
        Const::Bool(b) => Constant::Bool(*b),
    }
}

pub fn options(o: &[Opt]) -> Vec<ProtoOption> {
    o.iter()
        .map(|o| ProtoOption {
            name: o.name.clone(),
            value: constant(&o.value),
        })
        .collect()
}

pub fn scalar(k: K) -> ValueType {
    match k {
        K::Double => ValueType::Double,
        K::Float => ValueType::Float,
        K::Int32 => ValueType::Int32,
        K::Int64 => ValueType::Int64,
        K::UInt32 => ValueType::UInt32,
        K::UInt64 => ValueType::UInt64,
        K::SInt32 => ValueType::SInt32,
        K::SInt64 => ValueType::SInt64,
        K::Fixed32 => ValueType::Fixed32,
        K::Fixed64 => ValueType::Fixed64,
        K::SFixed32 => ValueType::SFixed32,
        K::SFixed64 => ValueType::SFixed64,
        K::Bool => ValueType::Bool,
        K::String => ValueType::String,
        K::Bytes => ValueType::Bytes,
    }
}

/// How a context represents the multiplicity of a parsed field.
pub fn multiplicity(f: &Field) -> Multiplicity {
    match f.mult {
        Mult::Single => Multiplicity::Single,
        Mult::Optional => Multiplicity::Optional,
        Mult::Repeated => match f.ty {
            Ty::S(k) if k.numeric() => {
                if f.opts.iter().any(|o| o.name == "packed" && o.value == Const::Bool(false)) {
                    Multiplicity::Repeated
                } else {
                    Multiplicity::RepeatedPacked
                }
            }
            _ => Multiplicity::Repeated,
        },
    }
}

/// Ways to build the same context by hand.
#[derive(Clone, Copy)]
pub struct HandCfg {
    /// Oneofs are added after the fields they list instead of before.
    pub oneofs_last: bool,
    pub reverse_fields: bool,
}

/// The references that a context with these types will have.
pub struct Refs {
    pub msg: HashMap<Tid, MessageRef>,
    pub enm: HashMap<Tid, EnumRef>,
}

pub fn harvest(s: &Schema) -> Result<Refs, String> {
    let mut r = Refs {
        msg: HashMap::new(),
        enm: HashMap::new(),
    };
    let mut c = Context::new();
    let mut pkgs = vec![];
    for f in &s.files {
        pkgs.push(
            c.insert_package(Package::new(f.package.clone()))
                .map_err(|_| "insert_package failed".to_string())?,
        );
    }
    for t in s.order() {
        let ty = &s.types[t];
        let parent = match ty.parent {
            Parent::File(f) => TypeParent::Package(pkgs[f]),
            Parent::Type(p) => TypeParent::Message(r.msg[&p]),
        };
        match ty.kind {
            Kind::Msg(_) => {
                let m = c
                    .insert_message(MessageInfo::new(ty.name.clone(), parent))
                    .map_err(|e| format!("insert_message: {:?}", e))?;
                r.msg.insert(t, m);
            }
            Kind::Enum(_) => {
                let m = c
                    .insert_enum(EnumInfo::new(ty.name.clone(), parent))
                    .map_err(|e| format!("insert_enum: {:?}", e))?;
                r.enm.insert(t, m);
            }
        }
    }
    Ok(r)
}

/// Builds the context through the modification calls. File packages have to be distinct and the
/// schema free of services and aliases.
pub fn by_hand(s: &Schema, cfg: HandCfg) -> Result<Context, String> {
    let refs = harvest(s)?;
    let mut c = Context::new();
    let mut pkgs = vec![];
    for f in &s.files {
        pkgs.push(
            c.insert_package(Package::new(f.package.clone()))
                .map_err(|_| "insert_package failed".to_string())?,
        );
    }
    for t in s.order() {
        let ty = &s.types[t];
        let parent = match ty.parent {
            Parent::File(f) => TypeParent::Package(pkgs[f]),
            Parent::Type(p) => TypeParent::Message(refs.msg[&p]),
        };
        match &ty.kind {
            Kind::Enum(e) => {
                let mut info = EnumInfo::new(ty.name.clone(), parent);
                let mut values: Vec<&crate::model::EnumValue> = e.values.iter().collect();
                if cfg.reverse_fields {
                    values.reverse();
                }
                for v in values {
                    let mut f = EnumField::new(v.name.clone(), v.value);
                    f.options = options(&v.opts);
                    info.add_field(f).map_err(|x| format!("enum add_field {}: {:?}", v.name, x))?;
                }
                let r = c.insert_enum(info).map_err(|x| format!("insert_enum {}: {:?}", ty.full, x))?;
                if r != refs.enm[&t] {
                    return Err(format!("insert_enum {}: reference {:?}, but {:?} for the same insertions before", ty.full, r, refs.enm[&t]));
                }
            }
            Kind::Msg(m) => {
                let mut info = MessageInfo::new(ty.name.clone(), parent);
                let order: Vec<usize> = m
                    .body
                    .iter()
                    .filter_map(|i| match i {
                        Item::Oneof(o) => Some(*o),
                        _ => None,
                    })
                    .collect();
                let mut fields: Vec<&Field> = m.fields.iter().collect();
                fields.sort_by_key(|f| f.number);
                let mut orefs = HashMap::new();
                if !cfg.oneofs_last {
                    for o in &order {
                        let mut oo = Oneof::new(m.oneofs[*o].name.clone());
                        oo.options = options(&m.oneofs[*o].opts);
                        let r = info.add_oneof(oo).map_err(|x| format!("add_oneof: {:?}", x))?;
                        orefs.insert(*o, r);
                    }
                } else if cfg.reverse_fields {
                    fields.reverse();
                }
                for f in fields {
                    let vt = match f.ty {
                        Ty::S(k) => scalar(k),
                        Ty::T(t) if s.is_msg(t) => ValueType::Message(refs.msg[&t]),
                        Ty::T(t) => ValueType::Enum(refs.enm[&t]),
                    };
                    let mut mf = MessageField::new(f.name.clone(), f.number, vt);
                    mf.multiplicity = multiplicity(f);
                    mf.options = options(&f.opts);
                    if !cfg.oneofs_last {
                        mf.oneof = f.oneof.map(|o| orefs[&o]);
                    }
                    info.add_field(mf).map_err(|x| format!("add_field {}: {:?}", f.name, x))?;
                }
                if cfg.oneofs_last {
                    for o in &order {
                        let mut oo = Oneof::new(m.oneofs[*o].name.clone());
                        oo.options = options(&m.oneofs[*o].opts);
                        oo.fields = m.fields.iter().filter(|f| f.oneof == Some(*o)).map(|f| f.number).collect();
                        oo.fields.sort_unstable();
                        info.add_oneof(oo).map_err(|x| format!("add_oneof: {:?}", x))?;
                    }
                }
                let r = c.insert_message(info).map_err(|x| format!("insert_message {}: {:?}", ty.full, x))?;
                if r != refs.msg[&t] {
                    return Err(format!("insert_message {}: reference {:?}, but {:?} for the same insertions before", ty.full, r, refs.msg[&t]));
                }
            }
        }
    }
    Ok(c)
}

// ---------------------------------------------------------------------------------- snapshots

fn fmt_const(c: &Const) -> String {
    match c {
        Const::Float(b) if f64::from_bits(*b).is_nan() => "Float(nan)".into(),
        Const::Float(b) => format!("Float({:?} {:x})", f64::from_bits(*b), b),
        x => format!("{:?}", x),
    }
}

fn fmt_opts(o: &[Opt]) -> String {
    let v: Vec<String> = o.iter().map(|o| format!("{}={}", o.name, fmt_const(&o.value))).collect();
    format!("[{}]", v.join(", "))
}

pub fn from_constant(c: &Constant) -> Const {
    match c {
        Constant::Ident(s) => Const::Ident(s.clone()),
        Constant::Integer(i) => Const::Int(*i),
        Constant::Float(f) => Const::Float(f.to_bits()),
        Constant::String(b) => Const::Str(b.to_vec()),
        Constant::Bool(b) => Const::Bool(*b),
    }
}

fn fmt_popts(o: &[ProtoOption]) -> String {
    let v: Vec<String> = o
        .iter()
        .map(|o| format!("{}={}", o.name, fmt_const(&from_constant(&o.value))))
        .collect();
    format!("[{}]", v.join(", "))
}

pub type Snap = BTreeMap<String, String>;

/// What a context parsed from the schema has to contain.
pub fn snap_model(s: &Schema) -> Snap {
    let mut out = Snap::new();
    for ty in &s.types {
        let parent = match ty.parent {
            Parent::File(_) => "package".to_string(),
            Parent::Type(p) => s.types[p].full.clone(),
        };
        let mut d = format!("name {} parent {}", ty.name, parent);
        match &ty.kind {
            Kind::Enum(e) => {
                d.push_str(" enum");
                let mut by: BTreeMap<i64, BTreeSet<String>> = BTreeMap::new();
                for v in &e.values {
                    by.entry(v.value).or_default().insert(format!("{} {}", v.name, fmt_opts(&v.opts)));
                }
                for (v, names) in by {
                    if names.len() == 1 {
                        d.push_str(&format!("\n  {} = {}", v, names.iter().next().unwrap()));
                    } else {
                        d.push_str(&format!("\n  {} = one of {:?}", v, names));
                    }
                }
            }
            Kind::Msg(m) => {
                d.push_str(" message");
                let mut fs: Vec<&Field> = m.fields.iter().collect();
                fs.sort_by_key(|f| f.number);
                for f in fs {
                    d.push_str(&format!(
                        "\n  {} {}: {} {:?} oneof {:?} {}",
                        f.number,
                        f.name,
                        match f.ty {
                            Ty::S(k) => k.name().to_string(),
                            Ty::T(t) if s.is_msg(t) => format!("message {}", s.types[t].full),
                            Ty::T(t) => format!("enum {}", s.types[t].full),
                        },
                        multiplicity(f),
                        f.oneof.map(|o| m.oneofs[o].name.as_str()),
                        fmt_opts(&f.opts)
                    ));
                }
                let mut os: Vec<String> = m
                    .oneofs
                    .iter()
                    .enumerate()
                    .map(|(i, o)| {
                        let mut n: Vec<u64> = m.fields.iter().filter(|f| f.oneof == Some(i)).map(|f| f.number).collect();
                        n.sort_unstable();
                        format!("\n  oneof {} {:?} {}", o.name, n, fmt_opts(&o.opts))
                    })
                    .collect();
                os.sort();
                d.push_str(&os.concat());
                let mut it: Vec<String> = m.inner.iter().map(|t| format!("\n  inner {}", s.types[*t].full)).collect();
                it.sort();
                d.push_str(&it.concat());
            }
        }
        out.insert(ty.full.clone(), d);
    }
    for v in &s.services {
        let mut d = format!("name {} service {}", v.name, fmt_opts(&v.opts));
        let mut rs: Vec<String> = v
            .rpcs
            .iter()
            .map(|r| {
                format!(
                    "\n  rpc {} {} stream {} -> {} stream {} {}",
                    r.name,
                    s.types[r.input].full,
                    r.input_stream,
                    s.types[r.output].full,
                    r.output_stream,
                    fmt_opts(&r.opts)
                )
            })
            .collect();
        rs.sort();
        d.push_str(&rs.concat());
        out.insert(v.full.clone(), d);
    }
    out
}

/// What the context contains under the names of the schema; enum values are asked for by the
/// numbers of the schema and a few others.
pub fn snap_ctx(c: &Context, s: &Schema) -> Snap {
    let mut out = Snap::new();
    for ty in &s.types {
        let d = match c.get_type(&ty.full) {
            None => "missing".to_string(),
            Some(info) => {
                let parent = match info.parent() {
                    TypeParent::Package(_) => "package".to_string(),
                    TypeParent::Message(m) => c.resolve_message(m).full_name.clone(),
                };
                let mut d = format!("name {} parent {}", info.name(), parent);
                if info.full_name() != ty.full {
                    d.push_str(&format!(" full name {}", info.full_name()));
                }
                match info {
                    TypeInfo::Enum(e) => {
                        d.push_str(" enum");
                        let mut vals: BTreeSet<i64> = BTreeSet::new();
                        let mut declared: BTreeMap<i64, BTreeSet<String>> = BTreeMap::new();
                        if let Kind::Enum(m) = &ty.kind {
                            for v in &m.values {
                                declared.entry(v.value).or_default().insert(format!("{} {}", v.name, fmt_opts(&v.opts)));
                                vals.insert(v.value);
                                vals.insert(v.value.wrapping_add(1));
                                vals.insert(v.value.wrapping_sub(1));
                                vals.insert(v.value.wrapping_neg());
                                vals.insert(v.value as u32 as i64);
                                vals.insert(v.value ^ (1 << 32));
                            }
                        }
                        for v in vals {
                            if let Some(f) = e.get_field_by_value(v) {
                                let this = format!("{} {}", f.name, fmt_popts(&f.options));
                                match declared.get(&v) {
                                    Some(n) if n.len() > 1 && n.contains(&this) => {
                                        d.push_str(&format!("\n  {} = one of {:?}", f.value, n))
                                    }
                                    _ => d.push_str(&format!("\n  {} = {}", f.value, this)),
                                }
                            }
                        }
                    }
                    TypeInfo::Message(m) => {
                        d.push_str(" message");
                        let mut fs: Vec<&MessageField> = m.iter_fields().collect();
                        fs.sort_by_key(|f| f.number);
                        for f in fs {
                            d.push_str(&format!(
                                "\n  {} {}: {} {:?} oneof {:?} {}",
                                f.number,
                                f.name,
                                match &f.field_type {
                                    ValueType::Message(r) => format!("message {}", c.resolve_message(*r).full_name),
                                    ValueType::Enum(r) => format!("enum {}", c.resolve_enum(*r).full_name),
                                    k => KINDS
                                        .iter()
                                        .find(|x| scalar(**x) == *k)
                                        .map(|x| x.name().to_string())
                                        .unwrap_or_else(|| format!("{:?}", k)),
                                },
                                f.multiplicity,
                                f.oneof.map(|o| m
                                    .get_oneof(o)
                                    .map(|o| o.name.as_str())
                                    .unwrap_or("dangling")),
                                fmt_popts(&f.options)
                            ));
                        }
                        let mut os: Vec<String> = m
                            .oneofs
                            .iter()
                            .map(|o| {
                                let mut n = o.fields.clone();
                                n.sort_unstable();
                                format!("\n  oneof {} {:?} {}", o.name, n, fmt_popts(&o.options))
                            })
                            .collect();
                        os.sort();
                        d.push_str(&os.concat());
                        let mut it: Vec<String> = m
                            .inner_types
                            .iter()
                            .map(|t| {
                                format!(
                                    "\n  inner {}",
                                    match t {
                                        TypeRef::Message(m) => &c.resolve_message(*m).full_name,
                                        TypeRef::Enum(e) => &c.resolve_enum(*e).full_name,
                                    }
                                )
                            })
                            .collect();
                        it.sort();
                        d.push_str(&it.concat());
                    }
                }
                d
            }
        };
        out.insert(ty.full.clone(), d);
    }
    for v in &s.services {
        let d = match c.get_service(&v.full) {
            None => "missing".into(),
            Some(v) => {
                let mut d = format!("name {} service {}", v.name, fmt_popts(&v.options));
                let mut rs: Vec<String> = v
                    .rpcs
                    .iter()
                    .map(|r| {
                        format!(
                            "\n  rpc {} {} stream {} -> {} stream {} {}",
                            r.name,
                            c.resolve_message(r.input.message).full_name,
                            r.input.stream,
                            c.resolve_message(r.output.message).full_name,
                            r.output.stream,
                            fmt_popts(&r.options)
                        )
                    })
                    .collect();
                rs.sort();
                d.push_str(&rs.concat());
                d
            }
        };
        out.insert(v.full.clone(), d);
    }
    out
}

pub fn diff(exp: &Snap, got: &Snap) -> Option<String> {
    for (k, e) in exp {
        match got.get(k) {
            Some(g) if g == e => {}
            g => {
                let none = String::from("missing");
                let g = g.unwrap_or(&none);
                for (a, b) in e.lines().zip(g.lines()) {
                    if a != b {
                        return Some(format!("{}: expected `{}`, got `{}`", k, a.trim(), b.trim()));
                    }
                }
                let (n, m) = (e.lines().count(), g.lines().count());
                return Some(if n > m {
                    format!("{}: expected `{}`, got nothing", k, e.lines().nth(m).unwrap_or("").trim())
                } else {
                    format!("{}: unexpected `{}`", k, g.lines().nth(n).unwrap_or("").trim())
                });
            }
        }
    }
    got.keys().find(|k| !exp.contains_key(*k)).map(|k| format!("unexpected {}", k))
}

#[derive(Default, Debug)]
pub struct Walked {
    pub types: u64,
    pub fields: u64,
    pub refs: u64,
    pub rpcs: u64,
}

macro_rules! want {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Checks every reference and lookup that can be reached from the names.
pub fn walk(c: &Context, names: &[String]) -> Result<Walked, String> {
    let mut w = Walked::default();
    for n in names {
        if let Some(t) = c.get_type(n) {
            w.types += 1;
            want!(t.full_name() == n, "get_type({}) has the full name {}", n, t.full_name());
            let self_ref = match t {
                TypeInfo::Message(m) => {
                    want!(std::ptr::eq(c.resolve_message(m.self_ref), m), "{}: self_ref resolves to another message", n);
                    want!(
                        c.get_message(n).map_or(false, |x| std::ptr::eq(x, m)),
                        "get_message({}) disagrees with get_type",
                        n
                    );
                    TypeRef::Message(m.self_ref)
                }
                TypeInfo::Enum(e) => {
                    want!(std::ptr::eq(c.resolve_enum(e.self_ref), e), "{}: self_ref resolves to another enum", n);
                    want!(c.get_message(n).is_none(), "get_message({}) finds an enum", n);
                    TypeRef::Enum(e.self_ref)
                }
            };
            match t.parent() {
                TypeParent::Package(p) => {
                    let _ = c.resolve_package(p);
                    want!(
                        n == t.name() || n.ends_with(&format!(".{}", t.name())),
                        "{}: full name does not end with the name {}",
                        n,
                        t.name()
                    );
                }
                TypeParent::Message(p) => {
                    let p = c.resolve_message(p);
                    want!(
                        *n == format!("{}.{}", p.full_name, t.name()),
                        "{}: parent is {}, name {}",
                        n,
                        p.full_name,
                        t.name()
                    );
                    want!(p.inner_types.contains(&self_ref), "{}: parent {} does not list it", n, p.full_name);
                }
            }
            if let TypeInfo::Message(m) = t {
                walk_message(c, m, &mut w)?;
            }
        } else {
            want!(c.get_message(n).is_none(), "get_message({}) finds what get_type does not", n);
        }
        if let Some(s) = c.get_service(n) {
            want!(s.full_name == *n, "get_service({}) has the full name {}", n, s.full_name);
            let _ = c.resolve_package(s.parent);
            want!(
                *n == s.name || n.ends_with(&format!(".{}", s.name)),
                "{}: full name does not end with the name {}",
                n,
                s.name
            );
            for r in &s.rpcs {
                w.rpcs += 1;
                let l = s.rpc_by_name(&r.name);
                let unique = s.rpcs.iter().filter(|x| x.name == r.name).count() == 1;
                match l {
                    None => return Err(format!("{}: rpc {} is not found by name", n, r.name)),
                    Some(l) => {
                        want!(l.name == r.name, "{}: rpc_by_name({}) returns {}", n, r.name, l.name);
                        want!(
                            s.rpcs.iter().any(|x| std::ptr::eq(x, l)),
                            "{}: rpc_by_name({}) is not in the list",
                            n,
                            r.name
                        );
                        want!(!unique || std::ptr::eq(l, r), "{}: rpc_by_name({}) finds another rpc", n, r.name);
                    }
                }
                for a in [&r.input, &r.output] {
                    w.refs += 1;
                    let m = c.resolve_message(a.message);
                    want!(m.self_ref == a.message, "{}: rpc {} argument's self_ref differs", n, r.name);
                    want!(
                        c.get_message(&m.full_name).map_or(false, |x| std::ptr::eq(x, m)),
                        "{}: rpc {} argument {} is not found by name",
                        n,
                        r.name,
                        m.full_name
                    );
                }
            }
            want!(s.rpc_by_name("no rpc").is_none(), "{}: finds an rpc that is not there", n);
        }
    }
    Ok(w)
}

fn walk_message(c: &Context, m: &MessageInfo, w: &mut Walked) -> Result<(), String> {
    let n = &m.full_name;
    let me = TypeParent::Message(m.self_ref);
    let mut seen = BTreeSet::new();
    for t in &m.inner_types {
        w.refs += 1;
        let (full, parent, ok) = match t {
            TypeRef::Message(r) => {
                let x = c.resolve_message(*r);
                (&x.full_name, x.parent, x.self_ref == *r)
            }
            TypeRef::Enum(r) => {
                let x = c.resolve_enum(*r);
                (&x.full_name, x.parent, x.self_ref == *r)
            }
        };
        want!(ok, "{}: inner type {} has another self_ref", n, full);
        want!(parent == me, "{}: inner type {} has another parent", n, full);
        want!(seen.insert(full.clone()), "{}: inner type {} listed twice", n, full);
        want!(c.get_type(full).is_some(), "{}: inner type {} is not found by name", n, full);
    }
    let mut numbers = BTreeSet::new();
    let mut names: HashMap<&str, usize> = HashMap::new();
    for f in m.iter_fields() {
        *names.entry(f.name.as_str()).or_default() += 1;
    }
    for f in m.iter_fields() {
        w.fields += 1;
        want!(numbers.insert(f.number), "{}: iteration yields number {} twice", n, f.number);
        want!(
            m.get_field(f.number).map_or(false, |x| std::ptr::eq(x, f)),
            "{}: get_field({}) is not the field {} that iteration yields",
            n,
            f.number,
            f.name
        );
        match m.get_field_by_name(&f.name) {
            None => return Err(format!("{}: field {} is not found by name", n, f.name)),
            Some(x) => {
                want!(x.name == f.name, "{}: get_field_by_name({}) returns {}", n, f.name, x.name);
                want!(
                    names[f.name.as_str()] > 1 || std::ptr::eq(x, f),
                    "{}: get_field_by_name({}) returns number {}",
                    n,
                    f.name,
                    x.number
                );
            }
        }
        match &f.field_type {
            ValueType::Message(r) => {
                w.refs += 1;
                let x = c.resolve_message(*r);
                want!(x.self_ref == *r, "{}.{}: type's self_ref differs", n, f.name);
                want!(
                    c.get_message(&x.full_name).map_or(false, |y| std::ptr::eq(x, y)),
                    "{}.{}: type {} is not found by name",
                    n,
                    f.name,
                    x.full_name
                );
            }
            ValueType::Enum(r) => {
                w.refs += 1;
                let x = c.resolve_enum(*r);
                want!(x.self_ref == *r, "{}.{}: type's self_ref differs", n, f.name);
                want!(
                    matches!(c.get_type(&x.full_name), Some(TypeInfo::Enum(y)) if std::ptr::eq(x, y)),
                    "{}.{}: type {} is not found by name",
                    n,
                    f.name,
                    x.full_name
                );
            }
            _ => {}
        }
        if let Some(o) = f.oneof {
            w.refs += 1;
            match m.get_oneof(o) {
                None => return Err(format!("{}.{}: oneof does not exist", n, f.name)),
                Some(o) => want!(o.fields.contains(&f.number), "{}.{}: oneof {} does not list it", n, f.name, o.name),
            }
        }
    }
    for o in &m.oneofs {
        w.refs += 1;
        want!(
            m.get_oneof(o.self_ref).map_or(false, |x| std::ptr::eq(x, o)),
            "{}: oneof {} has the reference of another",
            n,
            o.name
        );
        let mut seen = BTreeSet::new();
        for f in &o.fields {
            want!(seen.insert(*f), "{}: oneof {} lists {} twice", n, o.name, f);
            match m.get_field(*f) {
                None => return Err(format!("{}: oneof {} lists the missing field {}", n, o.name, f)),
                Some(f) => want!(f.oneof == Some(o.self_ref), "{}: oneof {} lists {}, which is not in it", n, o.name, f.name),
            }
        }
    }
    want!(m.get_field_by_name("no field").is_none(), "{}: finds a field that is not there", n);
    Ok(())
}

/// Everything that can be seen of a context, in the order in which it is listed.
pub fn listing(c: &Context, names: &[String]) -> String {
    let mut o = String::new();
    for n in names {
        match c.get_type(n) {
            None => o.push_str(&format!("{} no type\n", n)),
            Some(t) => {
                o.push_str(&format!("{} = {} {} in {:?}\n", n, t.name(), t.full_name(), t.parent()));
                match t {
                    TypeInfo::Enum(e) => {
                        o.push_str(&format!(" enum {:?}\n", e.self_ref));
                        for v in (-20..40).chain([i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN]) {
                            if let Some(f) = e.get_field_by_value(v) {
                                o.push_str(&format!("  {} {} {}\n", f.name, f.value, fmt_popts(&f.options)));
                            }
                        }
                    }
                    TypeInfo::Message(m) => {
                        o.push_str(&format!(" message {:?} inner {:?}\n", m.self_ref, m.inner_types));
                        for f in m.iter_fields() {
                            o.push_str(&format!(
                                "  {} {} {:?} {:?} {:?} {}\n",
                                f.number,
                                f.name,
                                f.field_type,
                                f.multiplicity,
                                f.oneof,
                                fmt_popts(&f.options)
                            ));
                            let k = m.get_field_by_name(&f.name).map(|f| f.number);
                            if k != Some(f.number) {
                                o.push_str(&format!("  by name {:?}\n", k));
                            }
                        }
                        for f in &m.oneofs {
                            o.push_str(&format!("  oneof {} {:?} {:?} {}\n", f.name, f.self_ref, f.fields, fmt_popts(&f.options)));
                        }
                    }
                }
            }
        }
        if let Some(s) = c.get_service(n) {
            o.push_str(&format!("{} = service {} {} in {:?} {}\n", n, s.name, s.full_name, s.parent, fmt_popts(&s.options)));
            for r in &s.rpcs {
                o.push_str(&format!("  {} {:?} {:?} {}\n", r.name, r.input, r.output, fmt_popts(&r.options)));
            }
        }
    }
    o
}
