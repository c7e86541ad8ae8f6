//! Schemas as text.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    /// Removing the token breaks the grammar.
    pub essential: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Layout {
    Plain,
    Wild,
}

#[derive(Default)]
struct Out(Vec<Tok>);

impl Out {
    fn t(&mut self, s: &str) {
        self.0.push(Tok {
            s: s.to_string(),
            essential: false,
        });
    }
    fn e(&mut self, s: &str) {
        self.0.push(Tok {
            s: s.to_string(),
            essential: true,
        });
    }
    fn dotted(&mut self, s: &str) {
        let mut cur = String::new();
        for c in s.chars() {
            if matches!(c, '.' | '(' | ')') {
                if !cur.is_empty() {
                    self.t(&cur);
                    cur.clear();
                }
                self.t(&c.to_string());
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            self.t(&cur);
        }
    }
    fn value(&mut self, o: &Opt) {
        if let Const::Ident(s) = &o.value {
            self.dotted(s);
        } else {
            for l in &o.lit {
                self.t(l);
            }
        }
    }
    fn opt_stmt(&mut self, o: &Opt, in_enum: bool) {
        self.t("option");
        self.dotted(&o.name);
        if in_enum {
            self.t("=");
        } else {
            self.e("=");
        }
        self.value(o);
        self.e(";");
    }
    fn opt_list(&mut self, opts: &[Opt]) {
        if opts.is_empty() {
            return;
        }
        self.e("[");
        for (i, o) in opts.iter().enumerate() {
            if i > 0 {
                self.e(",");
            }
            self.dotted(&o.name);
            self.e("=");
            self.value(o);
        }
        self.e("]");
    }
    fn field(&mut self, f: &Field) {
        match f.mult {
            Mult::Single => {}
            Mult::Optional => self.t("optional"),
            Mult::Repeated => self.t("repeated"),
        }
        self.dotted(&f.spelling);
        self.e(&f.name);
        self.e("=");
        self.e(&f.num_lit);
        self.opt_list(&f.opts);
        self.e(";");
    }
    fn raw(&mut self, toks: &[String]) {
        for t in toks {
            self.t(t);
        }
    }
    fn type_(&mut self, s: &Schema, t: Tid) {
        let ty = &s.types[t];
        match &ty.kind {
            Kind::Msg(m) => {
                self.e("message");
                self.e(&ty.name);
                self.e("{");
                for i in &m.body {
                    match i {
                        Item::Field(f) => self.field(&m.fields[*f]),
                        Item::Oneof(o) => {
                            self.e("oneof");
                            self.e(&m.oneofs[*o].name);
                            self.e("{");
                            for j in &m.oneof_bodies[*o] {
                                match j {
                                    Item::Field(f) => self.field(&m.fields[*f]),
                                    Item::Opt(x) => self.opt_stmt(&m.oneofs[*o].opts[*x], false),
                                    Item::Empty => self.t(";"),
                                    _ => unreachable!(),
                                }
                            }
                            self.e("}");
                        }
                        Item::Type(t) => self.type_(s, *t),
                        Item::Opt(o) => self.opt_stmt(&m.opts[*o], false),
                        Item::Reserved(r) => self.raw(r),
                        Item::Empty => self.t(";"),
                        _ => unreachable!(),
                    }
                }
                self.e("}");
            }
            Kind::Enum(e) => {
                self.e("enum");
                self.e(&ty.name);
                self.e("{");
                for i in &e.body {
                    match i {
                        Item::Value(v) => {
                            let v = &e.values[*v];
                            self.e(&v.name);
                            self.e("=");
                            let n = v.lit.len();
                            for (i, l) in v.lit.iter().enumerate() {
                                if i == n - 1 {
                                    self.e(l)
                                } else {
                                    self.t(l)
                                }
                            }
                            self.opt_list(&v.opts);
                            self.e(";");
                        }
                        Item::Opt(o) => self.opt_stmt(&e.opts[*o], true),
                        Item::Reserved(r) => self.raw(r),
                        Item::Empty => self.t(";"),
                        _ => unreachable!(),
                    }
                }
                self.e("}");
            }
        }
    }
    fn arg(&mut self, stream: bool, ty: &str) {
        self.e("(");
        if stream {
            self.t("stream");
        }
        self.dotted(ty);
        self.e(")");
    }
    fn service(&mut self, v: &Service) {
        self.e("service");
        self.e(&v.name);
        self.e("{");
        for i in &v.body {
            match i {
                Item::Rpc(r) => {
                    let r = &v.rpcs[*r];
                    self.e("rpc");
                    self.e(&r.name);
                    self.arg(r.input_stream, &r.input_spelling);
                    self.e("returns");
                    self.arg(r.output_stream, &r.output_spelling);
                    match &r.body {
                        None => self.e(";"),
                        Some(b) => {
                            self.t("{");
                            for j in b {
                                match j {
                                    Item::Opt(o) => self.opt_stmt(&r.opts[*o], false),
                                    Item::Empty => self.t(";"),
                                    _ => unreachable!(),
                                }
                            }
                            self.e("}");
                        }
                    }
                }
                Item::Opt(o) => self.opt_stmt(&v.opts[*o], false),
                Item::Empty => self.t(";"),
                _ => unreachable!(),
            }
        }
        self.e("}");
    }
}

pub fn tokens(s: &Schema, file: usize, rng: &mut Rng, layout: Layout) -> Vec<Tok> {
    let mut o = Out::default();
    let f = &s.files[file];
    o.e("syntax");
    o.e("=");
    o.e(if layout == Layout::Wild && rng.bool() { "'proto3'" } else { "\"proto3\"" });
    o.e(";");
    for n in 0..=f.items.len() {
        if n == f.package_at.min(f.items.len()) {
            if let Some(p) = &f.package {
                o.e("package");
                o.dotted(p);
                o.e(";");
            }
        }
        match f.items.get(n) {
            None => {}
            Some(Item::Type(t)) => o.type_(s, *t),
            Some(Item::Service(v)) => o.service(&s.services[*v]),
            Some(Item::Opt(x)) => o.opt_stmt(&f.opts[*x], false),
            Some(Item::Import(t)) => o.raw(t),
            Some(Item::Empty) => o.t(";"),
            Some(x) => unreachable!("{:?}", x),
        }
    }
    o.0
}

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

fn comment(rng: &mut Rng) -> String {
    let n = rng.below(8);
    let block = rng.bool();
    let mut body = String::new();
    for _ in 0..n {
        body.push_str(rng.pick(&[
            " ", "x", "\"", "'", "{", "}", ";", "//", "/*", "* /", "message A {", "é", "🐟", "\\", "= 1", "\t", "/ ", "**", "option", "\r",
        ]));
    }
    if block {
        body = body.replace("*/", "* /");
        if rng.one_in(3) {
            body.push('\n');
        }
        if body.ends_with('*') && rng.bool() {
            // `**/` also ends a comment
        }
        format!("/*{}*/", body)
    } else {
        format!("//{}{}", body, rng.pick(&["\n", "\r\n"]))
    }
}

fn trivia(rng: &mut Rng, need: bool) -> String {
    let mut s = String::new();
    let n = if need { rng.range(1, 3) } else { rng.below(3) };
    for _ in 0..n {
        match rng.below(7) {
            0 => s.push_str(&comment(rng)),
            1 => s.push('\n'),
            2 => s.push_str("\r\n"),
            3 => s.push('\t'),
            5 if rng.bool() => s.push('\r'),
            4 if rng.one_in(10) => s.push_str(&" \n\t".repeat(rng.below(40) + 1)),
            _ => s.push(' '),
        }
    }
    s
}

pub fn join(toks: &[Tok], rng: &mut Rng, layout: Layout) -> String {
    let mut s = String::new();
    let wild = layout == Layout::Wild;
    if wild {
        if rng.one_in(3) {
            s.push('\u{feff}');
        }
        s.push_str(&trivia(rng, false));
    }
    // Some files have trivia everywhere, some hardly any.
    let density = rng.range(1, 6);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let prev = &toks[i - 1].s;
            let need = word(prev.chars().last().unwrap()) && word(t.s.chars().next().unwrap());
            if wild {
                if rng.one_in(density) {
                    s.push_str(&trivia(rng, need));
                } else if need {
                    s.push(' ');
                }
            } else if need || !matches!(t.s.as_str(), ";" | "." | "," | ")" | "]") {
                // dotted names stay together
                if need || prev != "." {
                    s.push(if matches!(prev.as_str(), ";" | "{" | "}") { '\n' } else { ' ' });
                }
            }
        }
        s.push_str(&t.s);
    }
    if wild {
        s.push_str(&trivia(rng, false));
        if rng.one_in(6) {
            s.push_str("// no newline at the end");
        }
    } else {
        s.push('\n');
    }
    s
}

pub fn render(s: &Schema, rng: &mut Rng, layout: Layout) -> Vec<String> {
    (0..s.files.len())
        .map(|f| {
            let t = tokens(s, f, rng, layout);
            join(&t, rng, layout)
        })
        .collect()
}
