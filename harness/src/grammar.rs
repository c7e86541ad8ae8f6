//! Recognizes proto3 files, independently of the crate: written from the published grammar of the
//! language, with a lexer. Where that grammar, protoc and protofish's own grammar are known to
//! differ, it has no opinion.

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Valid,
    /// Why not, and at which byte.
    Invalid(&'static str, usize),
    Unspecified(&'static str),
}

use Verdict::*;

type P<T = ()> = Result<T, Verdict>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Ident,
    Int,
    Float,
    /// Starts like a number, but is none.
    BadNumber,
    Str,
    Punct(u8),
    End,
}

#[derive(Clone, Copy, Debug)]
struct Tok<'a> {
    t: T,
    s: &'a str,
    at: usize,
}

const KEYWORDS: &[&str] = &[
    "syntax", "import", "weak", "public", "package", "option", "repeated", "optional", "required", "oneof", "map", "reserved", "enum",
    "message", "service", "rpc", "stream", "returns", "to", "max", "extend", "extensions", "group", "inf", "nan", "true", "false",
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool",
    "string", "bytes", "edition", "export", "local",
];

const BUILTIN: &[&str] = &[
    "double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool",
    "string", "bytes",
];

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// The end of a string literal that starts at `i`.
fn string(b: &[u8], mut i: usize) -> P<usize> {
    let q = b[i];
    i += 1;
    loop {
        match b.get(i) {
            None => return Err(Invalid("unterminated string", i)),
            Some(0) | Some(b'\n') => return Err(Invalid("control character in a string", i)),
            Some(b'\r') => return Err(Unspecified("carriage return in a string")),
            Some(b'\\') => {
                let c = b.get(i + 1).copied().unwrap_or(0);
                match c {
                    b'x' | b'X' => {
                        let d = b[i + 2..].iter().take(2).take_while(|c| c.is_ascii_hexdigit()).count();
                        match d {
                            0 => return Err(Invalid("hex escape without digits", i)),
                            1 => return Err(Unspecified("hex escape of one digit")),
                            _ => i += 4,
                        }
                    }
                    b'0'..=b'7' => {
                        let d = b[i + 1..].iter().take(3).take_while(|c| (b'0'..=b'7').contains(c)).count();
                        if d == 3 && c > b'3' {
                            return Err(Invalid("octal escape above 255", i));
                        }
                        i += 1 + d;
                    }
                    b'a' | b'b' | b'f' | b'n' | b'r' | b't' | b'v' | b'\\' | b'\'' | b'"' => i += 2,
                    b'?' | b'u' | b'U' => return Err(Unspecified("escape that only protoc knows")),
                    _ => return Err(Invalid("unknown escape", i)),
                }
            }
            Some(c) if *c == q => return Ok(i + 1),
            Some(_) => i += 1,
        }
    }
}

/// The number at the start of `s`, with everything that is glued to it.
fn number(s: &str) -> (T, usize) {
    let b = s.as_bytes();
    let digits = |mut i: usize| {
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let mut i;
    let t;
    if b[0] == b'0' && b.len() > 1 && (b[1] | 32) == b'x' {
        i = 2;
        while i < b.len() && b[i].is_ascii_hexdigit() {
            i += 1;
        }
        t = if i > 2 { T::Int } else { T::BadNumber };
    } else {
        i = digits(0);
        let whole = i;
        let mut float = false;
        let mut ok = true;
        if i < b.len() && b[i] == b'.' {
            float = true;
            let e = digits(i + 1);
            ok = whole > 0 || e > i + 1;
            i = e;
        }
        if ok && i < b.len() && (b[i] | 32) == b'e' {
            let mut e = i + 1;
            if e < b.len() && (b[e] == b'+' || b[e] == b'-') {
                e += 1;
            }
            let d = digits(e);
            if d > e {
                float = true;
                i = d;
            } else {
                ok = false;
            }
        }
        let octal = b[0] == b'0' && !float && b[..whole].iter().any(|c| *c > b'7');
        t = if !ok || octal {
            T::BadNumber
        } else if float {
            T::Float
        } else {
            T::Int
        };
    }
    let mut glued = i;
    while glued < b.len() && (word(b[glued]) || b[glued] == b'.') {
        glued += 1;
    }
    if glued > i {
        (T::BadNumber, glued)
    } else {
        (t, i.max(1))
    }
}

fn lex(text: &str) -> P<Vec<Tok<'_>>> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = if text.starts_with('\u{feff}') { 3 } else { 0 };
    while i < b.len() {
        let at = i;
        if out.is_empty() && i > 0 && text[i..].starts_with('\u{feff}') {
            return Err(Unspecified("byte order mark after white space"));
        }
        let t = match b[i] {
            b' ' | b'\t' | b'\r' | b'\n' => {
                i += 1;
                continue;
            }
            0x0b | 0x0c => return Err(Unspecified("white space that only protoc knows")),
            b'/' => match b.get(i + 1) {
                Some(b'/') => {
                    while i < b.len() && b[i] != b'\n' {
                        i += 1;
                    }
                    continue;
                }
                Some(b'*') => match text[i + 2..].find("*/") {
                    Some(n) => {
                        i += n + 4;
                        continue;
                    }
                    None => {
                        out.push(Tok {
                            t: T::Punct(b'/'),
                            s: &text[i..i + 1],
                            at,
                        });
                        break;
                    }
                },
                _ => {
                    i += 1;
                    T::Punct(b'/')
                }
            },
            b'"' | b'\'' => {
                i = match string(b, i) {
                    Ok(i) => i,
                    Err(e @ Unspecified(_)) => return Err(e),
                    Err(_) => {
                        // no token from here on
                        out.push(Tok {
                            t: T::Punct(b'"'),
                            s: &text[i..i + 1],
                            at,
                        });
                        break;
                    }
                };
                T::Str
            }
            b'_' => return Err(Unspecified("identifier that starts with an underscore")),
            c if c.is_ascii_alphabetic() => {
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                T::Ident
            }
            c if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).map_or(false, |c| c.is_ascii_digit())) => {
                let (t, n) = number(&text[i..]);
                i += n;
                t
            }
            c if c < 0x80 => {
                i += 1;
                T::Punct(c)
            }
            _ => {
                while i < b.len() && b[i] >= 0x80 {
                    i += 1;
                }
                T::Punct(0)
            }
        };
        out.push(Tok { t, s: &text[at..i], at });
    }
    out.push(Tok {
        t: T::End,
        s: "",
        at: text.len(),
    });
    Ok(out)
}

struct Parser<'a> {
    toks: Vec<Tok<'a>>,
    i: usize,
    packages: usize,
    /// Something that not everyone allows, and that reads in one way only.
    doubt: Option<&'static str>,
}

impl<'a> Parser<'a> {
    fn tok(&self) -> Tok<'a> {
        self.toks[self.i.min(self.toks.len() - 1)]
    }
    fn peek(&self, n: usize) -> Tok<'a> {
        self.toks[(self.i + n).min(self.toks.len() - 1)]
    }
    fn bad<X>(&self, why: &'static str) -> P<X> {
        Err(Invalid(why, self.tok().at))
    }
    fn is(&self, c: u8) -> bool {
        self.tok().t == T::Punct(c)
    }
    fn word(&self, w: &str) -> bool {
        self.tok().t == T::Ident && self.tok().s == w
    }
    fn eat(&mut self, c: u8) -> bool {
        let x = self.is(c);
        self.i += x as usize;
        x
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let x = self.word(w);
        self.i += x as usize;
        x
    }
    fn need(&mut self, c: u8, why: &'static str) -> P {
        if self.eat(c) {
            Ok(())
        } else {
            self.bad(why)
        }
    }
    fn ident(&mut self) -> P<&'a str> {
        if self.tok().t == T::Ident {
            self.i += 1;
            Ok(self.toks[self.i - 1].s)
        } else {
            self.bad("expected an identifier")
        }
    }
    fn full_ident(&mut self) -> P {
        self.ident()?;
        while self.eat(b'.') {
            self.ident()?;
        }
        Ok(())
    }
    fn str(&mut self) -> P {
        if self.tok().t != T::Str {
            return self.bad("expected a string");
        }
        self.i += 1;
        if self.tok().t == T::Str {
            return Err(Unspecified("adjacent strings"));
        }
        Ok(())
    }
    fn int(&mut self) -> P<u128> {
        if self.tok().t != T::Int {
            return self.bad("expected an integer");
        }
        let s = self.tok().s;
        self.i += 1;
        let r = if s.len() > 1 && (s.as_bytes()[1] | 32) == b'x' {
            u128::from_str_radix(&s[2..], 16)
        } else if s.starts_with('0') {
            u128::from_str_radix(s, 8)
        } else {
            s.parse()
        };
        Ok(r.unwrap_or(u128::MAX))
    }
    /// A type name; says whether it is a word that means something else as well.
    fn type_name(&mut self) -> P {
        let dot = self.eat(b'.');
        let first = self.ident()?;
        let dotted = self.is(b'.');
        while self.eat(b'.') {
            self.ident()?;
        }
        if BUILTIN.contains(&first) && (dot || dotted) || ["optional", "repeated"].contains(&first) {
            return Err(Unspecified("type named like a keyword"));
        }
        if KEYWORDS.contains(&first) && !BUILTIN.contains(&first) {
            self.doubt = Some("type named like a keyword");
        }
        Ok(())
    }
    fn number(&mut self) -> P {
        let at = self.tok().at;
        match self.int()? {
            1..=0x1fff_ffff => Ok(()),
            n if n <= u64::MAX as u128 => {
                self.doubt = Some("field number that protoc refuses");
                Ok(())
            }
            _ => Err(Invalid("field number out of range", at)),
        }
    }
    fn int_in_range(&mut self, negative: bool) -> P {
        let at = self.tok().at;
        let n = self.int()?;
        let max = i64::MAX as u128;
        match negative {
            true if n <= max + 1 => Ok(()),
            false if n <= max => Ok(()),
            false if n <= u64::MAX as u128 => Err(Unspecified("unsigned constant of 64 bits")),
            _ => Err(Invalid("integer out of range", at)),
        }
    }
    fn constant(&mut self) -> P {
        let sign = self.is(b'-') || self.is(b'+');
        let negative = self.is(b'-');
        self.i += sign as usize;
        match self.tok().t {
            T::Int => self.int_in_range(negative),
            T::Float => {
                self.i += 1;
                Ok(())
            }
            T::Str if !sign => self.str(),
            T::Ident if ["inf", "nan"].contains(&self.tok().s) => {
                self.i += 1;
                if self.is(b'.') {
                    return Err(Unspecified("dotted identifier that starts with a literal"));
                }
                Ok(())
            }
            T::Ident if !sign => {
                let first = self.tok().s;
                if ["true", "false"].contains(&first) && self.peek(1).t == T::Punct(b'.') {
                    return Err(Unspecified("dotted identifier that starts with a literal"));
                }
                self.full_ident()
            }
            T::Punct(b'{') if !sign => Err(Unspecified("aggregate")),
            _ => self.bad("expected a constant"),
        }
    }
    fn option_name(&mut self) -> P {
        if self.eat(b'(') {
            if self.is(b'.') {
                return Err(Unspecified("option name with a leading dot"));
            }
            self.full_ident()?;
            self.need(b')', "expected `)`")?;
        } else {
            self.ident()?;
        }
        while self.eat(b'.') {
            if self.is(b'(') {
                return Err(Unspecified("extension within an option name"));
            }
            self.ident()?;
        }
        Ok(())
    }
    /// An option of a message or oneof, where others may see a field.
    fn option_or_field(&mut self) -> P {
        let like_field = self.tok().t == T::Ident && self.peek(1).t == T::Punct(b'=') && self.peek(2).t == T::Int;
        match self.option() {
            Err(Invalid(..)) if like_field => Err(Unspecified("type named like a keyword")),
            r => r,
        }
    }
    fn option(&mut self) -> P {
        // after the keyword
        self.option_name()?;
        self.need(b'=', "expected `=`")?;
        self.constant()?;
        self.need(b';', "expected `;`")
    }
    fn bracket(&mut self) -> P {
        if self.eat(b'[') {
            loop {
                self.option_name()?;
                self.need(b'=', "expected `=`")?;
                self.constant()?;
                if !self.eat(b',') {
                    break;
                }
            }
            self.need(b']', "expected `]`")?;
        }
        Ok(())
    }
    fn field(&mut self, oneof: bool) -> P {
        let start = self.tok();
        if !oneof && start.t == T::Ident && ["repeated", "optional"].contains(&start.s) {
            // what follows may make it the name of a type
            if self.peek(1).t == T::Ident && self.peek(2).t == T::Punct(b'=') || self.peek(1).t == T::Punct(b'.') {
                return Err(Unspecified("type named like a keyword"));
            }
            self.i += 1;
        }
        if self.word("map") && self.peek(1).t == T::Punct(b'<') {
            return Err(Unspecified("map"));
        }
        self.type_name()?;
        self.ident()?;
        self.need(b'=', "expected `=`")?;
        self.number()?;
        self.bracket()?;
        self.need(b';', "expected `;`")
    }
    fn reserved(&mut self) -> P {
        if self.tok().t == T::Str || self.tok().t == T::Ident {
            loop {
                if self.tok().t == T::Ident {
                    self.doubt = Some("reserved identifiers");
                    self.i += 1;
                } else {
                    self.str()?;
                }
                if !self.eat(b',') {
                    break;
                }
            }
        } else {
            loop {
                self.range_end()?;
                if self.tok().t == T::Ident {
                    if !self.word("to") {
                        if self.tok().s.starts_with("to") {
                            return Err(Unspecified("`to` glued to what follows"));
                        }
                        return self.bad("expected `to`");
                    }
                    self.i += 1;
                    if self.tok().t == T::Ident {
                        if !self.word("max") {
                            return self.bad("expected a number");
                        }
                        self.i += 1;
                    } else {
                        self.range_end()?;
                    }
                }
                if !self.eat(b',') {
                    break;
                }
            }
        }
        self.need(b';', "expected `;`")
    }
    fn range_end(&mut self) -> P {
        if self.is(b'-') || self.is(b'+') {
            self.doubt = Some("sign in a range");
            self.i += 1;
        }
        if self.tok().t == T::BadNumber && self.tok().s.contains("to") {
            return Err(Unspecified("`to` glued to a number"));
        }
        if self.int()? > i32::MAX as u128 {
            self.doubt = Some("large numbers in a range");
        }
        Ok(())
    }
    /// A statement keyword, unless the words after it make it something else.
    fn keyword(&mut self, w: &str) -> bool {
        self.eat_word(w)
    }
    fn message(&mut self) -> P {
        self.ident()?;
        self.need(b'{', "expected `{`")?;
        while !self.eat(b'}') {
            if self.eat(b';') {
                continue;
            }
            let t = self.tok();
            // words that start other statements, but may be types for those who know no keywords
            if t.t == T::Ident && ["option", "enum", "message", "oneof", "reserved"].contains(&t.s) {
                if self.peek(1).t == T::Ident && self.peek(2).t == T::Punct(b'=') && t.s != "option" {
                    return Err(Unspecified("type named like a keyword"));
                }
                if self.peek(1).t == T::Punct(b'.') {
                    self.field(false)?;
                    continue;
                }
            }
            if self.keyword("option") {
                self.option_or_field()?;
            } else if self.keyword("enum") {
                self.enum_()?;
            } else if self.keyword("message") {
                self.message()?;
            } else if self.keyword("oneof") {
                self.oneof()?;
            } else if self.keyword("reserved") {
                self.reserved()?;
            } else if self.word("extend") && self.peek(1).t == T::Ident {
                return Err(Unspecified("extend"));
            } else {
                self.field(false)?;
            }
        }
        Ok(())
    }
    fn oneof(&mut self) -> P {
        self.ident()?;
        self.need(b'{', "expected `{`")?;
        while !self.eat(b'}') {
            if self.eat(b';') {
                continue;
            }
            if self.word("option") {
                if self.peek(1).t == T::Punct(b'.') {
                    self.field(true)?;
                    continue;
                }
                self.i += 1;
                self.option_or_field()?;
            } else {
                self.field(true)?;
            }
        }
        Ok(())
    }
    fn enum_(&mut self) -> P {
        self.ident()?;
        self.need(b'{', "expected `{`")?;
        let mut values = 0;
        while !self.eat(b'}') {
            if self.eat(b';') {
                continue;
            }
            if (self.word("option") || self.word("reserved")) && self.peek(1).t == T::Punct(b'=') {
                return Err(Unspecified("enum value named like a keyword"));
            }
            if self.keyword("option") {
                self.option()?;
            } else if self.keyword("reserved") {
                self.reserved()?;
            } else {
                self.ident()?;
                self.need(b'=', "expected `=`")?;
                if self.is(b'+') {
                    self.doubt = Some("plus sign of an enum value");
                }
                let negative = self.is(b'-');
                self.i += (self.is(b'-') || self.is(b'+')) as usize;
                self.int_in_range(negative)?;
                self.bracket()?;
                if self.is(b'[') {
                    return Err(Unspecified("two lists of options"));
                }
                self.need(b';', "expected `;`")?;
                values += 1;
            }
        }
        if values == 0 {
            self.doubt = Some("enum without values");
        }
        Ok(())
    }
    fn rpc_type(&mut self) -> P {
        self.need(b'(', "expected `(`")?;
        if self.word("stream") {
            if self.peek(1).t == T::Punct(b')') {
                return Err(Unspecified("type named like a keyword"));
            }
            self.i += 1;
        }
        if self.tok().t == T::Ident && BUILTIN.contains(&self.tok().s) {
            return Err(Unspecified("type named like a keyword"));
        }
        self.type_name()?;
        self.need(b')', "expected `)`")
    }
    fn service(&mut self) -> P {
        self.ident()?;
        self.need(b'{', "expected `{`")?;
        while !self.eat(b'}') {
            if self.eat(b';') {
                continue;
            }
            if self.keyword("option") {
                self.option()?;
            } else if self.keyword("rpc") {
                self.ident()?;
                self.rpc_type()?;
                if !self.eat_word("returns") {
                    return self.bad("expected `returns`");
                }
                self.rpc_type()?;
                if self.eat(b'{') {
                    while !self.eat(b'}') {
                        if self.eat(b';') {
                            continue;
                        }
                        if !self.keyword("option") {
                            return self.bad("expected an option");
                        }
                        self.option()?;
                    }
                } else {
                    self.need(b';', "expected `;`")?;
                }
            } else {
                return self.bad("expected an rpc or option");
            }
        }
        Ok(())
    }
    fn file(&mut self) -> P {
        if self.word("edition") {
            return Err(Unspecified("edition"));
        }
        if !self.eat_word("syntax") {
            return self.bad("expected `syntax`");
        }
        self.need(b'=', "expected `=`")?;
        let s = self.tok();
        if s.t != T::Str {
            return self.bad("expected a string");
        }
        self.i += 1;
        let content = &s.s[1..s.s.len() - 1];
        if content != "proto3" {
            if content.contains('\\') || content == "proto2" {
                return Err(Unspecified("syntax in another spelling"));
            }
            return Err(Invalid("unknown syntax", s.at));
        }
        if self.tok().t == T::Str {
            return Err(Unspecified("adjacent strings"));
        }
        self.need(b';', "expected `;`")?;
        loop {
            if self.eat(b';') {
                continue;
            }
            if self.tok().t == T::End {
                return Ok(());
            }
            if self.eat_word("import") {
                if self.word("option") {
                    return Err(Unspecified("import option"));
                }
                if !self.eat_word("weak") {
                    self.eat_word("public");
                }
                self.str()?;
                self.need(b';', "expected `;`")?;
            } else if self.eat_word("package") {
                self.full_ident()?;
                self.need(b';', "expected `;`")?;
                self.packages += 1;
                if self.packages > 1 {
                    self.doubt = Some("two packages");
                }
            } else if self.eat_word("option") {
                self.option()?;
            } else if self.eat_word("message") {
                self.message()?;
            } else if self.eat_word("enum") {
                self.enum_()?;
            } else if self.eat_word("service") {
                self.service()?;
            } else if self.tok().t == T::Ident && ["extend", "export", "local"].contains(&self.tok().s) {
                return Err(Unspecified("extend"));
            } else {
                return self.bad("expected a declaration");
            }
        }
    }
}

pub fn judge(text: &str) -> Verdict {
    let toks = match lex(text) {
        Ok(t) => t,
        Err(e) => return e,
    };
    let mut p = Parser {
        toks,
        i: 0,
        packages: 0,
        doubt: None,
    };
    match p.file() {
        Ok(()) => p.doubt.map_or(Valid, Unspecified),
        Err(e) => e,
    }
}
