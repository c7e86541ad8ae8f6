//! What a case has at hand: randomness, counters, and calls into the crate under watch.

use crate::rng::{hash_bytes, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation.
#[derive(Debug, Clone)]
pub struct Fail(pub String);

impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail(s)
    }
}

/// What a case fails with that could not be judged.
pub const SKIP: &str = "skip";

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::cx::Fail(format!($($t)*))); } };
}

thread_local! {
    static GUARDED: RefCell<Option<String>> = const { RefCell::new(None) };
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if DEPTH.with(|d| d.get()) > 0 {
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // These end the process, so nobody would get to see the message.
            if msg.contains("unsafe precondition(s) violated") {
                eprintln!("{}", msg);
            }
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            GUARDED.with(|g| *g.borrow_mut() = Some(format!("{} at {}", msg, at)));
        } else {
            default(info);
        }
    }));
}

/// Calls into the crate under test; a panic is returned as its message and place.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r.map_err(|_| GUARDED.with(|g| g.borrow_mut().take()).unwrap_or_default())
}

/// As `guard`, with a panic as a violation.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    guard(f).map_err(|p| Fail(format!("{} panicked: {}", what, p)))
}

pub struct Cx {
    pub rng: Rng,
    pub tier: Tier,
    pub idx: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub verbose: bool,
    /// Of what the case observed; the same in every process.
    pub digest: u64,
}

impl Cx {
    pub fn digest(&mut self, b: &[u8]) {
        self.digest = self.digest.rotate_left(7).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ hash_bytes(b);
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let c = self.counters.entry(format!("max {}", k)).or_insert(0);
        *c = (*c).max(n);
    }
    /// One oracle decision. Non-trivial ones count as distinct by what they were about.
    pub fn eval(&mut self, id: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash_bytes(id));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
