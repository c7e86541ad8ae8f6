mod alloc;
mod ctx;
mod cx;
mod gen;
mod grammar;
mod model;
mod props;
mod render;
mod rng;
mod wire;

use cx::{Cx, Tier};
use rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

#[cfg(not(feature = "noalloc"))]
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Case number, plus one, that is being run.
static CURRENT: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

/// CPU time of this process in milliseconds.
fn cpu_ms() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(2, &mut t) };
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mode = a.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        m.insert(k.trim_start_matches('-').to_string(), v);
    }
    let args = Args(m);
    cx::install_hook();
    let code = match mode.as_str() {
        "run" => run(args),
        "probe" => {
            let stack = args.num("stack", 8 << 20) as usize;
            let what = args.get("what", "");
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || props::probe(&what))
                .unwrap()
                .join()
                .unwrap_or(3)
        }
        _ => {
            eprintln!("usage: pfmon run|probe --key value ...");
            3
        }
    };
    std::process::exit(code);
}

/// Runs the cases of a shard. Exit codes: 0 done (violations are in the report), 3 harness error,
/// 78 a case used up its CPU budget.
fn run(args: Args) -> i32 {
    let prop = args.get("prop", "");
    let seed = args.num("seed", 1);
    let tier = if args.get("tier", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let shard = args.num("shard", 0);
    let shards = args.num("shards", 1);
    let cases = args.num("cases", 100);
    let only = args.0.get("only").map(|v| v.parse::<u64>().expect("case"));
    let out = args.get("out", "");
    let progress = args.get("progress", "");
    let budget = args.num("budget", 20_000);
    let stack = args.num("stack", 256 << 20) as usize;
    let seconds = args.num("seconds", u64::MAX);
    let start = std::time::Instant::now();
    let verbose = args.num("verbose", 0) == 1;
    let skip: HashSet<u64> = args
        .get("skip", "")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().expect("case"))
        .collect();
    let case_fn = match props::find(&prop) {
        Some(f) => f,
        None => {
            eprintln!("no property {}", prop);
            return 3;
        }
    };

    if !cfg!(miri) {
        let progress = progress.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            let mut since = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(50));
                let c = CURRENT.load(Ordering::SeqCst);
                let now = cpu_ms();
                if c != last {
                    last = c;
                    since = now;
                } else if c > 0 && now - since > budget {
                    let _ = std::fs::write(&progress, format!("{} hang", c - 1));
                    std::process::exit(78);
                }
            }
        });
    }

    let worker = move || -> i32 {
        let mut pf = if progress.is_empty() {
            None
        } else {
            Some(std::fs::File::create(&progress).expect("progress file"))
        };
        let pid = rng::hash_bytes(prop.as_bytes());
        let mut cx = Cx {
            rng: Rng::new(0),
            tier,
            idx: 0,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            notes: vec![],
            verbose,
            digest: 0,
        };
        let mut digests: Vec<u64> = vec![];
        let mut violations: Vec<(u64, String)> = vec![];
        let mut done = 0u64;
        let mut range: Vec<u64> = match only {
            Some(i) => vec![i],
            None => (0..cases).filter(|i| i % shards == shard && !skip.contains(i)).collect(),
        };
        if args.num("reverse", 0) == 1 {
            range.reverse();
        }
        for i in range {
            if seconds != u64::MAX && start.elapsed().as_secs() >= seconds {
                cx.count("workers stopped by the wall clock");
                break;
            }
            cx.digest = 0;
            if let Some(f) = &mut pf {
                use std::os::unix::fs::FileExt;
                let _ = f.write_at(format!("{:<20}", i).as_bytes(), 0);
            }
            CURRENT.store(i + 1, Ordering::SeqCst);
            cx.idx = i;
            cx.rng = Rng::new(seed.wrapping_mul(0x9E37_79B9) ^ pid ^ i.wrapping_mul(0xD134_2543_DE82_EF95));
            cx.notes.clear();
            // twice, to decouple neighbouring seeds
            let s = cx.rng.next();
            cx.rng = Rng::new(s);
            let r = case_fn(&mut cx);
            done += 1;
            digests.push(i);
            digests.push(if r.is_ok() { cx.digest } else { 0 });
            if let Err(f) = r {
                if f.0 == cx::SKIP {
                    cx.count("cases skipped");
                    continue;
                }
                violations.push((i, f.0));
                if verbose {
                    for n in &cx.notes {
                        eprintln!("{}", n);
                    }
                }
                if violations.len() >= 3 {
                    break;
                }
            }
        }
        CURRENT.store(0, Ordering::SeqCst);

        let mut o = String::from("{");
        o.push_str(&format!("\"cases\": {}, \"evaluations\": {}, ", done, cx.evals));
        let v: Vec<String> = violations.iter().map(|(i, s)| format!("{{\"case\": {}, \"what\": {}}}", i, json(s))).collect();
        o.push_str(&format!("\"violations\": [{}], ", v.join(", ")));
        let v: Vec<String> = cx.counters.iter().map(|(k, n)| format!("{}: {}", json(k), n)).collect();
        o.push_str(&format!("\"counters\": {{{}}}, ", v.join(", ")));
        let v: Vec<String> = cx.samples.iter().map(|s| json(s)).collect();
        o.push_str(&format!("\"samples\": [{}]}}\n", v.join(", ")));
        if out.is_empty() {
            print!("{}", o);
        } else {
            let mut f = std::fs::File::create(&out).expect("report");
            f.write_all(o.as_bytes()).expect("report");
            let mut h = Vec::with_capacity(cx.distinct.len() * 8);
            for d in &cx.distinct {
                h.extend_from_slice(&d.to_le_bytes());
            }
            std::fs::write(format!("{}.distinct", out), h).expect("report");
            if args.num("digests", 0) == 1 {
                let h: Vec<u8> = digests.iter().flat_map(|d| d.to_le_bytes()).collect();
                std::fs::write(format!("{}.digests", out), h).expect("report");
            }
        }
        0
    };
    match std::thread::Builder::new().stack_size(stack).spawn(worker).unwrap().join() {
        Ok(c) => c,
        Err(_) => 3,
    }
}
