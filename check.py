#!/usr/bin/env python3
"""Decides one property of /repo's working tree: check.py ID [--replay FILE], or check.py --setup.

Exit 0: held on everything that was observed. Exit 1: a VIOLATION line names the replay file.
Exit 2: inconclusive (build failure, too little observed, a failure that does not come back).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
T0 = time.time()
SHARDS = max(2, min(8, os.cpu_count() or 8))

# Cases per tier.
CASES = {
    "C01": (14000, 400000),
    "C02": (40000, 1000000),
    "C03": (40000, 1000000),
    "C04": (40000, 1000000),
    "C05": (40000, 1000000),
    "C06": (40000, 1000000),
    "C07": (40000, 1000000),
    "C08": (24000, 600000),
    "C09": (40000, 1000000),
    "C10": (16000, 300000),
    "C11": (8000, 200000),
    "C12": (30000, 800000),
    "C13": (30000, 800000),
    "C14": (10000, 250000),
    "C15": (16000, 400000),
    "C16": (7000, 160000),
    "C17": (8000, 250000),
    "C18": (20000, 1000000),
    "C19": (40000, 800000),
    "C20": (12000, 250000),
    "C21": (6000, 80000),
    "C22": (16000, 400000),
    "C23": (12000, 300000),
    "C24": (1500, 20000),
    "C25": (30000, 800000),
    "C26": (4000, 100000),
    "C27": (40000, 1000000),
}
# Wall-clock limit for the main run of a tier; what was not reached by then is not counted.
SECONDS = {"quick": 240, "thorough": 1500}

RULES = {
    "C01": "schema and payload generated at random (well-formed, mutated, spliced, truncated, hostile lengths/varints/tags, random bytes, deep nesting); non-trivial: non-empty payload; distinct by payload",
    "C02": "payloads as for C01 plus canonical ones with unknown fields; non-trivial: non-empty payload; distinct by payload",
    "C03": "message values generated from random schemas, encoded by the reference encoder; non-trivial: non-empty payload; distinct by payload",
    "C04": "hand-built message values of random schemas; non-trivial: at least one field; distinct by reference encoding",
    "C05": "well-formed values with unknown and mismatched fields woven in at random places and depths; distinct by payload",
    "C06": "every cut of generated payloads, also inside nested messages; distinct by (payload, cut)",
    "C07": "generated payloads with the content of one length-delimited value replaced; distinct by damaged payload",
    "C08": "concatenations, permutations and repetitions of generated payloads; distinct by payload",
    "C09": "element sequences split into packed runs and single elements under every declaration; distinct by payload",
    "C10": "payloads of up to 128 KB that claim large lengths, counts and numbers; distinct by payload",
    "C11": "mutated valid files, token soup, statements with extreme literals, long and deep texts; non-trivial: more than 20 bytes; distinct by text",
    "C12": "file sets generated as data and rendered; every declaration compared in both directions; distinct by text",
    "C13": "literals in every notation with known exact values in every position that keeps them; distinct by text",
    "C14": "one schema rendered with several layouts and declaration orders; distinct by text",
    "C15": "nested scopes with few names, references in every legal spelling against an independent resolver; distinct by text",
    "C16": "valid and sloppy file sets, every reference and lookup followed; distinct by text",
    "C17": "one fault injected into a valid file set; distinct by text",
    "C18": "random sequences of insertions against a sequential model; distinct by sequence",
    "C19": "one schema parsed and built by hand, contexts and decoded values compared; distinct by schema and payload",
    "C20": "payloads, values, texts and contexts like those of the other properties, and direct memory checks, in a native build with a painting, counting allocator, the same under AddressSanitizer, and small ones under Miri; distinct by payload or text",
    "C21": "cases run by 2 to 8 threads on one context, repeated after other work and in other processes; also under ThreadSanitizer and Miri; distinct by (threads, payload) or text",
    "C22": "pairs of values and of contexts that are equal, or different in one detail; non-trivial: every pair; distinct by both encodings or texts",
    "C23": "generated file sets in several declaration orders and insertion orders; non-trivial: more than three members listed; distinct by text",
    "C24": "payloads of one shape repeated to 1, 32, 96 and 256 KB, nested to 24 levels, measured in CPU time; distinct by payload",
    "C25": "messages written under one version of a generated schema and read under another, in both directions; non-trivial: at least one field; distinct by payload",
    "C26": "a generated file set parsed alone, and with unrelated files and declarations around and inside it; distinct by text and payload",
    "C27": "two generated contexts, references of one used in the other: lookups, decoding, insertion; distinct by texts and payload",
}

PROBES = {
    "C01": [("deep-decode", 8 << 20)],
    "C09": [("packed-enum", 8 << 20)],
    "C11": [("map", 8 << 20), ("deep-parse", 8 << 20)],
    "C12": [("map", 8 << 20), ("uint64-option", 8 << 20)],
}


class Inconclusive(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def environment():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "0"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "CARGO_PROFILE_RELEASE_DEBUG", "RUST_MIN_STACK"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "src"),):
        for d, ds, fs in os.walk(top):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "build.rs"):
        if os.path.exists(os.path.join(REPO, f)):
            files.append(os.path.join(REPO, f))
    for f in files:
        with open(f, "rb") as g:
            b = g.read()
        h.update(("%s %d\n" % (f, len(b))).encode() + b)
    return h.hexdigest()


FLAGS = "--cap-lints warn -A bindings_with_variant_name -A warnings"
BUILDS = {
    # name: (directory, toolchain args, cargo command, flags)
    "native": ("", [], ["build", "--release"], ""),
    "asan": (
        "asan",
        ["+nightly"],
        ["build", "--release", "--features", "noalloc", "--target", "x86_64-unknown-linux-gnu"],
        "-Zsanitizer=address -Cforce-frame-pointers=yes",
    ),
    "tsan": (
        "tsan",
        ["+nightly"],
        ["build", "-Zbuild-std", "--release", "--features", "noalloc", "--target", "x86_64-unknown-linux-gnu"],
        "-Zsanitizer=thread",
    ),
    "miri": ("miri", ["+nightly"], ["miri", "run", "--features", "noalloc"], ""),
    "probe": ("probe", [], ["check"], ""),
}


def cargo_env(kind):
    d, _, _, flags = BUILDS[kind]
    e = environment()
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, d) if d else TARGET
    e["RUSTFLAGS"] = (FLAGS + " " + flags).strip()
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return e


def crate_dir(kind):
    return os.path.join(HERE, "probe" if kind == "probe" else "harness")


def prepare(kind):
    """Makes cargo see changes of /repo whatever their timestamps say."""
    e = cargo_env(kind)
    d = e["CARGO_TARGET_DIR"]
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "source.stamp")
    h = source_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
    if old != h:
        if old is not None or os.path.exists(os.path.join(d, "release")):
            cmd = ["cargo"] + BUILDS[kind][1] + ["clean", "--offline", "-p", "protofish"]
            if "--release" in BUILDS[kind][2]:
                cmd.append("--release")
            if "--target" in BUILDS[kind][2]:
                cmd += ["--target", "x86_64-unknown-linux-gnu"]
            if kind != "miri":
                subprocess.run(cmd, cwd=crate_dir(kind), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            else:
                shutil.rmtree(os.path.join(d, "miri"), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    return stamp, h


def build(kind, timeout=800):
    """Returns (path of the binary or None, output)."""
    stamp, h = prepare(kind)
    _, tool, cmd, _ = BUILDS[kind]
    e = cargo_env(kind)
    t = time.time()
    r = subprocess.run(
        ["cargo"] + tool + cmd + ["--offline"],
        cwd=crate_dir(kind),
        env=e,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=timeout,
        text=True,
        errors="replace",
    )
    log("built %s in %.1fs: exit %d" % (kind, time.time() - t, r.returncode))
    if r.returncode != 0:
        return None, r.stdout
    with open(stamp, "w") as f:
        f.write(h)
    d = e["CARGO_TARGET_DIR"]
    if "--target" in cmd:
        d = os.path.join(d, "x86_64-unknown-linux-gnu")
    return os.path.join(d, "release", "pfmon"), r.stdout


class Shard:
    def __init__(self, binary, work, name, args, env=None, budget=20000):
        self.binary, self.work, self.name, self.args, self.env, self.budget = binary, work, name, args, env, budget
        self.out = os.path.join(work, name + ".json")
        self.progress = os.path.join(work, name + ".progress")
        self.err = os.path.join(work, name + ".err")
        for f in (self.out, self.progress, self.out + ".distinct", self.out + ".digests"):
            if os.path.exists(f):
                os.unlink(f)
        self.stderr = open(self.err, "wb")
        cmd = self.binary + ["run", "--out", self.out, "--progress", self.progress, "--budget", str(budget)]
        for k, v in args.items():
            cmd += ["--" + k, str(v)]
        self.p = subprocess.Popen(cmd, cwd=work, env=env or environment(), stdin=subprocess.DEVNULL, stdout=self.stderr, stderr=self.stderr)

    def wait(self, timeout):
        """'done', 'crash', 'hang', 'timeout' or 'error'."""
        try:
            rc = self.p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.stderr.close()
            return "timeout"
        self.stderr.close()
        self.rc = rc
        if rc == 0 and os.path.exists(self.out):
            return "done"
        if rc == 78:
            return "hang"
        if rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
            return "error"
        if rc < 0 or rc in (66,):
            return "crash"
        return "error"

    def text(self):
        with open(self.err, errors="replace") as f:
            return f.read()[-20000:]

    def report(self):
        with open(self.out) as f:
            return json.load(f)

    def case(self):
        try:
            with open(self.progress) as f:
                return int(f.read().split()[0])
        except Exception:
            return None

    def u64s(self, ext):
        try:
            with open(self.out + ext, "rb") as f:
                b = f.read()
        except OSError:
            return ()
        return struct.unpack("<%dQ" % (len(b) // 8), b)


# What a crash has to say for itself to count as undefined behaviour.
UB = re.compile(
    r"AddressSanitizer: (?!stack-overflow|allocation-size-too-big|out-of-memory|requested allocation)\S+"
    r"|unsafe precondition\(s\) violated|free\(\): |malloc\(\)|munmap_chunk|double free|corrupted|invalid pointer"
)


def is_ub(shard):
    t = shard.text()
    if UB.search(t):
        return True
    if "AddressSanitizer: stack-overflow" in t or "overflowed its stack" in t or "memory allocation of" in t:
        return False
    if "AddressSanitizer" in t:
        return False
    return getattr(shard, "rc", 0) in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.evals = 0
        self.cases = 0
        self.distinct = set()
        self.distinct_capped = False
        self.counters = {}
        self.samples = []
        self.violations = []  # (what, replay data)
        self.notes = []
        self.builds = []
        self.known = []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def violation(self, what, **data):
        self.violations.append((what, data))
        log("VIOLATED:", what[:3000])

    def merge(self, shard, prefix="", mode="native"):
        r = shard.report()
        self.cases += r["cases"]
        self.evals += r["evaluations"]
        for k, v in r["counters"].items():
            k2 = prefix + k
            if k.startswith("max "):
                self.counters[k2] = max(self.counters.get(k2, 0), v)
            else:
                self.counters[k2] = self.counters.get(k2, 0) + v
        if len(self.distinct) < 6_000_000:
            self.distinct.update(shard.u64s(".distinct"))
        else:
            self.distinct_capped = True
        if len(self.samples) < 3:
            self.samples += r["samples"][: 3 - len(self.samples)]
        for v in r["violations"]:
            self.violation(v["what"], case=v["case"], mode=mode)
        return r

    def args(self, cases, **more):
        a = {"prop": self.prop, "seed": self.seed, "tier": self.tier, "cases": cases}
        a.update(more)
        return a

    def sharded(self, binary, cases, seconds, mode="native", env=None, budget=20000, shards=None, digests=None, extra=None, only_ub=False):
        """Runs all cases. A crash or hang ends a shard; it is run again without that case."""
        shards = shards or SHARDS
        end = time.time() + seconds
        skips = {i: [] for i in range(shards)}
        todo = list(range(shards))
        rounds = 0
        hung = False
        while todo and rounds < 4:
            rounds += 1
            ps = []
            for i in todo:
                a = self.args(cases, shard=i, shards=shards, seconds=int(max(1, end - time.time())), **(extra or {}))
                if skips[i]:
                    a["skip"] = ",".join(map(str, skips[i]))
                ps.append((i, Shard(binary, self.work, "%s%d" % (mode, i), a, env, budget)))
            todo = []
            doubt = None
            for i, s in ps:
                st = s.wait(end - time.time() + 120)
                if st == "done":
                    self.merge(s, mode=mode)
                    if digests is not None:
                        d = s.u64s(".digests")
                        digests.update(zip(d[::2], d[1::2]))
                elif st in ("crash", "hang"):
                    c = s.case()
                    if c is None:
                        raise Inconclusive("worker ended with %s before its first case\n%s" % (s.rc, s.text()))
                    if st == "hang" and hung and not only_ub:
                        continue
                    before = len(self.violations)
                    try:
                        self.crashed(binary, s, c, st, mode, env, budget, cases, only_ub, extra)
                    except Inconclusive as x:
                        # what the other workers found still counts
                        doubt = x
                        continue
                    hung = hung or st == "hang" and len(self.violations) > before
                    skips[i].append(c)
                    if len(self.violations) < 3 and (st != "hang" or only_ub):
                        todo.append(i)
                elif st == "timeout":
                    self.notes.append("a %s worker was stopped by the wall clock" % mode)
                else:
                    raise Inconclusive("worker ended with %s\n%s" % (s.rc, s.text()[-3000:]))
            if doubt:
                raise doubt
            if time.time() > end:
                break

    def crashed(self, binary, s, case, st, mode, env, budget, cases, only_ub, extra):
        text = s.text()
        if only_ub:
            if st == "crash" and is_ub(s):
                self.violation("case %d ended with %s\n%s" % (case, s.rc, text[:4000]), case=case, mode=mode)
            else:
                k = "cases that ended the process without undefined behaviour"
                self.counters[k] = self.counters.get(k, 0) + 1
            return
        if self.prop == "C21" and st == "crash" and is_ub(s):
            # may need the same interleaving to come back
            self.violation("case %d ended with %s\n%s" % (case, s.rc, text[:4000]), case=case, mode=mode)
            return
        for i in range(3):
            a = self.args(cases, only=case, **(extra or {}))
            one = Shard(binary, self.work, "again%d" % i, a, env, budget * 3)
            again = one.wait(900)
            if again in ("crash", "hang"):
                what = "does not end" if again == "hang" else "ends the process with %s" % one.rc
                self.violation("case %d %s\n%s" % (case, what, one.text()[:4000]), case=case, mode=mode)
                return
            if again == "done" and one.report()["violations"]:
                for v in one.report()["violations"]:
                    self.violation(v["what"], case=v["case"], mode=mode)
                return
        raise Inconclusive("case %d ended with %s once and did not again\n%s" % (case, st, text[-3000:]))


def known_findings():
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) \[([\w-]+)\] (.*)", line)
            if m:
                out.append(m.groups())
    return out


def probe(run, binary):
    """Known findings that are still there are reported as such, others as violations."""
    listed = {(p, n): t for p, n, t in known_findings()}
    for what, stack in PROBES.get(run.prop, []):
        r = subprocess.run(
            binary + ["probe", "--what", what, "--stack", str(stack)],
            cwd=run.work,
            env=environment(),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            errors="replace",
            timeout=300,
        )
        out = r.stdout.strip()
        if what.startswith("deep-"):
            if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT) and "overflowed its stack" in r.stderr:
                state = "FOUND"
            elif r.returncode == 0 and out == "GONE":
                state = "GONE"
            else:
                state = "OTHER exit %s %s" % (r.returncode, r.stderr[-500:])
        elif r.returncode == 0:
            state = out
        else:
            state = "OTHER exit %s %s" % (r.returncode, r.stderr[-500:])
        run.counters["known findings probed"] = run.counters.get("known findings probed", 0) + 1
        if state == "FOUND":
            if (run.prop, what) in listed:
                run.known.append("KNOWN-FINDING: property=%s %s" % (run.prop, listed[(run.prop, what)]))
            else:
                run.violation("%s" % what, mode="probe", what=what, stack=stack)
        elif state == "GONE":
            run.notes.append("known finding %s was not observed" % what)
        else:
            run.violation("%s: %s" % (what, state), mode="probe", what=what, stack=stack)


# ------------------------------------------------------------------------------- sanitizers


def asan_env():
    e = environment()
    e["ASAN_OPTIONS"] = "halt_on_error=1:exitcode=66:detect_leaks=0:max_allocation_size_mb=3000:allocator_may_return_null=1:abort_on_error=0"
    return e


def tsan_env():
    e = environment()
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1"
    return e


def asan(run, cases, seconds):
    b, out = build("asan")
    if not b:
        run.notes.append("AddressSanitizer build failed: " + out[-300:])
        return
    run.builds.append("AddressSanitizer")
    before = run.cases
    run.sharded([b], cases, seconds, mode="asan", env=asan_env(), budget=200000, only_ub=True)
    run.counters["cases under AddressSanitizer"] = run.cases - before


def tsan(run, cases, seconds):
    b, out = build("tsan")
    if not b:
        run.notes.append("ThreadSanitizer build failed: " + out[-300:])
        return
    e = tsan_env()
    cmd = [b]
    t = subprocess.run(cmd + ["run", "--prop", "C21", "--cases", "0"], env=e, capture_output=True, text=True, errors="replace")
    if t.returncode != 0:
        cmd = ["setarch", "-R", b]
        t = subprocess.run(cmd + ["run", "--prop", "C21", "--cases", "0"], env=e, capture_output=True, text=True, errors="replace")
        if t.returncode != 0:
            run.notes.append("ThreadSanitizer does not run here: " + t.stderr[-300:])
            return
    run.builds.append("ThreadSanitizer")
    before = run.cases
    ps = []
    n = max(2, SHARDS // 2)
    for i in range(n):
        a = run.args(cases, shard=i, shards=n, seconds=int(seconds))
        ps.append(Shard(cmd, run.work, "tsan%d" % i, a, e, 400000))
    for s in ps:
        st = s.wait(seconds + 120)
        text = s.text()
        if "WARNING: ThreadSanitizer: data race" in text:
            at = text.index("WARNING: ThreadSanitizer: data race")
            run.violation("data race\n" + text[at : at + 4000], case=s.case(), mode="tsan")
        elif st == "done":
            run.merge(s, mode="tsan")
        else:
            run.notes.append("a ThreadSanitizer worker ended with %s: %s" % (st, text[-300:]))
    run.counters["cases under ThreadSanitizer"] = run.cases - before


def miri(run, cases, seconds, procs=None):
    """Small cases in the interpreter, some in each of several processes."""
    procs = procs or SHARDS
    try:
        prepare("miri")
    except OSError as x:
        run.notes.append("Miri: %s" % x)
        return
    e = cargo_env("miri")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--features", "noalloc", "--"]
    d = os.path.join(HERE, "harness")
    t = time.time()
    first = subprocess.run(
        base + ["run", "--prop", run.prop, "--cases", "0", "--stack", str(8 << 20)],
        cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600,
    )
    if first.returncode != 0:
        run.notes.append("Miri does not run here: " + first.stdout[-300:])
        return
    with open(os.path.join(e["CARGO_TARGET_DIR"], "source.stamp"), "w") as f:
        f.write(source_hash())
    log("built miri in %.1fs" % (time.time() - t))
    run.builds.append("Miri")
    before = run.cases
    ps = []
    for i in range(procs):
        out = os.path.join(run.work, "miri%d.json" % i)
        err = open(os.path.join(run.work, "miri%d.err" % i), "wb")
        e2 = dict(e)
        e2["MIRIFLAGS"] += " -Zmiri-seed=%d -Zmiri-tree-borrows" % (run.seed * 64 + i) if i % 2 else " -Zmiri-seed=%d" % (run.seed * 64 + i)
        cmd = base + ["run", "--out", out, "--stack", str(8 << 20), "--seconds", str(int(seconds))]
        for k, v in run.args(cases * procs, shard=i, shards=procs).items():
            cmd += ["--" + k, str(v)]
        ps.append((out, err, subprocess.Popen(cmd, cwd=d, env=e2, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)))
    end = time.time() + seconds + 200
    for i, (out, err, p) in enumerate(ps):
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            run.notes.append("a Miri worker was stopped by the wall clock")
            continue
        finally:
            err.close()
        with open(err.name, errors="replace") as f:
            text = f.read()
        ub = re.search(r"error: Undefined Behavior|unsafe precondition\(s\) violated", text)
        if ub:
            at = ub.start()
            run.violation("Miri: " + text[at : at + 4000], mode="miri", shard=i, procs=procs, cases=cases * procs)
        elif rc == 0 and os.path.exists(out):
            r = json.load(open(out))
            run.cases += r["cases"]
            run.evals += r["evaluations"]
            f = out + ".distinct"
            with open(f, "rb") as g:
                b = g.read()
            run.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            for k, v in r["counters"].items():
                k = "Miri: " + k
                run.counters[k] = run.counters.get(k, 0) + v
            for v in r["violations"]:
                run.violation("under Miri: " + v["what"], mode="miri", shard=i, procs=procs, cases=cases * procs)
        else:
            m = re.search(r"error: (.*)", text)
            run.notes.append("a Miri worker ended with %s: %s" % (rc, m.group(1)[:200] if m else text[-200:]))
    run.counters["cases under Miri"] = run.cases - before


def compile_probe(run):
    b, out = build("probe")
    if b:
        run.counters["types the compiler found shareable"] = open(os.path.join(HERE, "probe/src/lib.rs")).read().count("shared::<")
        run.builds.append("Send/Sync probe")
        return
    if re.search(r"error\[E0277\]", out) and re.search(r"cannot be (sent|shared) between threads safely", out):
        at = out.index("error[E0277]")
        run.violation("the compiler finds that a type cannot be shared by threads\n" + out[at : at + 3000], mode="compile")
    else:
        raise Inconclusive("the Send/Sync probe does not build\n" + out[-3000:])


def processes(run, binary, digests, cases, seconds):
    """The same cases in other processes, in another order."""
    other = {}
    n = max(2, SHARDS - 3)
    before = run.cases
    ps = []
    for i in range(n):
        a = run.args(cases, shard=i, shards=n, reverse=1, digests=1, seconds=int(seconds))
        ps.append(Shard(binary, run.work, "rev%d" % i, a, None, 20000))
    for s in ps:
        if s.wait(seconds + 120) == "done":
            run.merge(s, mode="native")
            d = s.u64s(".digests")
            other.update(zip(d[::2], d[1::2]))
    n = 0
    for c, d in sorted(other.items()):
        if d and digests.get(c):
            n += 1
            if digests[c] != d:
                run.violation(
                    "case %d has other results in another process, after other cases" % c, case=c, mode="process"
                )
                break
    run.counters["cases compared between processes"] = n
    run.cases -= run.cases - before


def decide(run):
    b, out = build("native")
    if not b:
        raise Inconclusive("the harness does not build against /repo\n" + out[-4000:])
    binary = [b]
    run.builds.append("native, overflow checks and debug assertions on")
    quick = run.tier == "quick"
    cases = CASES[run.prop][0 if quick else 1]
    cases = int(os.environ.get("PF_CASES", cases))
    seconds = SECONDS[run.tier]
    probe(run, binary)
    if run.prop == "C20":
        run.sharded(binary, cases, seconds, only_ub=True)
        if not run.violations:
            asan(run, cases // 4, seconds / 2)
        if not run.violations:
            miri(run, 3 if quick else 60, 60 if quick else 900)
    elif run.prop == "C21":
        compile_probe(run)
        digests = {}
        if not run.violations:
            run.sharded(binary, cases, seconds, shards=max(2, SHARDS // 2), digests=digests, extra={"digests": 1})
        if not run.violations:
            processes(run, binary, digests, cases // 2, seconds / 2)
        if not run.violations:
            tsan(run, 160 if quick else 6000, 60 if quick else 600)
        if not run.violations:
            miri(run, 2 if quick else 40, 60 if quick else 600)
    else:
        run.sharded(binary, cases, seconds)
    if not run.violations:
        skipped = run.counters.get("cases skipped", 0)
        if run.cases == 0 or skipped > 0.9 * run.cases:
            raise Inconclusive("%d of %d cases could not be judged" % (skipped, run.cases))
        if len(run.distinct) < 100 and "PF_CASES" not in os.environ:
            raise Inconclusive("only %d distinct cases were observed" % len(run.distinct))


def evidence(run):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": run.evals,
            "distinct_nontrivial": len(run.distinct),
            "rule": RULES[run.prop],
            "samples": run.samples or ["none"],
            "cases": run.cases,
            "observed": dict(sorted(run.counters.items())),
            "builds": run.builds,
            "notes": run.notes + (["distinct cases counted up to a limit"] if run.distinct_capped else []),
            "known_findings_observed": run.known,
        },
        "assumptions": [
            "says nothing about inputs and interleavings that were not generated",
            "the reference models in harness/src are right",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(run.violations),
    }
    f = os.path.join(d, run.prop + ".json")
    with open(f + ".tmp", "w") as g:
        json.dump(e, g, indent=1)
    os.replace(f + ".tmp", f)


def finish(run):
    evidence(run)
    for n in run.notes:
        log("note:", n)
    for k in run.known:
        print(k)
    log("%d cases, %d evaluations, %d distinct" % (run.cases, run.evals, len(run.distinct)))
    if not run.violations:
        log("held on everything observed")
        return 0
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    for what, data in run.violations[:3]:
        r = {"property": run.prop, "seed": run.seed, "tier": run.tier, "what": what}
        r.update(data)
        name = hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()[:12]
        f = os.path.join(d, "%s-%s.json" % (run.prop, name))
        with open(f, "w") as g:
            json.dump(r, g, indent=1)
        print("VIOLATION property=%s replay=%s" % (run.prop, f), flush=True)
    return 1


def replay(run, file):
    """Runs what a replay file describes against the current tree."""
    with open(file) as f:
        r = json.load(f)
    run.seed, run.tier = r["seed"], r["tier"]
    mode = r.get("mode", "native")
    b, out = build("native")
    if not b:
        raise Inconclusive("the harness does not build against /repo\n" + out[-4000:])
    if mode == "probe":
        probe(run, [b])
    elif mode == "compile":
        compile_probe(run)
    elif mode == "miri":
        miri(run, r["cases"] // r["procs"], 600, r["procs"])
    elif mode == "process":
        digests = {}
        cases = CASES[run.prop][0 if run.tier == "quick" else 1]
        run.sharded([b], cases, 1500, shards=max(2, SHARDS // 2), digests=digests, extra={"digests": 1})
        processes(run, [b], digests, cases // 2, 1500)
    elif mode == "tsan":
        tsan(run, 400, 600)
    else:
        env = None
        if mode == "asan":
            b, out = build("asan")
            env = asan_env()
            if not b:
                raise Inconclusive(out[-2000:])
        for i in range(20 if run.prop == "C21" else 1):
            s = Shard([b], run.work, "replay", run.args(1, only=r["case"], verbose=1), env, 600000)
            st = s.wait(1800)
            print(s.text())
            if st == "done":
                run.merge(s, mode=mode)
            elif st in ("crash", "hang"):
                if run.prop != "C20" or is_ub(s):
                    run.violation("case %d: %s %s" % (r["case"], st, s.rc), case=r["case"], mode=mode)
            if run.violations:
                break
    if run.violations:
        print("VIOLATION property=%s replay=%s" % (run.prop, os.path.abspath(file)))
        return 1
    log("the replay shows no violation")
    return 0


def setup():
    for k in ("native", "probe", "asan", "tsan"):
        try:
            b, out = build(k)
        except subprocess.TimeoutExpired:
            b, out = None, "timeout"
        if not b:
            print(out[-3000:])
            if k == "native":
                return 1
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    if prop not in CASES:
        print("unknown property", prop)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "little")
    seed = abs(seed)
    run = Run(prop, tier, seed)
    try:
        if "--replay" in sys.argv:
            return replay(run, sys.argv[sys.argv.index("--replay") + 1])
        decide(run)
        return finish(run)
    except (Inconclusive, subprocess.TimeoutExpired, OSError) as x:
        if run.violations and not isinstance(x, OSError):
            return finish(run)
        log("INCONCLUSIVE:", str(x)[:6000])
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    sys.exit(main())
