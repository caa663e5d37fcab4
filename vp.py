#!/usr/bin/env python3
"""Builds what a check needs from /repo's current tree, runs its workload in supervised worker
processes, merges what the monitors observed and gives the verdict.

    vp.py ID                    one check, tier from VERIF_TIER, seed from VERIF_SEED
    vp.py ID --only CASE        repeat one case (what a replay file says to do)
    vp.py setup                 build everything

exit 0: held on everything observed; 1: VIOLATION line; 2: no verdict (build or harness trouble)
"""
import fcntl, hashlib, json, os, re, resource, signal, subprocess, sys, tempfile, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")
NSHARDS = 8
GB = 1 << 30

# id -> how it runs.  cases: (quick, thorough); cap: seconds per worker after which no new case starts
RUST = {
    #        bin    quick   thorough  floor (distinct non-trivial inputs without which nothing is claimed)
    "F01": ("f01", 12000, 250000, 300),
    "F02": ("f02", 60000, 1200000, 1000),
    "F03": ("f03", 30000, 500000, 300),
    "F04": ("f04", 30000, 250000, 300),
    "L01": ("l01", 40000, 1200000, 300),
    "L02": ("l02", 300000, 6000000, 300),
    "L03": ("l03", 30000, 1000000, 300),
    "L04": ("l04", 30000, 1000000, 300),
    "L05": ("l05", 20000, 500000, 300),
    "P01": ("p01", 60000, 1500000, 300),
    "P02": ("p02", 25000, 500000, 300),
    "P03": ("p03", 40000, 1000000, 100),
    "P04": ("p04", 40000, 1000000, 100),
    "P05": ("p05", 15000, 400000, 100),
    "G01": ("g01", 480, 12000, 20),
    "G03": ("g03", 3000, 60000, 100),
    "G04": ("g04", 800, 20000, 100),
    "P06": ("p06", 20000, 500000, 300),
    "P07": ("p07", 30000, 500000, 300),
}
TS = {
    "C01": ("c01", 2400, 12000, 50),
    "C02": ("c02", 2000, 16000, 30),
    "C03": ("c03", 600, 12000, 20),
    "C04": ("c04", 900, 8000, 50),
    "C05": ("c05", 400, 8000, 30),
    "C06": ("c06", 200, 3000, 20),
    "C08": ("c08", 400, 8000, 30),
    "C09": ("c09", 1200, 16000, 100),
    "C07": ("c07", 200, 4000, 50),
}
ALL = list(RUST) + list(TS) + ["G02"]

RULES = {
    "F01": "random grammars printed in random layouts with hostile literals, regexes and TypeScript fragments; non-trivial: at least one production, compared symbol by symbol",
    "F02": "well-formed, mutated, truncated, spliced and arbitrary texts; non-trivial: a non-empty text on which the second reader decides well-formedness",
    "F03": "random and template grammars; non-trivial: at least one symbol, all lookups and the symbol order compared",
    "F04": "grammars with planted defects (and controls); non-trivial: the defect analysis says the grammar has to be refused",
    "L01": "random regexes with strings built from the regex, mutated; non-trivial: the string is not empty or accepted",
    "L02": "random range sets, regex automata and lexers; non-trivial: more than one range overlaps or an automaton has edges",
    "L03": "random token sets and inputs; non-trivial: the reference finds at least one token",
    "L04": "token sets with overlapping kinds; non-trivial: a token of the input is matched by several kinds",
    "L05": "grammars and token sequences; non-trivial: at least one token converted",
    "P01": "grammar and symbol sequence pairs; non-trivial: the grammar has a nonterminal in the sequence",
    "P02": "grammars with their verdict decided by the reference constructions; non-trivial: more than one rule",
    "P03": "LALR(1) grammars compared entry by entry; non-trivial: more than three table entries",
    "P04": "grammars whose canonical and merged states are compared; non-trivial: more than one state",
    "P05": "(grammar, text) pairs; non-trivial: the text is not empty",
    "P07": "grammars that are not LALR(1); each once, all of them judged",
    "P06": "(grammar, refused text) pairs; each pair once, all of them judged",
    "G04": "(grammar, text) pairs used in histories, on threads and in fresh processes; non-trivial: the text is not blank",
    "C01": "(token set, input) pairs read back from the generated module; non-trivial: the input has at least one token",
    "C02": "grammars whose generated module is read back; non-trivial: more than three actions",
    "C03": "annotated grammars whose generated modules are type-checked; non-trivial: both modules were checked",
    "C04": "(token set, input) pairs evaluated by the type checker; non-trivial: the input has at least one token",
    "C05": "(grammar, input) pairs evaluated by the type checker; non-trivial: the input is in the language",
    "C08": "(grammar, input) pairs evaluated by the type checker; non-trivial: the input is in the language, its values fit or do not fit their annotations",
    "C09": "(grammar, refused text) pairs evaluated by the type checker; each pair once, all of them judged",
    "C06": "table sizes and supported characters; non-trivial: a non-empty table, a character",
    "C07": "type-level operations on concrete arguments; each expression once",
    "G01": "grammars generated repeatedly over processes, threads and histories; non-trivial: modules were generated and compared byte for byte",
    "G02": "workload cases executed under Miri, AddressSanitizer, MemorySanitizer and, on several threads, ThreadSanitizer; each case and tool once",
    "G03": "long, large and hostile grammars, regexes, texts and sources run under time and stack supervision; non-trivial: the operation ran to an outcome that was classified",
}
ASSUME = {
    "*": ["rustc, cargo and the Rust standard library behave as documented"],
    "L01": ["the regex-syntax crate parses regexes as documented; the matcher of the harness and the regex crate agree (cross-checked on every string)"],
    "TS": ["TypeScript 5.9.3 is the type checker; other versions may differ"],
    "G02": ["what the sanitizers can see: Miri's model of Rust, ASan's red zones, MSan's shadow"],
}


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    """Content of everything the build reads. Modification times say nothing here: the tree may have
    been copied, patched or restored."""
    h = hashlib.sha256()
    files = []
    for base in (REPO, HARNESS):
        for root, dirs, names in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
            files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        if not f.endswith((".rs", ".toml", ".lock", ".lalrpop", ".ts", ".json")):
            continue
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def run_cmd(cmd, env=None, cwd=HARNESS, timeout=840):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise NoVerdict("timed out: " + " ".join(cmd))


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".vp-lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def fresh(target):
    """Forget what was built from another tree."""
    stamp = os.path.join(target, ".vp-stamp")
    now = tree_hash()
    old = None
    if os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read().strip()
    if old != now and os.path.isdir(target):
        for tc in ([], ["+nightly"]):
            run_cmd(["cargo"] + tc + ["clean", "--offline", "-p", "typelalr", "-p", "harness", "--target-dir", target])
            if target == TARGET:
                break
        for root, dirs, names in os.walk(target):
            # cargo clean -p leaves other triples alone: drop their fingerprints too
            for d in list(dirs):
                if os.path.basename(root) == ".fingerprint" and (d.startswith("typelalr-") or d.startswith("harness-")):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    return stamp, now


def build(cmd, target, env=None):
    with Lock():
        stamp, now = fresh(target)
        r = run_cmd(cmd, env)
        if r.returncode != 0:
            raise NoVerdict("build failed: " + " ".join(cmd) + "\n" + r.stderr[-3000:])
        if tree_hash() != now:
            # building regenerates nothing tracked; if something moved, the next run starts clean
            now = "moved"
        with open(stamp, "w") as f:
            f.write(now)
    return r


def build_bin(name):
    build(["cargo", "build", "--offline", "--bin", name], TARGET)
    return os.path.join(TARGET, "debug", name)


# ------------------------------------------------------------------ workers
def limits(mem):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Worker:
    def __init__(self, cmd, out, env=None, mem=None, cwd=None):
        self.cmd, self.out, self.env, self.mem, self.cwd = cmd, out, env, mem, cwd
        self.rc, self.err, self.timed_out = None, "", False

    def run(self, timeout):
        for ext in ("", ".cur", ".hang", ".input"):
            try:
                os.unlink(self.out + ext)
            except OSError:
                pass
        e = dict(os.environ)
        e.update(self.env or {})
        errf = open(self.out + ".err", "wb")
        p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL, env=e, cwd=self.cwd, preexec_fn=limits(self.mem))
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            p.wait()
        self.rc = p.returncode
        errf.close()
        with open(self.out + ".err", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 200000))
            self.err = f.read().decode("utf-8", "replace")
        return self

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def current(self):
        try:
            with open(self.out + ".cur") as f:
                return int(f.read().strip())
        except (OSError, ValueError):
            return None


def run_all(workers, timeout):
    ts = [threading.Thread(target=w.run, args=(timeout,)) for w in workers]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


class Judge:
    """The TypeScript side of one shard. The type checker may take exponentially long or run out of
    memory on a program it is right to accept; such a job is given up, counted, and the next begun
    in a new process."""
    JOB_CPU = 20

    def __init__(self, g, tmp, cap):
        self.g, self.tmp, self.cap = g, tmp, cap
        self.parts, self.trouble, self.gave_up = [], [], 0

    def cpu(self, pid):
        try:
            with open(f"/proc/{pid}/stat") as f:
                p = f.read().rsplit(")", 1)[1].split()
            return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def run(self, timeout):
        t0, start, k = time.time(), 0, 0
        while True:
            out = f"{self.g.out}.judge{k}"
            k += 1
            left = self.cap - (time.time() - t0)
            cmd = ["node", "--stack-size=4000", "--max-old-space-size=3000", os.path.join(HERE, "ts", "judge.mjs"), "--jobs", self.g.out + ".jobs", "--arith", self.g.out + ".arith", "--out", out, "--cap", str(max(1, left)), "--from", str(start)]
            with open(out + ".err", "wb") as errf:
                p = subprocess.Popen(cmd, cwd=self.tmp, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL, preexec_fn=limits(None))
                at, since, slow = start, 0.0, False
                while p.poll() is None:
                    time.sleep(0.3)
                    try:
                        with open(out + ".cur") as f:
                            now = int(f.read().strip() or at)
                    except (OSError, ValueError):
                        now = at
                    used = self.cpu(p.pid)
                    if now != at:
                        at, since = now, used
                    if used - since > self.JOB_CPU or time.time() - t0 > timeout:
                        slow = True
                        p.kill()
                        p.wait()
            try:
                with open(out) as f:
                    self.parts.append(json.load(f))
            except (OSError, ValueError):
                pass
            if not slow and p.returncode in (0, 1):
                return
            if time.time() - t0 > timeout:
                self.trouble.append("the TypeScript side did not finish in time")
                return
            if not slow and p.returncode == 3:
                with open(out + ".err", "rb") as f:
                    self.trouble.append("TypeScript side: " + str((self.parts[-1:] or [{}])[0].get("error") or f.read()[-1500:]))
                return
            # slow, or dead (out of memory, say)
            try:
                with open(out + ".cur") as f:
                    at = int(f.read().strip())
            except (OSError, ValueError):
                with open(out + ".err", "rb") as f:
                    self.trouble.append(f"TypeScript side ended with {p.returncode}: {f.read()[-1500:]}")
                return
            self.gave_up += 1
            start = at + 1


# ------------------------------------------------------------------ merging
class Merged:
    def __init__(self):
        self.evaluations, self.distinct, self.counters, self.samples = 0, set(), {}, []
        self.violations = []  # (case, message, input)

    def add(self, r, tag=""):
        self.evaluations += r["evaluations"]
        self.distinct |= set(tag + d for d in r["distinct"])
        for k, v in r["counters"].items():
            k = tag + k
            self.counters[k] = max(self.counters.get(k, 0), v) if "max_" in k else self.counters.get(k, 0) + v
        self.samples += r["samples"]
        if r["violation"]:
            v = r["violation"]
            self.violations.append((v["case"], v["message"], v["input"]))

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


def died(w):
    """Why a worker ended without a result, if that is the doing of the code it ran."""
    if w.rc == 97:
        return "no end within the CPU-time budget of one case"
    if w.rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, 134, 139):
        tail = [l for l in w.err.splitlines() if l.strip()][-3:]
        return f"the process died (status {w.rc}): " + " / ".join(tail)[-600:]
    return None


def supervise(m, make, workers, timeout):
    """Run the workers; a death is confirmed by repeating the case alone in a fresh process."""
    run_all(workers, timeout)
    inconclusive = []
    for w in workers:
        r = w.result()
        if r is not None and w.rc in (0, 1):
            m.add(r)
            continue
        if w.timed_out:
            inconclusive.append("a worker did not finish in time")
            continue
        why = died(w)
        cur = w.current()
        if why is None or cur is None:
            err = (r or {}).get("error")
            inconclusive.append(f"worker ended with {w.rc}: {err or w.err[-1500:]}")
            continue
        again = make(cur).run(min(timeout, 240))
        r2 = again.result()
        if r2 is not None and again.rc == 1:
            m.add(r2)
        elif died(again):
            try:
                with open(again.out + ".input") as f:
                    inp = f.read()
            except OSError:
                inp = "(the case died before its input was recorded)"
            m.violations.append((cur, died(again), inp))
        else:
            # not by itself: the cases before it in the same process may be what it takes
            hist = Worker([w.out + "h" if c == w.out else c for c in w.cmd], w.out + "h", w.env, w.mem, w.cwd).run(timeout)
            if died(hist) and hist.current() == cur:
                m.violations.append((cur, died(hist) + " (twice, after the same earlier cases in one process; not when run alone)", "history: " + " ".join(w.cmd)))
            else:
                inconclusive.append(f"case {cur}: {why}; repeated alone it ended with {again.rc}, after the same cases with {hist.rc}")
    return inconclusive


# ------------------------------------------------------------------ known findings
def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                mm = re.match(r"open: property=(\S+) key=(\S+) (.*)", l.strip())
                if mm:
                    out[(mm.group(1), mm.group(2))] = mm.group(3)
    return out


# ------------------------------------------------------------------ the checks
def rust_check(pid, m, seed, tier, only, tmp):
    name, q, t, floor = RUST[pid]
    exe = build_bin(name)
    n = t if tier == "thorough" else q
    cap = 2400 if tier == "thorough" else 240

    def mk(shard, only=None):
        out = os.path.join(tmp, f"w{shard if only is None else 'only%d' % only}")
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(NSHARDS), "--cases", str(n), "--cap", str(cap), "--out", out]
        if only is not None:
            cmd += ["--only", str(only)]
        return Worker(cmd, out, mem=6 * GB, cwd=tmp)
    ws = [mk(0, only)] if only is not None else [mk(s) for s in range(NSHARDS)]
    return supervise(m, lambda c: mk(0, c), ws, cap + 240), floor


def regenerated_chars(tmp):
    """ts/chars.ts as the current source generates it: only the crate's own test does that."""
    with Lock():
        stamp, now = fresh(TARGET)
        r = run_cmd(["cargo", "test", "--no-run", "--offline", "-p", "typelalr", "--lib", "--message-format=json"])
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(now)
    exe = None
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("executable") and j.get("target", {}).get("name") == "typelalr":
            exe = j["executable"]
    if r.returncode != 0 or not exe:
        return None
    d = os.path.join(tmp, "chars")
    os.makedirs(os.path.join(d, "ts"))
    try:
        subprocess.run([exe, "--exact", "codegen::lex_gen::test::generate__"], cwd=d, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return None
    f = os.path.join(d, "ts", "chars.ts")
    return f if os.path.exists(f) else None


def ts_check(pid, m, seed, tier, only, tmp):
    mode, q, t, floor = TS[pid]
    exe = build_bin("cgen")
    n = t if tier == "thorough" else q
    cap = 2400 if tier == "thorough" else 300
    extra = ["--mode", mode]
    if pid == "C06":
        extra += ["--chars", os.path.join(REPO, "ts", "chars.ts")]
        f = regenerated_chars(tmp)
        if f:
            extra += ["--chars-new", f]
        else:
            m.count("regenerated_character_tables_unavailable")

    def mk(shard, only=None):
        out = os.path.join(tmp, f"g{shard if only is None else 'only%d' % only}")
        for ext in (".jobs", ".arith"):
            if os.path.exists(out + ext):
                os.unlink(out + ext)
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(NSHARDS), "--cases", str(n), "--cap", str(cap), "--out", out] + extra
        if only is not None:
            cmd += ["--only", str(only)]
        return Worker(cmd, out, mem=6 * GB, cwd=tmp)
    gen = Merged()
    gs = [mk(0, only)] if only is not None else [mk(s) for s in range(NSHARDS)]
    inc = supervise(gen, lambda c: mk(0, c), gs, cap + 240)
    for k, v in gen.counters.items():
        m.count("generation: " + k if not k.startswith("known:") else k, v)
    m.violations += gen.violations

    js = [Judge(g, tmp, cap) for g in gs]
    run_all(js, cap + 240)
    for w in js:
        for r in w.parts:
            m.add(r)
        if w.gave_up:
            m.count("jobs_given_up_beyond_the_type_checker", w.gave_up)
        inc += w.trouble
    return inc, floor


def g02_check(pid, m, seed, tier, only, tmp):
    thorough = tier == "thorough"
    inc = []
    reports = []
    base = lambda out, shard, n, cap: ["--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(NSHARDS), "--cases", str(n), "--cap", str(cap), "--out", out]

    def judge(w, tool, pat):
        r = w.result()
        if "FATAL: ThreadSanitizer" in w.err:
            m.count("tsan: could not start here")
            return
        mm = re.search(pat, w.err)
        if mm and "stack-overflow" not in mm.group(0):
            at = max(0, mm.start() - 200)
            reports.append((w.current(), tool, w.err[at:at + 6000]))
            return
        if "unsafe precondition(s) violated" in w.err and w.rc not in (0, 1):
            i = w.err.index("unsafe precondition(s) violated")
            reports.append((w.current(), tool, w.err[max(0, i - 500):i + 3000]))
            return
        if r is not None and w.rc == 0:
            m.add(r, tag=tool + ": ")
            return
        if r is not None and w.rc == 1:
            # an internal error of the code under test, not a memory error
            m.add({**r, "violation": None}, tag=tool + ": ")
            m.count(tool + ": stopped at an internal error (judged by G03)")
            return
        inc.append(f"{tool}: worker ended with {w.rc}{' (out of time)' if w.timed_out else ''} at case {w.current()}: {w.err[-800:]}")

    def stage(tool, workers, timeout, pat):
        run_all(workers, timeout)
        for w in workers:
            judge(w, tool, pat)

    # AddressSanitizer and MemorySanitizer: compiled, so the full workload
    triple = "x86_64-unknown-linux-gnu"
    for tool, flags, more, envk, n, opts, args in (
        ("asan", "-Zsanitizer=address", [], "ASAN_OPTIONS", 30000 if thorough else 1600, "detect_leaks=0:abort_on_error=0:exitcode=66", []),
        ("msan", "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg has_std", ["-Zbuild-std"], "MSAN_OPTIONS", 20000 if thorough else 1200, "exitcode=66", []),
        ("tsan", "-Zsanitizer=thread --cfg has_std", ["-Zbuild-std"], "TSAN_OPTIONS", 8000 if thorough else 400, "exitcode=66", ["--threads", "1"]),
    ):
        target = os.path.join(TARGET, tool)
        build(["cargo", "+nightly", "build", "--offline", "--bin", "g02", "--target", triple, "--target-dir", target] + more, target, {"RUSTFLAGS": flags})
        exe = os.path.join(target, triple, "debug", "g02")
        cap = 900 if thorough else 40 if args else 60
        ws = []
        for s in ([0] if only is not None else range(NSHARDS)):
            out = os.path.join(tmp, f"{tool}{s}")
            cmd = [exe] + base(out, s, n, cap) + args + (["--only", str(only)] if only is not None else [])
            ws.append(Worker(cmd, out, env={envk: opts}, cwd=tmp))
        stage(tool, ws, cap + 120, r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer): (?!DEADLYSIGNAL)[^\n]*")
        if reports:
            break
    # Miri: interpreted, so small cases; one process also reads grammar sources
    if not reports:
        target = os.path.join(TARGET, "miri")
        env = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "g02", "--target-dir", target, "--"]
        build(cmd + ["--cases", "0", "--out", os.path.join(tmp, "miri-none")], target, env)
        n, cap = (1600, 2000) if thorough else (64, 60)
        ws = []
        for s in ([0] if only is not None else range(NSHARDS)):
            out = os.path.join(tmp, f"miri{s}")
            extra = [] if s == NSHARDS - 1 else ["--no-reader", "1"]
            c = cmd + base(out, s, n, cap) + extra + (["--only", str(only)] if only is not None else [])
            ws.append(Worker(c, out, env=env, cwd=HARNESS))
        if only is None:
            out = os.path.join(tmp, "miri-threads")
            ws.append(Worker(cmd + base(out, 0, NSHARDS * (6 if thorough else 1), cap) + ["--threads", "1"], out, env=env, cwd=HARNESS))
        stage("miri", ws, cap + 420, r"Undefined Behavior: [^\n]*")
    for cur, tool, text in reports[:1]:
        m.violations.append((cur, f"{tool} reports: {text.strip()[:3000]}", f"case {cur} of the G02 workload under {tool}, seed {seed}"))
    return inc, 100


def check(pid, only=None):
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    m = Merged()
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"vp-{pid}-")
    try:
        f = rust_check if pid in RUST else ts_check if pid in TS else g02_check
        inc, floor = f(pid, m, seed, tier, only, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    listed = known_findings()
    known = []
    for k in [k for k in m.counters if k.startswith("known:")]:
        _, p, key = k.split(":", 2)
        m.counters.pop(k)
        if (p, key) in listed:
            known.append(f"KNOWN-FINDING: property={p} {key}: {listed[(p, key)]}")
        else:
            m.violations.append((0, f"finding {key} reproduces and is not listed", key))
    for l in known:
        print(l)

    if only is None:
        cov = {
            "evaluations": m.evaluations,
            "distinct_nontrivial": len(m.distinct),
            "rule": RULES[pid],
            "samples": [s[:1500] for s in m.samples[:3]],
            "observed": dict(sorted(m.counters.items())),
            "known_findings_reproduced": len(known),
        }
        if inc:
            cov["inconclusive"] = [i[:2000] for i in inc]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ASSUME["*"] + ASSUME.get(pid, []) + (ASSUME["TS"] if pid in TS else []),
            "wall_s": round(time.time() - t0, 2), "violations": len(m.violations),
        }
        tmpf = os.path.join(EVID, f".{pid}.tmp")
        with open(tmpf, "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        os.replace(tmpf, os.path.join(EVID, f"{pid}.json"))

    if m.violations:
        case, msg, inp = sorted(m.violations, key=lambda v: (v[0] is None, v[0] or 0))[0]
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-seed{seed}-case{case}.txt")
        with open(path, "w") as fh:
            fh.write(f"property {pid}\nrepeat: cd {HERE} && VERIF_SEED={seed} VERIF_TIER={tier} python3 vp.py {pid} --only {case}\n\nobserved\n{msg}\n\ninput\n{inp}\n")
        print(msg[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if inc:
        log("\n".join(i[:3000] for i in inc))
        print(f"{pid}: no verdict")
        return 2
    if only is None and len(m.distinct) < floor:
        print(f"{pid}: no verdict, only {len(m.distinct)} distinct non-trivial inputs were observed (at least {floor} are needed)")
        return 2
    print(f"{pid}: held on {m.evaluations} evaluations, {len(m.distinct)} distinct and non-trivial ({tier}, seed {seed}, {time.time() - t0:.0f} s)")
    return 0


def setup():
    build(["cargo", "build", "--offline", "--bins"], TARGET)
    print("harness built")
    tmp = tempfile.mkdtemp(prefix="vp-setup-")
    try:
        regenerated_chars(tmp)
        triple = "x86_64-unknown-linux-gnu"
        for tool, flags, more in (("asan", "-Zsanitizer=address", []), ("msan", "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg has_std", ["-Zbuild-std"]), ("tsan", "-Zsanitizer=thread --cfg has_std", ["-Zbuild-std"])):
            target = os.path.join(TARGET, tool)
            build(["cargo", "+nightly", "build", "--offline", "--bin", "g02", "--target", triple, "--target-dir", target] + more, target, {"RUSTFLAGS": flags})
            print(tool, "built")
        target = os.path.join(TARGET, "miri")
        build(["cargo", "+nightly", "miri", "run", "--offline", "--bin", "g02", "--target-dir", target, "--", "--cases", "0", "--out", os.path.join(tmp, "m")], target, {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"})
        print("miri built")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return setup()
        if len(a) >= 1 and a[0] in ALL:
            return check(a[0], int(a[2]) if len(a) == 3 and a[1] == "--only" else None)
        log(__doc__)
        return 2
    except NoVerdict as e:
        log(str(e))
        print("no verdict:", str(e).splitlines()[0])
        return 2


if __name__ == "__main__":
    sys.exit(main())
