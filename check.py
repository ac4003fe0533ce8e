#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py <property> [--tier quick|thorough] [--seconds S] [--seed N]
       check.py --replay <file>
       check.py --setup

exit 0: the property held on everything observed;
exit 1 and `VIOLATION property=<id> replay=<path>`: it is broken;
exit 2: this machinery failed (e.g. /repo doesn't build).
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPLR_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
TARGET = "x86_64-unknown-linux-gnu"
T0 = time.time()

DEFAULTS = ("unsafe_access trail_saving BT_deepen dynamic_restart_threshold LRB_rewarding "
            "reason_side_rewarding rephase reward_annealing two_mode_reduction "
            "clause_elimination clause_vivification").split()


def without(*names):
    return [f for f in DEFAULTS if f not in names]


# builds of the harness: profile, toolchain, sanitizer, features of splr (None: its defaults)
BUILDS = {
    "dbg": dict(),
    "rel": dict(release=True),
    "asan": dict(nightly=True, flags="-Zsanitizer=address", target=TARGET),
    "tsan": dict(nightly=True, flags="-Zsanitizer=thread", target=TARGET, std=True),
    "miri": dict(nightly=True, miri=True),
    # variants of splr's features
    "checked": dict(features=without("unsafe_access")),
    "slim": dict(features=["LRB_rewarding", "trail_saving"]),
    "no_elim": dict(features=without("clause_elimination")),
    "no_vivify": dict(features=without("clause_vivification", "reward_annealing")),
    "no_saving": dict(features=without("trail_saving", "BT_deepen")),
    "plain_bt": dict(features=without("BT_deepen", "dynamic_restart_threshold", "two_mode_reduction")),
    "no_rephase": dict(features=without("rephase", "reason_side_rewarding")),
    "bi_clause": dict(features=DEFAULTS + ["bi_clause_completion"]),
    "sls": dict(features=DEFAULTS + ["stochastic_local_search"], release=True),
    "sls_bi": dict(features=without("trail_saving") + ["stochastic_local_search", "bi_clause_completion"]),
    "no_io": dict(features=DEFAULTS + ["just_used", "no_io"]),
}

# workers per property: list of (build, number of workers) in the two tiers, seconds of running
SEARCH = [("dbg", 4), ("rel", 4)]
PLAN = {
    "P01": dict(quick=SEARCH),
    "P02": dict(quick=SEARCH),
    "P03": dict(quick=SEARCH, cli=True),
    "P04": dict(quick=SEARCH),
    "P05": dict(quick=SEARCH),
    "P06": dict(quick=SEARCH),
    "P07": dict(quick=[("dbg", 3), ("asan", 3), ("miri", 2)],
                thorough=[("dbg", 2), ("asan", 3), ("miri", 3)]),
    "P08": dict(quick=SEARCH),
    "P09": dict(quick=SEARCH),
    "P10": dict(quick=SEARCH),
    "P11": dict(quick=SEARCH),
    "P12": dict(quick=SEARCH),
    "P13": dict(quick=SEARCH),
    "P14": dict(quick=SEARCH),
    "P15": dict(quick=[("rel", 8)], cli=True),
    "P16": dict(quick=SEARCH, cli=True),
    "P17": dict(quick=SEARCH),
    "P18": dict(quick=SEARCH),
    "P19": dict(quick=SEARCH),
    "P20": dict(quick=SEARCH, thorough=[("dbg", 3), ("rel", 3), ("tsan", 2)]),
    "P21": dict(quick=SEARCH),
    "P22": dict(quick=SEARCH),
    "P23": dict(quick=[(b, 1) for b in ("checked", "slim", "no_elim", "no_saving", "bi_clause",
                                         "sls", "no_io", "no_vivify")],
                thorough=[(b, 1) for b in ("checked", "slim", "no_elim", "no_vivify", "no_saving",
                                           "plain_bt", "no_rephase", "bi_clause", "sls", "sls_bi",
                                           "no_io")]),
    "P24": dict(quick=SEARCH, cli=True),
    "P25": dict(quick=SEARCH, cli=True),
    "P26": dict(quick=SEARCH),
    "P27": dict(quick=SEARCH),
    "P28": dict(quick=SEARCH),
    "P29": dict(quick=SEARCH),
    "P30": dict(quick=SEARCH),
}
SECONDS = {"quick": 30, "thorough": 600}

# a run that never ends breaks these
PROGRESS = {"P01", "P02", "P06", "P13", "P19", "P23"}
# CPU seconds one case may take before it is looked at by itself, and then before it counts as endless.
# (the slowest cases of the unchanged tree take 3 to 4 s)
SLOW, ENDLESS = 40, 120
SLOW_MIRI = 250

RULES = {
    "P01": "random, structured and degenerate formulas (seeded); each satisfiable answer is evaluated against the clauses as given; non-trivial: a distinct formula answered SAT",
    "P02": "random, structured and degenerate formulas whose truth is known by construction, by exhaustive enumeration or by an independent reference solver; non-trivial: a distinct formula whose verdict was judged",
    "P03": "formulas solved with certification (library and command line); each proof is replayed by an independent DRAT checker against the clauses as given; non-trivial: a distinct formula refuted",
    "P04": "hooked solver runs; each learned, vivified or fixed fact is tested against the formula left by preprocessing (unit propagation, reference solver, known models); non-trivial: a distinct formula with learned facts judged",
    "P05": "hooked solver runs; at each simplification or reduction the kept clauses are compared with the original formula by a reference solver and models are extended by the solver's reconstruction; non-trivial: a distinct formula with a simplification judged",
    "P06": "all kinds of formulas and configurations solved to the end under a conflict budget with final model check; non-trivial: a distinct formula that was answered",
    "P07": "formulas and growing problems solved in builds that trap invalid accesses (debug assertions with checked unsafe preconditions and overflow checks, AddressSanitizer, Miri); non-trivial: a distinct formula solved",
    "P08": "hooked solver runs; at each propagation fixpoint all clauses are evaluated, at each conflict the reported clause is evaluated; non-trivial: a distinct formula with fixpoints judged",
    "P09": "hooked solver runs; at fixpoints and conflicts trail, reasons and levels are checked for consistency; non-trivial: a distinct formula with trails judged",
    "P10": "hooked solver runs; at fixpoints and answers every unassigned and not eliminated var must be a decision candidate; non-trivial: a distinct formula with candidates judged",
    "P11": "hooked solver runs; at quiescent points all clauses, watch lists, binary links, free slots and counters are cross-checked; non-trivial: a distinct formula with databases judged",
    "P12": "random API histories and vectors with valid and invalid literals, clauses and assignments, compared with a reference model of acceptance; non-trivial: a distinct history",
    "P13": "random histories of initial clauses, added vars, added clauses and assignments in several orders; verdict and model compared with the conjunction; non-trivial: a distinct history judged",
    "P14": "DIMACS texts with random layouts and with defects, loaded by the solver; clauses and verdict compared with the formula written, defects must be reported; non-trivial: a distinct text",
    "P15": "runs of the built command-line solver with random options and files; exit code, status lines, answer and proof file are cross-checked with each other and with the truth; non-trivial: a distinct formula",
    "P16": "assignments (models, near models, random, partial) given to the validation interface and dmcr in random layouts; verdicts compared with evaluation; non-trivial: a distinct case",
    "P17": "formulas built, loaded, extended, saved and reloaded by the CNF module; compared as clause sets and texts; non-trivial: a distinct formula",
    "P18": "problems with assignments dumped as CNF; text, counts and models compared with the problem; non-trivial: a distinct problem",
    "P19": "formulas solved under random valid configurations and limits; answers compared with the truth; non-trivial: a distinct formula and configuration answered",
    "P20": "the same problem solved repeatedly, after other problems, in parallel threads and by clones; answers, models and counters compared; non-trivial: a distinct formula compared",
    "P21": "the stage manager by itself and hooked solver runs; stages, cycles, segments, scales and lengths compared with the Luby series; non-trivial: a distinct run with stages",
    "P22": "literals over the whole range converted back and forth; texts of clauses compared with their integers; non-trivial: a distinct batch of literals or clause",
    "P23": "formulas, growing problems and proofs under builds with other features of splr; verdicts, models and proofs judged as in P01, P02, P03; non-trivial: a distinct formula answered",
    "P24": "random valid and invalid argument lists parsed by the real parser in a process of its own and compared with the documented meaning; help text against defaults; output flags of the command-line solver; non-trivial: a distinct argument list or run",
    "P25": "monitored runs of which every published number is compared with a recount at the events the monitor saw, and command-line reports with and without --quiet; non-trivial: a run with conflicts, or a report compared",
    "P26": "series of values fed to each kind of average and compared with the definition; solver runs whose published averages and ranks of learnt clauses are recomputed from the events; non-trivial: a distinct series or a run with conflicts",
    "P27": "solver runs in which every restart and reduction is compared with the settings, and reductions of every kind with random parameters, applied to copies of the database at the hook events, compared with a model; non-trivial: a run with conflicts",
    "P28": "hooked solver runs; at each event the phases of all vars are compared with the values they had, with the assignments at the best conflicts and with the decisions taken; non-trivial: a run with conflicts",
    "P29": "hooked solver runs (plain and with the steps of the search repeated by hand) under varied limits; every decision of the eliminator is recomputed from the clauses it looked at, the database is compared before and after each simplification; non-trivial: a run with conflicts",
    "P30": "hooked solver runs; at each conflict the monitor analyses the implication graph itself, and compares the learnt clause, the jump and the rewards with the result; non-trivial: a run with conflicts",
}

ASSUMPTIONS = [
    "the reference solver, evaluator and proof checker of the harness (independent of splr) are right",
    "observed executions only: nothing is said about inputs that were not generated",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def environment():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
            del e[k]
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    e["PATH"] = os.path.join(home, ".cargo/bin") + ":/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    e.pop("SPLR_TIMEOUT", None)
    return e


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, p) for p in ("src", "build.rs", "Cargo.toml", "Cargo.lock")]
    roots += [os.path.join(HARNESS, p) for p in ("src", "Cargo.toml", "Cargo.lock")]
    for r in roots:
        if os.path.isfile(r):
            files = [r]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs)
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


class BuildError(Exception):
    pass


def fresh(dir_, tree):
    """cargo compares times only, so that a stale product could be taken for a new one"""
    stamp = os.path.join(dir_, "tree.stamp")
    try:
        if open(stamp).read() == tree:
            return
    except OSError:
        pass
    for d, ds, _ in os.walk(dir_):
        for x in list(ds):
            if os.path.basename(d) == ".fingerprint" and x.startswith("splr"):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds.remove(x)
    try:
        os.remove(stamp)
    except OSError:
        pass


def stamp(dir_, tree):
    with open(os.path.join(dir_, "tree.stamp"), "w") as f:
        f.write(tree)


def run_cargo(cmd, cwd, env, limit=700):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=limit)
    except subprocess.TimeoutExpired:
        raise BuildError("build timed out: " + " ".join(cmd))
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(name, tree, hooked=True):
    b = BUILDS[name]
    d = os.path.join(BUILD, name if hooked else name + "-unhooked")
    os.makedirs(d, exist_ok=True)
    fresh(d, tree)
    env = environment()
    flags = (b.get("flags", "") + (" --cfg splr_verif" if hooked else "")).strip()
    env["RUSTFLAGS"] = flags
    env["CARGO_TARGET_DIR"] = d
    cmd = ["cargo"]
    if b.get("nightly"):
        cmd.append("+nightly")
    else:
        env.setdefault("RUSTUP_TOOLCHAIN", "stable")
    if b.get("nightly"):
        env.pop("RUSTUP_TOOLCHAIN", None)
    if b.get("miri"):
        env["MIRIFLAGS"] = MIRIFLAGS
        cmd += ["miri", "run", "--offline", "--locked", "--bin", "monitor", "--", "P07", "--count", "0"]
    else:
        cmd += ["build", "--offline", "--locked", "--bin", "monitor"]
        if b.get("std"):
            cmd = [c for c in cmd if c != "--locked"] + ["-Zbuild-std"]
        if b.get("release"):
            cmd.append("--release")
        if b.get("target"):
            cmd += ["--target", b["target"]]
        if b.get("features") is not None:
            fs = [f if f in ("trail_saving", "no_io", "bi_clause_completion") else "splr/" + f for f in b["features"]]
            cmd += ["--no-default-features", "--features", ",".join(fs)]
    run_cargo(cmd, HARNESS, env)
    stamp(d, tree)
    if b.get("miri"):
        return ("miri", env)
    path = os.path.join(d, b.get("target", ""), "release" if b.get("release") else "debug", "monitor")
    if not os.path.exists(path):
        raise BuildError("no monitor at " + path)
    return ("bin", path)


MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"


def build_cli(tree):
    d = os.path.join(BUILD, "cli")
    os.makedirs(d, exist_ok=True)
    fresh(d, tree)
    env = environment()
    env["CARGO_TARGET_DIR"] = d
    env["RUSTUP_TOOLCHAIN"] = "stable"
    run_cargo(["cargo", "build", "--offline", "--bins", "--config", "profile.dev.opt-level=2",
               "--config", "profile.dev.debug=0"], REPO, env)
    stamp(d, tree)
    return [os.path.join(d, "debug", b) for b in ("splr", "dmcr")]


def cpu_of(pid):
    """CPU seconds of one of our own workers"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12]) + int(t[13]) + int(t[14])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def limits(name):
    def f():
        os.setsid()
        if name not in ("asan", "tsan", "miri"):
            g = 6 << 30
            resource.setrlimit(resource.RLIMIT_AS, (g, g))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            with open("/proc/self/oom_score_adj", "w") as fh:
                fh.write("500")
        except OSError:
            pass
    return f


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out.append({"n": "\n", "r": "\r", "\\": "\\"}.get(s[i + 1], s[i + 1]))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Worker:
    """one monitor process and what it says"""

    def __init__(self, prop, built, name, tag, args, scratch):
        self.prop, self.name, self.tag, self.args = prop, name, tag, args
        self.dir = os.path.join(scratch, tag)
        os.makedirs(self.dir, exist_ok=True)
        env = environment()
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"
        env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        env["RUST_BACKTRACE"] = "0"
        if built[0] == "miri":
            env = dict(built[1], RUST_BACKTRACE="0")
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--bin", "monitor", "--"]
        else:
            cmd = [built[1]]
        cmd += [prop, "--tmp", self.dir] + args
        self.err = open(os.path.join(self.dir, "stderr.log"), "wb")
        self.p = subprocess.Popen(cmd, cwd=HARNESS if built[0] == "miri" else self.dir, env=env,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=self.err,
                                  preexec_fn=limits(name))
        self.current = None       # index of the case that is running
        self.since = 0.0          # CPU time when it began
        self.last = None
        self.case = None          # text of the case, if asked for
        self.begun = []           # indices begun, in order
        self.violations = []      # [index, message, witness]
        self.hashes = set()
        self.counts, self.maxima = {}, {}
        self.samples = []
        self.done = False
        self.stopped = None       # why we stopped it
        self.lock = threading.Lock()
        self.t = threading.Thread(target=self.read, daemon=True)
        self.t.start()

    def read(self):
        for raw in self.p.stdout:
            line = raw.decode("utf8", "replace").rstrip("\n")
            k, _, rest = line.partition(" ")
            with self.lock:
                if k == "B":
                    self.current = int(rest)
                    self.begun.append(self.current)
                    self.since = None
                elif k == "E":
                    self.current = None
                elif k == "V":
                    i, _, m = rest.partition(" ")
                    self.violations.append([int(i), unescape(m), ""])
                elif k == "W":
                    if self.violations and not self.violations[-1][2]:
                        self.violations[-1][2] = unescape(rest)
                elif k == "P":
                    self.case = unescape(rest)
                elif k == "H":
                    self.hashes.add(rest)
                elif k in ("N", "M"):
                    n, _, v = rest.partition(" ")
                    (self.counts if k == "N" else self.maxima)[n] = int(v)
                elif k == "X":
                    if len(self.samples) < 3:
                        self.samples.append(unescape(rest))
                elif k == "DONE":
                    self.done = True

    def busy(self):
        """CPU seconds spent in the present case"""
        c = cpu_of(self.p.pid)
        with self.lock:
            if self.current is None or c is None:
                return 0.0
            if self.since is None:
                self.since = c
            return c - self.since

    def kill(self, why):
        self.stopped = why
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def finish(self):
        self.p.wait()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.t.join(20)
        self.err.close()

    def stderr(self):
        try:
            with open(os.path.join(self.dir, "stderr.log"), "rb") as f:
                return f.read()[-20000:].decode("utf8", "replace")
        except OSError:
            return ""

    def ending(self):
        """None: as it should be; otherwise what happened"""
        if self.stopped or self.done and self.p.returncode == 0:
            return None
        rc = self.p.returncode
        text = self.stderr()
        for pat in (r"error: Undefined Behavior[^\n]*", r"ERROR: AddressSanitizer[^\n]*",
                    r"WARNING: ThreadSanitizer[^\n]*", r"unsafe precondition[^\n]*",
                    r"memory allocation of[^\n]*", r"has overflowed its stack[^\n]*",
                    r"panicked at [^\n]*(\n[^\n]*)?", r"error: unsupported operation[^\n]*"):
            m = re.search(pat, text)
            if m:
                return m.group(0).replace("\n", " / ")
        return "ended by signal %d" % -rc if rc < 0 else "ended with code %d" % rc


def known_findings():
    """lines `known: property=<id> match=<text>` of known_findings.txt"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) match=(.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, prop, tier, seed, seconds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.workers_plan = self.plan.get(tier) or self.plan["quick"]
        self.seconds = seconds or SECONDS[tier]
        self.notes = []
        self.found = []           # violations: dict(build, index, message, witness, how)
        self.unclear = []

    def prepare(self):
        tree = tree_hash()
        self.built, errors = {}, {}
        self.cli = None
        names = list(dict.fromkeys(b for b, _ in self.workers_plan))
        lock = threading.Lock()
        gate = threading.Semaphore(4)

        def job(name):
            with gate:
                try:
                    r = build_cli(tree) if name == "cli" else build(name, tree)
                except BuildError as e:
                    if name == "cli":
                        with lock:
                            errors[name] = str(e)
                        return
                    try:
                        r = build(name, tree, hooked=False)
                        with lock:
                            self.notes.append("build %s: hooks were not available" % name)
                    except BuildError as e2:
                        with lock:
                            errors[name] = str(e) + "\n" + str(e2)
                        return
                with lock:
                    if name == "cli":
                        self.cli = r
                    else:
                        self.built[name] = r

        jobs = names + (["cli"] if self.plan.get("cli") else [])
        ts = [threading.Thread(target=job, args=(n,)) for n in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for n, e in errors.items():
            log("build of %s failed:\n%s" % (n, e))
            self.notes.append("build %s failed" % n)
        if not self.built or "cli" in errors:
            return False
        self.tree = tree
        return True

    def seed_of(self, name):
        """each build gets cases of its own"""
        return self.seed + 100003 * list(BUILDS).index(name)

    def common(self, name):
        a = ["--seed", str(self.seed_of(name))]
        if self.cli:
            a += ["--splr", self.cli[0], "--dmcr", self.cli[1]]
        if self.tier == "thorough":
            a.append("--thorough")
        return a

    def launch(self, name, tag, extra):
        return Worker(self.prop, self.built[name], name, tag, self.common(name) + extra, self.scratch)

    def alone(self, name, index, limit):
        """one case by itself; returns (worker, ended in time)"""
        w = self.launch(name, "only-%s-%d-%d" % (name, index, len(os.listdir(self.scratch))),
                        ["--only", str(index), "--dump"])
        t = time.time()
        while w.p.poll() is None:
            if limit < (cpu_of(w.p.pid) or 0) or 3 * limit + 30 < time.time() - t or self.late(60):
                w.kill("slow")
                break
            time.sleep(0.1)
        w.finish()
        return w

    def late(self, spare=0):
        return self.deadline - spare < time.time()

    def go(self):
        self.scratch = tempfile.mkdtemp(prefix="splr-verif-")
        try:
            self.run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def run(self):
        self.deadline = T0 + (780 if self.tier == "quick" else 3 * self.seconds + 1500)
        slots = []
        for name, n in self.workers_plan:
            if name in self.built:
                slots += [name] * n
        # workers of the same build share one sequence of cases
        per = {n: slots.count(n) for n in slots}
        seen = {n: 0 for n in slots}
        live, over = [], []
        t0 = time.time()

        def start(name, k, first, left):
            tag = "%s-%d-%d" % (name, k, first)
            w = self.launch(name, tag, ["--start", str(first), "--step", str(per[name]),
                                        "--seconds", "%.1f" % left])
            w.slot, w.first = k, first
            live.append(w)

        for name in slots:
            k = seen[name]
            seen[name] += 1
            start(name, k, k, self.seconds)
        suspects = []
        while live:
            time.sleep(0.1)
            for w in list(live):
                slow = SLOW_MIRI if w.name == "miri" else SLOW
                if w.p.poll() is None:
                    if slow < w.busy():
                        w.kill("slow case")
                        suspects.append(("slow", w, w.current))
                    elif t0 + self.seconds + 2 * slow + 60 < time.time() or self.late(90):
                        w.kill("overtime")
                        self.unclear.append("worker %s was stopped" % w.tag)
                    else:
                        continue
                w.finish()
                live.remove(w)
                over.append(w)
                if w.ending() is not None:
                    suspects.append(("crash", w, w.current))
                if (w.ending() is not None or w.stopped == "slow case") and w.begun:
                    # the rest of its sequence
                    left = t0 + self.seconds - time.time()
                    again = len([s for s in suspects if s[1].slot == w.slot and s[1].name == w.name])
                    if 2 < left and again < 4:
                        start(w.name, w.slot, w.begun[-1] + per[w.name], left)
        self.over = over
        for w in over:
            for i, m, wit in w.violations:
                self.found.append(dict(build=w.name, index=i, message=m, witness=wit, how="monitor"))
        self.found.sort(key=lambda v: len(v["witness"]))
        if len(self.found) < 3:
            for kind, w, index in suspects[:6]:
                if self.late(150):
                    self.unclear.append("a suspect case wasn't examined")
                    continue
                self.examine(kind, w, index, per)

    def examine(self, kind, w, index, per):
        what = w.ending() or "slow"
        if index is None:
            if kind == "crash":
                self.unclear.append("worker %s: %s outside of any case" % (w.tag, what))
            return
        if "unsupported operation" in what or w.p.returncode == -signal.SIGKILL and kind == "crash":
            # e.g. the memory of the sandbox ran out
            self.unclear.append("case %d of %s: %s" % (index, w.name, what))
            return
        limit = SLOW_MIRI * 2 if w.name == "miri" else ENDLESS
        a = self.alone(w.name, index, limit)
        for i, m, wit in a.violations:
            self.found.append(dict(build=w.name, index=i, message=m, witness=wit, how="monitor"))
        if a.stopped:
            if self.prop in PROGRESS and w.name not in ("miri", "asan", "tsan") and not self.late(60):
                self.found.append(dict(build=w.name, index=index, witness=self.witness(a, index),
                                       message="no end after %d s of CPU time" % limit, how="endless"))
            else:
                self.unclear.append("case %d of %s takes more than %d s" % (index, w.name, limit))
        elif a.ending() is not None:
            self.found.append(dict(build=w.name, index=index, witness=self.witness(a, index),
                                   message=a.ending(), how="crash",
                                   detail=a.stderr()[-6000:]))
        elif kind == "crash":
            # perhaps it needs the cases before it
            b = self.launch(w.name, "again-%s" % w.tag,
                            ["--start", str(w.first), "--step", str(per[w.name]), "--seconds", "300",
                             "--count", str(len(w.begun))])
            t = time.time()
            while b.p.poll() is None:
                if 300 < time.time() - t or self.late(60):
                    b.kill("slow")
                time.sleep(0.1)
            b.finish()
            if b.ending() is not None:
                self.found.append(dict(build=w.name, index=index, witness=self.witness(a, index),
                                       message=b.ending(), how="crash",
                                       sequence=[w.first, per[w.name], len(w.begun)],
                                       detail=b.stderr()[-6000:]))
            else:
                self.unclear.append("case %d of %s: %s, but not again" % (index, w.name, what))

    def witness(self, w, index):
        return w.case or "case %d of seed %d, build %s" % (index, self.seed_of(w.name), w.name)

    def report(self, wall):
        known, fresh_ = [], []
        for v in self.found:
            hit = [k for p, k in known_findings() if p == self.prop and k in v["message"] + "\n" + v["witness"]]
            if hit:
                known += hit
            else:
                fresh_.append(v)
        for k in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        counts, maxima, hashes, samples, ev = {}, {}, set(), [], 0
        builds = {}
        for w in self.over:
            for k, v in w.counts.items():
                if k == "evaluations":
                    ev += v
                    builds[w.name] = builds.get(w.name, 0) + v
                else:
                    counts[k.replace("_", " ")] = counts.get(k.replace("_", " "), 0) + v
            for k, v in w.maxima.items():
                k = k.replace("_", " ")
                maxima[k] = max(maxima.get(k, 0), v)
            hashes |= w.hashes
            if len(samples) < 6:
                samples += w.samples[:1]
        cov = {
            "evaluations": ev,
            "distinct_nontrivial": len(hashes),
            "rule": RULES[self.prop],
            "samples": samples or ["none"],
            "observed": dict(sorted(counts.items())),
            "maxima": dict(sorted(maxima.items())),
            "evaluations_per_build": builds,
            "workers": len(self.over),
        }
        notes = self.notes + self.unclear
        if notes:
            cov["inconclusive"] = notes[:20]
        out = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(wall, 1),
            "violations": len(fresh_),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
            f.write("\n")
        log("%s: %d evaluations, %d distinct, %d violations, %.0f s%s" % (
            self.prop, ev, len(hashes), len(fresh_), wall, "; " + "; ".join(notes[:5]) if notes else ""))
        if fresh_:
            d = os.path.join(EVIDENCE, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            v = dict(fresh_[0], property=self.prop, seed=self.seed, tier=self.tier,
                     others=[dict(build=x["build"], index=x["index"], message=x["message"][:300])
                             for x in fresh_[1:8]])
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)))
            print("  build %s, case %d: %s" % (v["build"], v["index"], v["message"][:1000].replace("\n", " / ")))
            return 1
        if ev == 0 or not hashes:
            log("nothing was observed")
            return 2
        return 0


def replay(path):
    v = json.load(open(path))
    c = Check(v["property"], v["tier"], v["seed"], None)
    c.workers_plan = [(v["build"], 1)]
    if not c.prepare():
        return 2
    c.scratch = tempfile.mkdtemp(prefix="splr-verif-")
    c.deadline = time.time() + 3000
    try:
        if "sequence" in v:
            s = v["sequence"]
            w = c.launch(v["build"], "replay", ["--start", str(s[0]), "--step", str(s[1]), "--seconds", "3000",
                                                "--count", str(s[2])])
            w.finish()
        else:
            w = c.alone(v["build"], v["index"], 1000)
        for i, m, wit in w.violations:
            print("case %d: %s\n%s" % (i, m, wit))
        if w.ending() or w.stopped:
            print(w.ending() or w.stopped)
            print(w.stderr()[-3000:])
        bad = bool(w.violations or w.ending() or w.stopped)
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


def setup():
    """builds once; every check builds again what it needs"""
    tree = tree_hash()
    try:
        for n in ("dbg", "rel"):
            build(n, tree)
        build_cli(tree)
    except BuildError as e:
        log(str(e))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        return setup()
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop, tier = a[0], os.environ.get("VERIF_TIER", "quick")
    seed, seconds = int(os.environ.get("VERIF_SEED", "1") or 1), None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seconds":
            seconds = float(a[i + 1])
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        i += 2
    if tier not in SECONDS:
        tier = "quick"
    c = Check(prop, tier, seed, seconds)
    if not c.prepare():
        return 2
    log("%s: built in %.0f s" % (prop, time.time() - T0))
    c.go()
    return c.report(time.time() - T0)


if __name__ == "__main__":
    sys.exit(main())
