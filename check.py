#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py C01            quick or thorough by VERIF_TIER (or --tier), seed from VERIF_SEED
  check.py C01 --replay evidence/replay/C01.json    runs the reported cases again

Exit 0: the property held on everything explored. Exit 1: violated, with a VIOLATION line.
Exit 2: no answer (build failure, harness error, time or memory ran out).
"""
import argparse, concurrent.futures, json, math, os, random, re, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("GQMON_TARGET") or os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
REPO = "/repo"

STABLE = "stable"
NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"

# name -> (cargo features of the harness, profile, toolchain, RUSTFLAGS, extra cargo arguments)
VARIANTS = {
    "libm": ("b_libm", "release", STABLE, "", []),
    "std": ("b_std,par", "release", STABLE, "", []),
    "libm-checked": ("b_libm", "checked", STABLE, "", []),
    "std-checked": ("b_std,par", "checked", STABLE, "", []),
    "all": ("b_libm,b_std,par,f_serde,f_rkyv,f_zerocopy", "release", STABLE, "", []),
    "libm-serde": ("b_libm,f_serde,f_rkyv,f_zerocopy", "release", STABLE, "", []),
    "alloc": ("b_libm,count_alloc", "release", STABLE, "", []),
    "alloc-std": ("b_std,par,count_alloc", "release", STABLE, "", []),
    "asan": ("b_std,par", "checked", NIGHTLY, "-Zsanitizer=address", ["--target", TRIPLE]),
    "asan-libm": ("b_libm", "checked", NIGHTLY, "-Zsanitizer=address", ["--target", TRIPLE]),
    "tsan": ("b_std,par", "checked", NIGHTLY, "-Zsanitizer=thread", ["--target", TRIPLE, "-Zbuild-std"]),
    # Configurations whose results are compared with each other (C17).
    "x-libm": ("b_libm", "release", STABLE, "", []),
    "x-libm-checked": ("b_libm", "checked", STABLE, "", []),
    "x-libm-ser": ("b_libm,x_serde,x_rkyv,x_zerocopy", "release", STABLE, "", []),
    "x-std": ("b_std", "release", STABLE, "", []),
    "x-std-checked": ("b_std", "checked", STABLE, "", []),
    "x-all": ("b_libm,b_std,par,x_serde,x_rkyv,x_zerocopy", "release", STABLE, "", []),
    "x-native": ("b_libm", "release", STABLE, "-Ctarget-cpu=native", []),
}


class NoAnswer(Exception):
    pass


def cargo_env(toolchain, flags):
    env = dict(os.environ)
    for k in ("RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "MIRIFLAGS"):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE="true", RUSTFLAGS=flags, CARGO_TERM_COLOR="never")
    return env


def build(name):
    feats, profile, toolchain, flags, extra = VARIANTS[name]
    # Variants with the same flags share compiled dependencies.
    tdir = os.path.join(TARGET, name)
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", feats, "--profile", profile,
           "--target-dir", tdir] + extra
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(toolchain, flags), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"building {name} timed out")
    if p.returncode != 0:
        raise NoAnswer(f"building {name} failed:\n" + p.stdout[-3000:])
    sub = "release" if profile == "release" else profile
    path = os.path.join(tdir, TRIPLE if extra else "", sub, "gqmon")
    return path, time.time() - t


class Run:
    """Collects what the monitors of all steps observed."""

    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.t0 = time.time()
        self.reports = []  # (step name, report)
        self.violations = []
        self.noanswer = []
        self.notes = {}
        self.built = {}

    thorough = property(lambda s: s.tier == "thorough")

    def binary(self, variant):
        if variant not in self.built:
            self.built[variant], dt = build(variant)
            self.notes.setdefault("build_s", {})[variant] = round(dt, 1)
        return self.built[variant]

    def harness(self, variant, args=(), limit=None, step=None, seed=None, env=None, prop=None, crash_key="crash"):
        """Runs the harness of a variant and merges its report."""
        step = step or variant
        if self.replay and step not in {v["step"] for v in self.replay["violations"]}:
            return None
        path = self.binary(variant)
        limit = limit or (3000 if self.thorough else 240)
        seed = self.seed if seed is None else seed
        prop = prop or self.prop
        if self.replay:
            cases = {(v["label"], v["idx"]) for v in self.replay["violations"] if v["step"] == step}
            runs = [list(args) + ["--case", f"{l}#{i}"] if l else list(args) for l, i in sorted(cases)]
        else:
            runs = [list(args)]
        rep = None
        for extra in runs:
            rep = self.one(path, prop, step, extra, limit, seed, env, crash_key)
        return rep

    def one(self, path, prop, step, args, limit, seed, env, crash_key):
        out = os.path.join(TARGET, f"report-{self.prop}-{step}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [path, prop, "--tier", self.tier, "--seed", str(seed), "--limit", str(limit), "--out", out] + args
        e = dict(os.environ)
        e.pop("RUST_BACKTRACE", None)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 120)
        except subprocess.TimeoutExpired:
            self.noanswer.append(f"{step}: no result within {limit + 120} s")
            return None
        err = p.stderr.decode("utf8", "replace")
        if self.sanitizer_report(step, err, args):
            return None
        if p.returncode != 0 or not os.path.exists(out):
            sig = -p.returncode if p.returncode < 0 else 0
            bad = (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT)
            if sig in bad and "memory allocation of" not in err:
                name = signal.Signals(sig).name
                self.add_violation(step, crash_key, f"the process ended with {name}: {err[-600:]}", args)
            else:
                self.noanswer.append(f"{step}: exit status {p.returncode}: {err[-1500:]}")
            return None
        with open(out) as f:
            rep = json.load(f)
        rep["wall_s"] = round(time.time() - t, 2)
        self.merge(step, rep, args)
        rep["stderr"] = err
        return rep

    def sanitizer_report(self, step, err, args):
        for pat, key in (("WARNING: ThreadSanitizer", "tsan"), ("ERROR: AddressSanitizer", "asan"), ("ERROR: LeakSanitizer: detected", "lsan"),
                         ("error: Undefined Behavior", "miri-ub"), ("error: memory leaked", "miri-leak"), ("error: deadlock", "miri-deadlock")):
            k = err.find(pat)
            if k >= 0:
                self.add_violation(step, key, err[k:k + 3000], args)
                return True
        return False

    def merge(self, step, rep, args=()):
        self.reports.append((step, rep))
        for v in rep.get("violations", []):
            self.add_violation(step, v["key"], v["msg"], args, v.get("label"), v.get("idx"))
        for s in rep.get("inconclusive", []):
            self.noanswer.append(f"{step}: {s}")

    def add_violation(self, step, key, msg, args=(), label="", idx=0):
        self.violations.append(dict(step=step, key=key, msg=msg[:4000], args=list(args), label=label or "", idx=idx or 0))


# ---------------------------------------------------------------- what each check runs

def steps_numeric(run):
    """The same monitors against both maths back ends, with different random cases."""
    run.harness("libm")
    run.harness("std", seed=run.seed + 1000)


def steps_composite(run):
    """One of the builds with serde, so that deserialization is part of a rule's history."""
    run.harness("libm-serde")
    run.harness("std", seed=run.seed + 1000)


def steps_par(run):
    run.harness("std")
    run.harness("std-checked", seed=run.seed + 1000)


def steps_serde(run):
    run.harness("libm-serde")
    run.harness("all", seed=run.seed + 1000)


def parallel(jobs, f, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, jobs))


# C17: each build configuration writes a log of the same workload; the logs are compared here.

SAME = [("x-libm", ["x-libm-checked", "x-libm-ser"]), ("x-std", ["x-std-checked", "x-all"])]
CROSS = [("x-libm", "x-std"), ("x-libm", "x-native")]


def steps_configurations(run):
    names = sorted({n for g, o in SAME for n in [g] + o} | {n for p in CROSS for n in p})
    # Builds share nothing, so they run at the same time.
    bins = dict(zip(names, parallel(names, lambda n: run.binary(n), 4)))

    def dump(name):
        out = os.path.join(TARGET, f"log-{name}.txt")
        cmd = [bins[name], "dump", "--tier", run.tier, "--seed", str(run.seed), "--threads", "4", "--out", out]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=3000 if run.thorough else 300)
        except subprocess.TimeoutExpired:
            return name, None, "timed out"
        if p.returncode != 0:
            return name, None, f"exit status {p.returncode}: " + p.stderr.decode("utf8", "replace")[-800:]
        with open(out) as f:
            lines = f.read().split("\n")
        os.remove(out)
        return name, lines, ""

    logs = {}
    for name, lines, err in parallel(names, dump, 4):
        if lines is None:
            if "exit status -" in err:
                run.add_violation(name, "crash", err)
            else:
                run.noanswer.append(f"{name}: {err}")
        else:
            logs[name] = lines
    for base, others in SAME:
        for o in others:
            if base in logs and o in logs:
                run.merge(f"{o} against {base}", compare_logs(logs[base], logs[o], False, base, o))
    for a, b in CROSS:
        if a in logs and b in logs:
            run.merge(f"{b} against {a}", compare_logs(logs[a], logs[b], True, a, b))


def f64(h):
    return struct.unpack("<d", int(h, 16).to_bytes(8, "little"))[0]


def compare_logs(x, y, cross, xn, yn):
    """Equal lines are equal observations. Otherwise numbers may differ by their tolerance, if the
    two builds have different maths back ends."""
    rep = dict(evaluations=0, violations=[], inconclusive=[], counters={}, samples=[], max_error_over_tolerance={},
               rules=["the same random workload (rules, nodes, weights, integrals over ordinary and hostile intervals, number of calls, "
                      "exponent arithmetic, iterators and formatting) is logged in each build configuration and the logs are compared line by line. "
                      "Non-trivial: a distinct line that holds a number or a structure."])
    distinct = set()
    case = 0

    def bad(key, msg):
        if sum(v["key"] == key for v in rep["violations"]) < 4:
            rep["violations"].append(dict(key=key, msg=f"{xn} and {yn}: {msg}", label="", idx=case))

    if len(x) != len(y):
        # Find where they part.
        bad("different-length", f"{len(x)} and {len(y)} observations")
    identical = 0
    for l, m in zip(x, y):
        if l.startswith("#"):
            case = int(l[1:])
        if not l or l.startswith("#"):
            continue
        rep["evaluations"] += 1
        if l[0] == "?" or m[:1] == "?":
            rep["inconclusive"].append(l[:500])
            continue
        distinct.add(hash(l))
        if l == m:
            identical += 1
            continue
        p, q = l.split("|"), m.split("|")
        if p[:2] != q[:2] or len(p) != len(q):
            bad("different-observation", f"case {case}: {l[:300]} and {m[:300]}")
            break
        if len(p) == 4 and len(p[2]) == 16:
            u, v = f64(p[2]), f64(q[2])
            if math.isnan(u) and math.isnan(v):
                identical += 1
                continue
            if not cross:
                if p[2] != q[2]:
                    bad("configuration-changes-result", f"case {case}: {p[0]} of {p[1]} is {u!r} and {v!r}")
                else:
                    identical += 1  # only the tolerance differs
                continue
            tol = max(float(p[3]), float(q[3]))
            if math.isinf(tol):
                continue
            err = abs(u - v)
            if not err <= 2 * tol + 1e-300:
                bad("backend-changes-result", f"case {case}: {p[0]} of {p[1]} is {u!r} and {v!r}, which differ by {err:g}, tolerance {2 * tol:g}")
            elif tol > 0:
                k = re.sub(r"\d", "", p[0])
                e = rep["max_error_over_tolerance"].get(k, [0, ""])
                if err / (2 * tol) > e[0]:
                    rep["max_error_over_tolerance"][k] = [err / (2 * tol), f"case {case}: {p[1]}"]
        elif cross and p[0] == "h":
            continue  # bits of a whole rule
        elif cross and p[0] == "pow" and {p[2], q[2]} & {"None"}:
            # On the border of the allowed range.
            w = p[2] if q[2] == "None" else q[2]
            w = f64(w)
            if not (abs(w + 1) < 1e-14 or abs(w) > 1e308):
                bad("backend-changes-result", f"case {case}: {l[:300]} and {m[:300]}")
        else:
            bad("different-observation", f"case {case}: {l[:300]} and {m[:300]}")
    rep["distinct_nontrivial"] = len(distinct)
    rep["counters"]["bitwise_identical"] = identical
    rep["samples"] = [f"{a} = {b}" for a, b in list(zip(x, y))[1:4]]
    return rep


# C18: allocations are counted inside the harness, instructions by callgrind.

KINDS = ["GaussLegendre", "GaussJacobi", "GaussLaguerre", "GaussHermite", "GaussChebyshevFirstKind", "GaussChebyshevSecondKind",
         "Midpoint", "Simpson", "Trapezoid"]


def instructions(path, kind, op, n, reps):
    cmd = ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", path, "cost", str(kind), op, str(n), str(reps)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    except FileNotFoundError:
        return None, "valgrind is not installed"
    except subprocess.TimeoutExpired:
        return None, "timed out under callgrind"
    m = re.search(r"Collected : (\d+)", p.stderr.decode("utf8", "replace"))
    if p.returncode != 0 or not m:
        return None, f"callgrind exited with {p.returncode}: " + p.stderr.decode("utf8", "replace")[-400:]
    return int(m.group(1)), ""


def cost_jobs(rng, thorough):
    """(kind, operation, degrees): the cost per point may not grow from the first degree on."""
    def around(*ns):
        return [max(1, round(n * rng.uniform(0.75, 1.3))) for n in ns]
    big = around(2_000_000) if thorough else []
    jobs = [(k, "new", around(1000, 4000, 20_000, 120_000, 400_000) + big) for k in (0, 4, 5)]
    jobs += [(k, op, around(1000, 10_000, 100_000) + big) for k in (0, 4, 5, 6, 7, 8) for op in ("integrate", "iterate")]
    jobs += [(k, op, around(12, 60, 140)) for k in (1, 2, 3) for op in ("integrate", "iterate")]
    return jobs


def cost(run, variant):
    step = "callgrind-" + variant
    if run.replay and step not in {v["step"] for v in run.replay["violations"]}:
        return
    path = run.binary(variant)
    rng = random.Random(f"{run.seed} {variant}")
    rep = dict(evaluations=0, violations=[], inconclusive=[], counters={}, samples=[], max_error_over_tolerance={}, rules=[])

    def measure(job):
        """Costs per point from small degrees to large ones, until they have grown too much."""
        kind, op, ns = job
        rows, total = [], 0
        for n in ns:
            # Both the rule's construction and the program's start cancel.
            reps = max(1, round(400 / n)) if op != "new" else 1
            lo, hi = (0, reps) if op == "new" else (1, 1 + reps)
            x, e1 = instructions(path, kind, op, n, lo)
            y, e2 = instructions(path, kind, op, n, hi)
            if x is None or y is None:
                return job, rows, total, f"{KINDS[kind]} {op} {n}: {e1 or e2}"
            rows.append((n, (y - x) / (hi - lo) / n))
            total += y - x
            if rows[-1][1] > 4 * max(rows[0][1], 1.0):
                break
        return job, rows, total, ""

    table = {}
    for (kind, op, _), rows, total, err in parallel(cost_jobs(rng, run.thorough), measure):
        if err:
            rep["inconclusive"].append(err)
        if rows:
            table[kind, op] = rows
            rep["evaluations"] += len(rows)
            rep["counters"]["instructions"] = rep["counters"].get("instructions", 0) + total
    for (kind, op), rows in table.items():
        base = max(rows[0][1], 1.0)
        what = f"{KINDS[kind]} {op}: " + ", ".join(f"{c:.1f} instructions per point at degree {n}" for n, c in rows)
        worst = max(c for _, c in rows)
        rep["max_error_over_tolerance"][f"{KINDS[kind]} {op}"] = [worst / (base * 4), what]
        if worst > base * 4:
            rep["violations"].append(dict(key="superlinear", msg=what, label="", idx=0))
        rep["samples"].append(what)
    rep["distinct_nontrivial"] = rep["evaluations"]
    run.merge(step, rep)


# C11: the same workload under several instruments.

SAN_ENV = {
    "GQMON_SANITIZER": "1",
    # Allocations above 256 MB fail, as on a machine with little memory.
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1:exitcode=67",
    "TSAN_OPTIONS": "exitcode=66:second_deadlock_stack=1:suppressions=" + os.path.join(HARNESS, "tsan.supp"),
}
# target, features, part, extra flags of Miri
MIRI = [
    ("x86_64-unknown-linux-gnu", "b_std", "serial", ""),
    ("x86_64-unknown-linux-gnu", "b_std", "threads", ""),
    ("i686-unknown-linux-gnu", "b_std", "serial", ""),
    ("s390x-unknown-linux-gnu", "b_libm", "serial", ""),
    ("s390x-unknown-linux-gnu", "b_libm", "threads", ""),
    # rayon's queues are not allowed by stacked borrows, and it leaves some memory at the end.
    ("x86_64-unknown-linux-gnu", "b_std,par", "threads", "-Zmiri-tree-borrows -Zmiri-ignore-leaks"),
]


def miri(run, target, feats, part, extra, seeds=None):
    step = f"miri-{target.split('-')[0]}-{feats}-{part}"
    if run.replay and step not in {v["step"] for v in run.replay["violations"]}:
        return
    rep = dict(evaluations=0, distinct_nontrivial=0, violations=[], inconclusive=[], counters={}, samples=[], rules=[])
    seeds = seeds or (64 if run.thorough else 8)
    workloads = range(run.seed, run.seed + (12 if run.thorough else 1))
    seen = set()
    t = time.time()
    for w in workloads:
        env = cargo_env(NIGHTLY, "")
        many = f" -Zmiri-many-seeds=0..{seeds}" if part != "serial" and "par" not in feats else f" -Zmiri-seed={w}"
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats " + extra + many
        env["RAYON_NUM_THREADS"] = "2"
        cmd = ["cargo", "miri", "run", "--release", "--offline", "--target", target, "--no-default-features", "--features", feats,
               "--target-dir", os.path.join(TARGET, "miri-" + target + "-" + feats), "--", "miri", str(w), part]
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=1500 if run.thorough else 600)
        except subprocess.TimeoutExpired:
            run.noanswer.append(f"{step}: timed out")
            break
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        if run.sanitizer_report(step, err, [str(w)]):
            break
        k = err.find("MONITOR:")
        if k >= 0:
            run.add_violation(step, "miri-monitor", err[k:k + 1500], [str(w)])
            break
        if p.returncode != 0:
            if "panicked at /repo/" in err or "gauss-quad" in err and "panicked" in err:
                run.add_violation(step, "miri-panic", err[err.find("panicked"):][:1500], [str(w)])
            else:
                k = max(err.find("error"), 0)
                run.noanswer.append(f"{step}: exit status {p.returncode}: " + err[k:k + 1500])
            break
        for line in out.splitlines():
            m = re.match(r"OBSERVED seed (\d+) cases (\d+) operations (\d+)", line)
            if m:
                rep["evaluations"] += int(m.group(2)) + int(m.group(3))
                rep["counters"]["executions"] = rep["counters"].get("executions", 0) + 1
                seen.add(line)
        rep["distinct_nontrivial"] = len(seen)
        rep["samples"] = sorted(seen)[:3]
    rep["wall_s"] = round(time.time() - t, 1)
    run.merge(step, rep)


def steps_memory(run):
    names = ["alloc", "std", "asan", "asan-libm", "tsan"]
    jobs = [lambda n=n: run.binary(n) for n in names]
    # Miri compiles and runs on few cores, so it is started first and waited for last.
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        targets = sorted({(t, f) for t, f, _, _ in MIRI})
        futures = [ex.submit(lambda tf=tf: [miri(run, *m) for m in MIRI if m[:2] == tf]) for tf in targets]
        builds = [ex.submit(j) for j in jobs]
        for b in builds:
            b.result()
        run.harness("alloc")
        run.harness("std", seed=run.seed + 1000)
        run.harness("asan", seed=run.seed + 2000, env=SAN_ENV)
        run.harness("asan-libm", seed=run.seed + 3000, env=SAN_ENV)
        run.harness("tsan", ["--part", "shared"], seed=run.seed + 4000, env=SAN_ENV)
        for f in futures:
            f.result()


def steps_cost(run):
    run.harness("alloc")
    run.harness("alloc-std", seed=run.seed + 1000)
    cost(run, "alloc")
    cost(run, "alloc-std")


# C22: a program without the standard library, under strict seccomp, against the hosted harness.

BARE = {
    # name: target, features, RUSTFLAGS. The first target has neither a standard library nor floating-point hardware.
    "bare-x86_64": ("x86_64-unknown-none", "", "-Crelocation-model=static -Ccode-model=small"),
    "bare-x86_64-all": ("x86_64-unknown-none", "all", "-Crelocation-model=static -Ccode-model=small"),
    "bare-i686": ("i686-unknown-linux-gnu", "", "-Crelocation-model=static -Clinker-flavor=ld.lld -Clinker=rust-lld"),
}


def build_bare(run, name):
    """The path of the program, or None when the crate cannot be built without the standard library."""
    target, feats, flags = BARE[name]
    cmd = ["cargo", "build", "--offline", "--release", "--target", target, "-Zbuild-std=core,alloc",
           "-Zbuild-std-features=compiler-builtins-mem", "--features", feats, "--target-dir", os.path.join(TARGET, name)]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "bare"), env=cargo_env(NIGHTLY, flags), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"building {name} timed out")
    run.notes.setdefault("build_s", {})[name] = round(time.time() - t, 1)
    if p.returncode != 0:
        k = max(p.stdout.find("error"), 0)
        # The hosted harness builds, so that it is the missing standard library that stops this one.
        if re.search(r"could not compile `gauss-quad`|`std` is required|can't find crate for `std`|lang item `?panic_impl|undefined symbol", p.stdout):
            run.add_violation(name, "needs-std", "gauss-quad cannot be used without the standard library: " + p.stdout[k:k + 1500])
            return None
        raise NoAnswer(f"building {name} failed:\n" + p.stdout[-3000:])
    return os.path.join(TARGET, name, target, "release", "gqbare")


def lines_of(cmd, limit):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
    except subprocess.TimeoutExpired:
        return None, [], "timed out"
    return p.returncode, p.stdout.decode("utf8", "replace").splitlines(), p.stderr.decode("utf8", "replace")


def steps_bare(run):
    cases = 400_000 if run.thorough else 60_000
    part = 2000
    limit = 3000 if run.thorough else 300
    host = run.binary("libm")
    names = [n for n in BARE if not run.replay or n in {v["step"] for v in run.replay["violations"]}]
    jobs = [(f, min(part, cases - f)) for f in range(0, cases, part)]
    if run.replay:
        jobs = sorted({(v["idx"], 1) for v in run.replay["violations"] if v["label"]} or {(0, part)})
    paths = dict(zip(names, parallel(names, lambda n: build_bare(run, n))))
    seed = str(run.seed)
    expected = dict(zip(jobs, parallel(jobs, lambda j: lines_of([host, "bare", seed, str(j[0]), str(j[1]), "0"], limit))))
    for name, path in paths.items():
        if path is None:
            continue
        rep = dict(evaluations=0, violations=[], inconclusive=[], counters={}, samples=[], max_error_over_tolerance={},
                   rules=["a freestanding program (no standard library, memory from a fixed arena with guard words, all system calls but write and "
                          "exit forbidden by the kernel) runs a random workload over all rules and reports a hash of everything observed in each case, "
                          "which has to equal what the hosted build observes. Non-trivial: a distinct hash."])
        t = time.time()
        hashes = set()

        def bad(key, msg, i):
            if sum(v["key"] == key for v in rep["violations"]) < 4:
                rep["violations"].append(dict(key=key, msg=msg, label="case", idx=i))

        for job, (rc, out, err) in zip(jobs, parallel(jobs, lambda j: lines_of([path, seed, str(j[0]), str(j[1]), "0"], limit))):
            hrc, hout, herr = expected[job]
            if hrc != 0:
                if "panicked at" in herr and "/repo/" in herr:
                    bad("panic", f"hosted: {herr[-600:]}", job[0])
                else:
                    rep["inconclusive"].append(f"hosted: exit status {hrc}: {herr[-600:]}")
                continue
            i = job[0] + len(out)
            if rc == 0:
                m = re.match(r"OBSERVED words (\d+) allocations (\d+) peak (\d+)", out[-1])
                for k, v in (("values", m[1]), ("allocations", m[2])):
                    rep["counters"][k] = rep["counters"].get(k, 0) + int(v)
                rep["counters"]["peak_bytes"] = max(rep["counters"].get("peak_bytes", 0), int(m[3]))
            elif rc == 101:
                bad("panic", f"case {i}: {err[-600:]}", i)
            elif rc == 102:
                bad("memory", f"case {i}: {err[-600:]}", i)
            elif rc == -signal.SIGKILL:
                bad("system-call", f"case {i}: ended by the kernel because of a forbidden system call", i)
            elif rc is not None and rc < 0:
                bad("crash", f"case {i}: {signal.Signals(-rc).name} {err[-600:]}", i)
            else:
                rep["inconclusive"].append(f"{name}: exit status {rc}: {err[-600:]}")
            for k, (x, y) in enumerate(zip(out, hout)):
                if not x.startswith("case"):
                    break
                rep["evaluations"] += 1
                hashes.add(x.rsplit(" ", 1)[1])
                if x != y:
                    i = str(job[0] + k)
                    u, v = (lines_of(c + [seed, i, "1", "1"], limit)[1] for c in ([path], [host, "bare"]))
                    u, v = (" ".join(w).split() for w in (u, v))
                    d = next((n for n, (p, q) in enumerate(zip(u, v)) if p != q), -1)
                    bad("differs-from-hosted", f"{x} but hosted {y}; value {d} is {u[d]} but hosted {v[d]}", int(i))
        rep["distinct_nontrivial"] = len(hashes)
        rep["wall_s"] = round(time.time() - t, 1)
        rep["samples"] = expected[jobs[0]][1][:2]
        run.merge(name, rep)


def steps_values(run):
    with concurrent.futures.ThreadPoolExecutor(10) as ex:
        kinds = [ex.submit(miri, run, TRIPLE, "b_std", f"cold-{k}", "-Zmiri-preemption-rate=0.03", 256 if run.thorough else 24) for k in range(9)]
        steps_composite(run)
        for k in kinds:
            k.result()


def probe_traits(run):
    """When the monitors cannot be built: is a trait missing that the property requires? Builds either way."""
    tdir = os.path.join(TARGET, "traits")
    try:
        p = subprocess.run(["cargo", "run", "--offline", "--quiet", "--target-dir", tdir], cwd=os.path.join(HERE, "traits"),
                           env=cargo_env(STABLE, ""), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        run.noanswer.append("the list of traits timed out")
        return
    rows = [x.split("\t") for x in p.stdout.splitlines()]
    if p.returncode != 0 or not rows:
        run.noanswer.append("the list of traits: " + p.stderr[-600:])
        return
    run.notes["traits"] = sum(r[0] == run.prop for r in rows)
    for i, (prop, has, what) in enumerate(rows):
        if prop == run.prop and has == "no":
            run.add_violation("traits", "missing-trait", f"not implemented: {what}", label="traits", idx=i)


NUMERIC = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C14", "C16", "C19", "C20", "C21")
PROPS = {p: steps_numeric for p in NUMERIC}
PROPS["C08"] = steps_composite
PROPS["C20"] = steps_values
PROPS["C10"] = steps_par
PROPS["C11"] = steps_memory
PROPS["C17"] = steps_configurations
PROPS["C18"] = steps_cost
PROPS["C22"] = steps_bare
PROPS["C12"] = PROPS["C15"] = steps_serde


def load_known():
    known = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property="):
                prop, key, what = line[len("finding: property="):].strip().split(" ", 2)
                known[(prop, key.removeprefix("key="))] = what
    return known


def main():
    if sys.argv[1:] == ["--setup"]:
        # Checks build what they need, and say what is wrong when that fails.
        os.makedirs(TARGET, exist_ok=True)
        try:
            build("libm")
        except NoAnswer as e:
            print(e)
        return
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(PROPS))
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        a.tier, a.seed = replay["tier"], replay["seed"]
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    run = Run(a.prop, a.tier, a.seed, replay)
    try:
        PROPS[a.prop](run)
    except NoAnswer as e:
        run.noanswer.append(str(e))
    if replay and any(v["step"] == "traits" for v in replay["violations"]) or any(x.startswith("building") for x in run.noanswer):
        probe_traits(run)
    code = finish(run)
    sys.exit(code)


def finish(run):
    known = load_known()
    prop = run.prop
    found = {}
    for step, rep in run.reports:
        for key, k in rep.get("known", {}).items():
            if (prop, key) in known:
                e = found.setdefault(key, [0, k["example"]])
                e[0] += k["count"]
            else:
                run.add_violation(step, key, f"{k['count']} times, such as {k['example']}")
    evaluations = sum(r["evaluations"] for _, r in run.reports)
    distinct = sum(r["distinct_nontrivial"] for _, r in run.reports)
    if not run.replay and not run.violations and not run.noanswer and (evaluations == 0 or distinct == 0):
        run.noanswer.append("nothing was observed")
    rules = []
    counters, maxima, samples = {}, {}, []
    for step, r in run.reports:
        for x in r.get("rules", []):
            if x not in rules:
                rules.append(x)
        counters[step] = dict(r.get("counters", {}), evaluations=r["evaluations"],
                              distinct_nontrivial=r["distinct_nontrivial"], wall_s=r.get("wall_s"))
        maxima[step] = r.get("max_error_over_tolerance", {})
        samples += [f"[{step}] {x}" for x in r.get("samples", [])[:6]]
    wall = round(time.time() - run.t0, 2)
    evidence = {
        "property": prop, "tier": run.tier, "seed": run.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": " | ".join(rules) + " Counted per step, where a step is one build of the crate under one instrumentation.",
            "samples": samples[:40],
            "steps": counters,
            "max_error_over_tolerance": maxima,
            "known_findings_seen": {k: {"count": n, "example": x} for k, (n, x) in found.items()},
            "no_answer": run.noanswer,
            **run.notes,
        },
        "assumptions": [
            "The oracles in /verif/harness are right; tolerances are a small multiple of the rounding error of the algorithm or of the theory's bound.",
            "Only the executions counted here were observed.",
        ],
        "wall_s": wall,
        "violations": len(run.violations),
    }
    if not run.replay:
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for key, (n, ex) in sorted(found.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[(prop, key)]} ({n} cases seen, such as {ex[:300]})")
    for s in run.noanswer:
        print(f"NO ANSWER: {s[:2000]}")
    print(f"{prop} {run.tier} seed {run.seed}: {evaluations} evaluations, {distinct} distinct non-trivial, "
          f"{len(run.violations)} violations, {wall} s")
    if run.violations:
        path = os.path.join(EVIDENCE, "replay", prop + ".json")
        if not run.replay:
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": run.tier, "seed": run.seed, "violations": run.violations[:50]}, f, indent=1)
        for v in run.violations[:12]:
            print(f"  [{v['step']}] {v['key']} {v['label']}#{v['idx']}: {v['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, HERE)}")
        return 1
    return 2 if run.noanswer else 0


if __name__ == "__main__":
    main()
