#!/usr/bin/env python3
"""Runner of the monitors.

  run.py <ID>            run one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py replay <FILE>   re-execute a recorded witness
  run.py build           build every variant of every harness (setup)

Exit 0: held on everything observed.  Exit 1 + VIOLATION line: refuted.
Exit 2: no answer (build failure, time-out, out of memory, too little observed).
"""
import concurrent.futures
import fcntl
import json
import os
import re
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

TARGET = os.path.join(ROOT, "target")
WORK = os.path.join(ROOT, "work")
TRIPLE = "x86_64-unknown-linux-gnu"
SAN = ["--target", TRIPLE]

# name -> (cargo args, rustflags, path of the binaries under the target dir)
VARIANTS = {
    "dbg": (["--release"], "", "release"),
    "prod": (["--profile", "prod"], "", "prod"),
    "asan": (["--profile", "prod"] + SAN, "-Zsanitizer=address", TRIPLE + "/prod"),
    "tsan": (["--profile", "prod", "-Zbuild-std"] + SAN, "-Zsanitizer=thread", TRIPLE + "/prod"),
    "msan": (["--profile", "prod", "-Zbuild-std"] + SAN, "-Zsanitizer=memory", TRIPLE + "/prod"),
    "generic": (["--release"], "--cfg miri -A explicit_builtin_cfgs_in_flags", "release"),
    "sse42": (["--profile", "prod"], "-C target-cpu=x86-64-v2", "prod"),
    "miri": ([], "", None),
}
CARGO = ["cargo", "+nightly"]


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC")}
    if "CARGO_HOME" in os.environ:
        env["CARGO_HOME"] = os.environ["CARGO_HOME"]
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_NET_OFFLINE"] = "true"
    # decide what to rebuild by file contents, not by modification times
    env["CARGO_UNSTABLE_CHECKSUM_FRESHNESS"] = "true"
    env["CARGO_BUILD_FINGERPRINT"] = "content"
    env.pop("MONORUBY_HANG_WATCHDOG_SEC", None)
    return env


def variant_env(variant):
    env = clean_env()
    fl = VARIANTS[variant][1]
    if fl:
        env["RUSTFLAGS"] = fl
    return env


def build(pkg, variant, bins):
    """Build from the current working tree; returns {bin: argv prefix}."""
    os.makedirs(TARGET, exist_ok=True)
    tdir = os.path.join(TARGET, variant)
    os.makedirs(tdir, exist_ok=True)
    cwd = os.path.join(ROOT, "harness", pkg)
    args, _, sub = VARIANTS[variant]
    with open(os.path.join(tdir, ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if variant == "miri":
            # `miri run -- --nothing` would run; building happens on first run instead
            return {b: CARGO + ["miri", "run", "-q", "--offline", "--target-dir", tdir, "--bin", b, "--"]
                    for b in bins}
        cmd = CARGO + ["build", "--offline", "--target-dir", tdir] + args
        for b in bins:
            cmd += ["--bin", b]
        t = time.time()
        p = subprocess.run(cmd, cwd=cwd, env=variant_env(variant), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=1500)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            raise NoAnswer("build failed: %s/%s" % (pkg, variant))
        log("built %s/%s %s in %.1fs" % (pkg, variant, ",".join(bins), time.time() - t))
    return {b: [os.path.join(tdir, sub, b)] for b in bins}


class Run:
    """One harness process."""

    def __init__(self, cid, variant, cmd, cwd, args, tag, timeout, env=None):
        self.cid, self.variant, self.cmd, self.cwd, self.args = cid, variant, cmd, cwd, args
        self.timeout = timeout
        self.base = os.path.join(WORK, cid, tag)
        self.out = self.base + ".json"
        self.prog = self.base + ".progress"
        self.san = self.base + ".san"
        self.env = variant_env(variant)
        if env:
            self.env.update(env)
        self.result = None
        self.sanreport = ""
        self.rc = None
        self.stderr = ""

    def run(self):
        d = os.path.dirname(self.base)
        os.makedirs(d, exist_ok=True)
        pre = os.path.basename(self.base)
        for f in os.listdir(d):
            if f.startswith(pre + "."):
                try:
                    os.unlink(os.path.join(d, f))
                except OSError:
                    pass
        argv = self.cmd + self.args
        if self.variant != "miri":
            argv = argv + ["--out", self.out, "--progress", self.prog]
            self.env.pop("RUSTFLAGS", None)
        else:
            self.env["MIRIFLAGS"] = "-Zmiri-disable-isolation " + self.env.get("MIRIFLAGS_EXTRA", "")
        if self.variant == "asan":
            self.env["ASAN_OPTIONS"] = ("exitcode=99:detect_leaks=0:abort_on_error=0:halt_on_error=1:"
                                        "allocator_may_return_null=1:handle_segv=0:handle_abort=0:detect_stack_use_after_return=0:log_path=" + self.san)
        if self.variant == "tsan":
            self.env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:log_path=" + self.san
        if self.variant == "msan":
            self.env["MSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1:log_path=" + self.san
        self.env["RUST_BACKTRACE"] = "0"
        t0 = time.time()
        p = subprocess.Popen(argv, cwd=self.cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", start_new_session=True)
        try:
            so, se = p.communicate(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            self.rc = "timeout"
            self.wall = time.time() - t0
            return self
        self.wall = time.time() - t0
        self.rc = p.returncode
        self.stderr = se
        self.stdout = so
        txt = None
        if self.variant == "miri" or not os.path.exists(self.out):
            for line in so.splitlines():
                if line.startswith("RESULT "):
                    txt = line[7:]
        else:
            with open(self.out) as fh:
                txt = fh.read()
        if txt:
            try:
                self.result = json.loads(txt)
            except ValueError:
                pass
        for f in sorted(os.listdir(d)):
            if f.startswith(os.path.basename(self.san)):
                with open(os.path.join(d, f), errors="replace") as fh:
                    self.sanreport += fh.read()
        return self

    def last_case(self):
        try:
            with open(self.prog) as fh:
                return int(fh.read().strip())
        except (OSError, ValueError):
            return None

    def classify(self):
        """-> (kind, case, message, log): kind in ok/violation/crash/stuck/error"""
        if self.rc == "timeout":
            return ("error", None, "wall-clock time-out after %ss" % self.timeout, [])
        if self.variant == "miri" and "error: Undefined Behavior" in self.stderr:
            m = re.search(r"error: (Undefined Behavior:.*)", self.stderr)
            return ("violation", None, "Miri: " + m.group(1), self.stderr.splitlines()[-60:])
        if self.variant == "miri" and "error: memory leaked" in self.stderr:
            m = re.search(r"error: (memory leaked.*)", self.stderr)
            return ("violation", None, "Miri: " + m.group(1), self.stderr.splitlines()[-60:])
        if self.sanreport and ("ERROR: AddressSanitizer" in self.sanreport or "WARNING: ThreadSanitizer" in self.sanreport
                                or "WARNING: MemorySanitizer" in self.sanreport):
            if re.search(r"AddressSanitizer: (out of memory|allocation-size-too-big|requested allocation size|calloc-overflow)",
                         self.sanreport):
                return ("error", None, "sanitizer allocation limit", self.sanreport.splitlines()[:40])
            m = re.search(r"(ERROR: AddressSanitizer: .*|WARNING: (?:Thread|Memory)Sanitizer: .*)", self.sanreport)
            return ("violation", self.last_case(), m.group(1), self.sanreport.splitlines()[:80])
        if self.result is not None:
            r = self.result
            if "stuck" in r:
                return ("stuck", r["stuck"]["case"],
                        "operation used %s CPU seconds without completing" % r["stuck"]["cpu_s"], [])
            if r.get("violation"):
                v = r["violation"]
                return ("violation", v["case"], v["message"], v["log"])
            if r.get("harness_error"):
                return ("error", None, "harness: " + r["harness_error"], [])
            if self.rc == 0:
                return ("ok", None, "", [])
        if isinstance(self.rc, int) and self.rc < 0:
            sig = -self.rc
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE):
                if "memory allocation of" in self.stderr and "failed" in self.stderr:
                    return ("error", None, "out of memory", [])
                return ("crash", self.last_case(), "process died with %s: %s" % (
                    signal.Signals(sig).name, self.stderr.strip()[-400:]), self.stderr.splitlines()[-40:])
            return ("error", None, "killed by signal %d" % sig, [])
        return ("error", None, "exit %s without a result: %s" % (self.rc, self.stderr.strip()[-1500:]), [])


def args_for(seed, shard, shards, secs, mn, mx, thorough, extra):
    a = ["--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--secs", str(secs),
         "--min-cases", str(mn), "--max-cases", str(mx)]
    if thorough:
        a.append("--thorough")
    return a + list(extra)


def known_findings(cid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == cid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def run_check(cid, seed, tier):
    spec = CHECKS[cid]
    t0 = time.time()
    pkg = spec["pkg"]
    plan = spec["plan"][tier]
    variants = []
    for pl in plan:
        key = (pl["variant"], pl.get("bin", spec["bin"]))
        if key not in variants:
            variants.append(key)
    cmds = {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = {k: ex.submit(build, pkg, k[0], [k[1]]) for k in variants}
        for k, f in futs.items():
            cmds[k] = f.result()[k[1]]
    cwd = os.path.join(ROOT, "harness", pkg)
    runs = []
    for pi, pl in enumerate(plan):
        b = pl.get("bin", spec["bin"])
        n = pl.get("shards", 1)
        for s in range(n):
            sd = seed * 64 + pl.get("sd", pi)
            a = args_for(sd, s, n, pl["secs"], pl.get("min", spec.get("min", 20)), pl.get("max", 2**62),
                         tier == "thorough", pl.get("extra", []))
            r = Run(cid, pl["variant"], cmds[(pl["variant"], b)], cwd, a,
                    "%s-%d-%d" % (pl["variant"], pi, s), pl.get("timeout", 240 + 4 * pl["secs"]), pl.get("env"))
            r.meta = {"pkg": pkg, "bin": b, "variant": pl["variant"], "seed": sd, "shard": s, "shards": n,
                      "extra": pl.get("extra", []), "env": pl.get("env"), "plan": pi,
                      "exclusive": pl.get("exclusive", False)}
            runs.append(r)
    par = [r for r in runs if not r.meta["exclusive"]]
    exc = [r for r in runs if r.meta["exclusive"]]
    with concurrent.futures.ThreadPoolExecutor(spec.get("jobs", 8)) as ex:
        list(ex.map(lambda r: r.run(), par))
    for r in exc:
        r.run()

    errors, viols = [], []
    for r in runs:
        kind, case, msg, lg = r.classify()
        where = "%s shard %d" % (r.variant, r.meta["shard"])
        if kind == "ok":
            continue
        if kind == "error":
            errors.append("%s: %s" % (where, msg))
            continue
        if kind in ("crash", "stuck"):
            # must reproduce from the case number, else from the shard's own history
            rep = None
            for whole in (False, True):
                if case is None and not whole:
                    continue
                a = args_for(r.meta["seed"], r.meta["shard"], r.meta["shards"], 1e6 if whole else 1, 0,
                             ((case or 0) // max(1, r.meta["shards"]) + 1) if whole and case is not None else 2**62,
                             tier == "thorough", r.meta["extra"])
                if not whole:
                    a += ["--case", str(case)]
                r2 = Run(cid, r.variant, r.cmd, cwd, a, "replay", 300, r.meta["env"]).run()
                k2 = r2.classify()
                if k2[0] in ("crash", "stuck", "violation"):
                    rep = k2
                    break
            if rep is None:
                errors.append("%s: %s (case %s, did not reproduce)" % (where, msg, case))
                continue
            msg = rep[2] if rep[0] != kind else msg
        viols.append((r, case, msg, lg))

    ev, dist, counters, samples, per = 0, 0, {}, [], {}
    for r in runs:
        if r.result and "evaluations" in r.result:
            ev += r.result["evaluations"]
            dist += r.result["distinct"]
            pv = per.setdefault(r.variant, {"evaluations": 0, "processes": 0})
            pv["evaluations"] += r.result["evaluations"]
            pv["processes"] += 1
            for k, v in r.result["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
            for s in r.result["samples"]:
                if len(samples) < 5:
                    samples.append(s)
    # cross-run oracle (e.g. digests that must agree between builds)
    if spec.get("cross") and not errors:
        def rerun(r, case):
            a = args_for(r.meta["seed"], r.meta["shard"], r.meta["shards"], 1, 0, 2**62, tier == "thorough", r.meta["extra"])
            return Run(cid, r.variant, r.cmd, cwd, a + ["--case", str(case)], "cross-" + r.variant, 120, r.meta["env"]).run()
        got = spec["cross"](runs, rerun)
        if got:
            r, case, msg = got
            viols.append((r, case, msg, [json.dumps(x.meta) for x in runs]))

    known = known_findings(cid)
    kept, seen_known = [], []
    for v in viols:
        hit = [d for rx, d in known if rx.search(v[2])]
        if hit:
            seen_known.append(hit[0])
        else:
            kept.append(v)
    # A run may also report known findings it steered around
    gates = dict(spec.get("gates", {}))
    if tier == "thorough":
        gates.update(spec.get("gates_thorough", {}))
    missed = [] if viols else ["%s=%d<%d" % (k, counters.get(k, 0), mn) for k, mn in gates.items() if counters.get(k, 0) < mn]

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evid = {
        "property": cid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dist, "rule": spec["rule"], "samples": samples,
            "observed": counters, "builds": per,
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(kept),
    }
    if seen_known:
        evid["coverage"]["known_findings_observed"] = seen_known
    if errors:
        evid["coverage"]["inconclusive"] = errors
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as fh:
        json.dump(evid, fh, indent=1)

    for d in sorted(set(seen_known)):
        print("KNOWN-FINDING: property=%s %s" % (cid, d))
    if kept:
        r, case, msg, lg = kept[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%d-%s-%s.json" % (cid, seed, r.variant, case))
        with open(path, "w") as fh:
            json.dump({"property": cid, "tier": tier, "seed": seed, "case": case, "message": msg, "run": r.meta,
                       "log": lg, "command": "cd %s && python3 run.py replay %s" % (ROOT, path),
                       "others": [v[2][:300] for v in kept[1:]]}, fh, indent=1)
        print("[%s] %s case %s: %s" % (cid, r.variant, case, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if errors:
        for e in errors:
            print("[%s] INCONCLUSIVE %s" % (cid, e))
        return 2
    if missed:
        print("[%s] INCONCLUSIVE observed too little: %s" % (cid, ", ".join(missed)))
        return 2
    print("[%s] held on %d evaluations (%d distinct non-trivial), %.1fs" % (cid, ev, dist, time.time() - t0))
    return 0


def replay(path):
    w = json.load(open(path))
    cid, m = w["property"], w["run"]
    cmd = build(m["pkg"], m["variant"], [m["bin"]])[m["bin"]]
    a = args_for(m["seed"], m["shard"], m["shards"], 1, 0, 2**62, w["tier"] == "thorough", m["extra"])
    if w["case"] is not None:
        a += ["--case", str(w["case"])]
    r = Run(cid, m["variant"], cmd, os.path.join(ROOT, "harness", m["pkg"]), a, "replay", 600, m["env"]).run()
    kind, case, msg, lg = r.classify()
    print(kind, case, msg)
    for line in lg:
        print("   ", line)
    return 0 if kind == "ok" else 1


def build_all():
    need = {}
    for spec in CHECKS.values():
        for tier in ("quick", "thorough"):
            for pl in spec["plan"][tier]:
                need.setdefault((spec["pkg"], pl["variant"]), set()).add(pl.get("bin", spec["bin"]))
    rc = 0
    # one job per (package, variant); cargo parallelises inside
    def job(kv):
        (pkg, variant), bins = kv
        if variant == "miri":
            for b in sorted(bins):
                cmd = build(pkg, variant, [b])[b]
                env = clean_env()
                env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
                p = subprocess.run(cmd + ["--secs", "0", "--max-cases", "0"], cwd=os.path.join(ROOT, "harness", pkg),
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    log(p.stdout[-3000:])
                    raise NoAnswer("miri build failed: %s" % b)
            return
        build(pkg, variant, sorted(bins))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(job, kv) for kv in sorted(need.items())]:
            try:
                f.result()
            except Exception as e:  # keep building the rest
                log("setup:", e)
                rc = 2
    return rc


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        return build_all()
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    cid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return run_check(cid, seed % (1 << 50), tier)
    except NoAnswer as e:
        print("[%s] INCONCLUSIVE %s" % (cid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("[%s] INCONCLUSIVE %s" % (cid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
