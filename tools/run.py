#!/usr/bin/env python3
"""Runs one property's check: mirror /repo, build the monitored workload, run it under its monitors.

run.py <ID> [--only label:idx [--part P]]
Exit 0 held on everything explored, 1 violation (VIOLATION line printed), 2 no verdict.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
HARNESS = os.path.join(ROOT, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = os.environ.get("VERIF_SEED", "1")
TARGET = "x86_64-unknown-linux-gnu"
MAX = 780 if TIER == "quick" else 6 * 3600
CFG = "--cfg verif_hooks --check-cfg cfg(verif_hooks) --check-cfg cfg(few_fields)"
FAST = "-Ctarget-cpu=native " + CFG

# kind -> (target directory, cargo profile, toolchain flags, RUSTFLAGS, run environment)
KINDS = {
    # the library's assertions and overflow checks on
    "native": ("t", "release", None, FAST, {}),
    # what a user's release binary does
    "plain": ("t", "plain", None, FAST, {}),
    "tsan": ("tsan", "release", "std", FAST + " -Zsanitizer=thread",
             {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 second_deadlock_stack=1 history_size=4"}),
    "asan": ("asan", "san", "std", FAST + " --cfg few_fields -Zsanitizer=address",
             {"ASAN_OPTIONS": "halt_on_error=1 exitcode=67 detect_leaks=0"}),
    "asanchk": ("asan", "sanchk", "std", FAST + " --cfg few_fields -Zsanitizer=address",
                {"ASAN_OPTIONS": "halt_on_error=1 exitcode=67 detect_leaks=0"}),
    "msan": ("msan", "san", "std", FAST + " --cfg few_fields -Zsanitizer=memory", {"MSAN_OPTIONS": "halt_on_error=1 exit_code=68"}),
    "miri": ("miri", "dev", "miri", CFG + " -Ctarget-feature=+aes,+sse2,+sse4.1",
             {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"}),
    # without assertions, so that an unchecked access is not stopped by one
    "miriplain": ("miri", "plain", "miri", CFG + " --cfg few_fields -Ctarget-feature=+aes,+sse2,+sse4.1",
                  {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"}),
    "checked": ("t", "release", None, FAST, {}),
    # the workspace's own release profile
    "lto": ("lto", "lto", None, FAST, {}),
    # no instruction beyond the baseline of the platform
    "generic": ("generic", "plain", None, CFG, {}),
    # what cargo gives without --release
    "debug": ("debug", "dev", None, FAST, {}),
    # the optional features
    "nightly": ("nightly", "plain", "nightly", FAST, {}),
    "stdops": ("t", "plain", None, FAST, {}),
    "count": ("t", "release", None, FAST, {}),
}
FEATURES = {"plain": "few", "checked": "few", "lto": "few", "generic": "few", "debug": "few", "nightly": "few,nightly,count", "stdops": "few,nightly", "count": "count"}


class Part:
    """One workload under one monitor.

    own: every violation the workload reports counts; otherwise it belongs to another property, and only
    what this property is about counts here: sanitizer reports, crashes, panics inside the library.
    """

    def __init__(self, kind, bin, args=(), name=None, stage=0, own=True, env=None, limit=None):
        self.kind, self.bin, self.args, self.name = kind, bin, list(args), name or kind
        self.stage, self.own, self.env, self.limit = stage, own, env or {}, limit


OTHERS = "c06 c07 c08 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c24 c25 c26 c05 c09 c23".split()
# what reads memory it may not have written beyond the calls C22's own workload makes
FRESH = "c06 c12 c13 c14 c15 c16 c17 c18 c19 c20 c26".split()
SHARE = {"c24": "0.05", "c08": "0.1", "c18": "0.1", "c12": "0.1", "c15": "0.1", "c09": "0.2", "c05": "0.2"}
PARTS = {
    "C04": [Part("native", "c04"), Part("tsan", "c04", ["--small"], stage=1), Part("miri", "c04", ["--tiny"], stage=2)],
    "C03": [Part("native", "c03"), Part("tsan", "c03", ["--small"], stage=1)],
    "C22": [Part("native", "c22"), Part("plain", "c22"), Part("asan", "c22", ["--small"]), Part("msan", "c22", ["--small"])]
    + [Part("miriplain", "c22", ["--tiny", "--shard", f"{i}/8"], name=f"miri{i}") for i in range(8)]
    + [Part("asanchk", b, name=f"asan-{b}", stage=1, own=False, env={"VERIF_SHARE": "1" if TIER != "quick" else SHARE.get(b, "0.5")},
            limit=60 if TIER == "quick" else 1800) for b in OTHERS]
    + [Part("msan", b, name=f"msan-{b}", stage=1, own=False, env={"VERIF_SHARE": "1" if TIER != "quick" else SHARE.get(b, "0.5")},
            limit=60 if TIER == "quick" else 1800) for b in (FRESH if TIER == "quick" else OTHERS)]
    + [Part("tsan", b, ["--small"], name=f"tsan-{b}", stage=2, own=False, limit=150 if TIER == "quick" else 3600) for b in ("c03", "c04")],
}


AS27 = ["--prop", "C27"]
PARTS["C27"] = [Part(k, "c22", AS27 + (["--small"] if k == "debug" else [])) for k in ("checked", "plain", "lto", "generic", "debug", "nightly", "stdops")]
PARTS["C28"] = [Part("count", "c28")]


def parts(pid):
    return [p for p in PARTS.get(pid, [Part("native", pid.lower())])
            if os.path.exists(os.path.join(HARNESS, "src", "bin", p.bin + ".rs"))]


def env(kind):
    d, _, _, flags, extra = KINDS[kind]
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_", "RUSTC", "MIRI", "ASAN_", "TSAN_", "MSAN_", "RUST_BACKTRACE")) and k != "CARGO_HOME":
            del e[k]
    cpu = hashlib.sha1(next((l for l in open("/proc/cpuinfo") if l.startswith("flags")), "x").encode()).hexdigest()[:8]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, f"{d}-{cpu}"), RUSTFLAGS=flags, **extra)
    return e


def build(kind, bins):
    """raises on build failure"""
    _, profile, how, _, _ = KINDS[kind]
    names = [x for b in bins for x in ("--bin", b)]
    if how == "miri":
        # runs nothing: the interpreter only compiles
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--profile", profile, *names, "--", "--root", "/nonexistent", "--none"]
        if len(bins) != 1:
            raise RuntimeError("one binary at a time")
    elif how == "std":
        cmd = ["cargo", "+nightly", "build", "-Zbuild-std", "--target", TARGET, "--profile", profile, *names]
    else:
        cmd = ["cargo", *(["+nightly"] if how == "nightly" else []), "build", "--profile", profile,
               *(["--features", FEATURES[kind]] if kind in FEATURES else []), *names]
    r = subprocess.run(cmd, cwd=HARNESS, env=env(kind), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and not (how == "miri" and "could not compile" not in r.stdout):
        print(r.stdout[-6000:])
        raise RuntimeError(f"build of {' '.join(bins)} ({kind}) failed")


def command(p):
    _, profile, how, _, _ = KINDS[p.kind]
    e = env(p.kind)
    e.update(p.env)
    if how == "miri":
        return ["cargo", "+nightly", "miri", "run", "--quiet", "--profile", profile, "--bin", p.bin, "--"], e
    out = "debug" if profile == "dev" else profile
    d = [TARGET, out] if how == "std" else [out]
    return [os.path.join(e["CARGO_TARGET_DIR"], *d, p.bin)], e


OUT = threading.Lock()


class Check:
    def __init__(self, pid):
        self.pid, self.t0, self.worst, self.logs, self.extra = pid, time.time(), 0, [], {}
        self.none = False

    def replay(self, part, what, log):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        f = os.path.join(ROOT, "replays", f"{self.pid}-{part}.json")
        with open(f, "w") as fh:
            json.dump({"property": self.pid, "part": part, "seed": SEED, "tier": TIER, "signature": what, "log": log[-8000:]}, fh, indent=1)
        with OUT:
            print(f"  {what}")
            print(f"VIOLATION property={self.pid} replay={f}", flush=True)
        self.worst = 1

    def run(self, p, only, multi):
        argv, e = command(p)
        tmp = None
        root = ROOT
        if not p.own:
            # another property's workload: its verdicts and its evidence stay out of ours
            tmp = root = tempfile.mkdtemp(prefix="verif-")
            shutil.copy(os.path.join(ROOT, "known_findings.txt"), root)
        cmd = argv + ["--root", root] + p.args
        if multi and p.own:
            cmd += ["--part", p.name]
        if only:
            cmd += ["--only", only]
        left = max(60, MAX - (time.time() - self.t0))
        if p.limit:
            left = min(left, p.limit)
        began = time.time()
        proc = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            out, err = proc.communicate(timeout=left)
            rc = proc.returncode
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            out, err = proc.communicate()
            rc = None
        finally:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if os.environ.get("VERIF_TRACE"):
            print(f"{p.name}: ended with {rc} after {time.time() - began:.0f}s", file=sys.stderr)
        self.judge(p, rc, out, err, left)
        if tmp:
            for f in glob.glob(os.path.join(tmp, "evidence", "*.json")):
                c = json.load(open(f))["coverage"]
                self.extra[f"{p.name}: oracle verdicts of that workload"] = c["evaluations"]
            shutil.rmtree(tmp, ignore_errors=True)

    def judge(self, p, rc, out, err, left):
        if p.own:
            with OUT:
                sys.stdout.write(out)
        if os.environ.get("VERIF_TRACE"):
            sys.stderr.write(err)
        self.logs.append((p.name, "stopped at its time limit" if rc is None else rc))
        if rc is None:
            if p.own:
                self.replay(p.name, f"no progress: the {p.name} workload did not finish within {left:.0f}s", err)
            return
        if rc == 0:
            return
        if rc == 1 and "VIOLATION property=" in out:
            if p.own:
                self.worst = 1
            else:
                faults = [l for l in out.splitlines() if l.startswith("  panic in ") and "/ws/" in l]
                if faults:
                    self.replay(p.name, faults[0].strip()[:400], out)
            return
        report = None
        for tool in ("ThreadSanitizer", "AddressSanitizer", "MemorySanitizer"):
            if f": {tool}" in err:
                report = next(l for l in err.splitlines() if f": {tool}" in l)
        if p.kind.startswith("miri") and ("Undefined Behavior" in err or "Data race" in err or "deadlock" in err):
            report = "Miri: " + next((l for l in err.splitlines() if l.startswith("error")), "")
        if not report and rc < 0 and rc != -signal.SIGKILL:
            report = f"the {p.name} workload died from signal {signal.Signals(-rc).name}"
        if not report and not p.kind.startswith("miri") and rc == 134:
            report = f"the {p.name} workload aborted"
        if report:
            self.replay(p.name, report, err)
            with OUT:
                print(err[-3000:])
        elif p.own:
            with OUT:
                print(out[-1000:] + err[-4000:])
                print(f"INCONCLUSIVE property={self.pid}: {p.name} workload ended with {rc}")
            self.none = True

    def compare(self, first="native"):
        """the same call sequence gives the same values in every build"""
        d = os.path.join(BUILD, self.pid.lower())
        logs = {os.path.basename(f)[:-4]: dict((l[17:], l[:16]) for l in open(f).read().split("\n") if l) for f in glob.glob(os.path.join(d, "*.log"))}
        base = logs.pop(first, {})
        n = 0
        for name, log in sorted(logs.items()):
            same = [k for k in log if k in base]
            n += len(same)
            bad = [k for k in same if log[k] != base[k]]
            if bad:
                self.replay(f"{name}-values", f"a call sequence gives other values in the {name} build than in the {first} build: {bad[0]} ({len(bad)} of {len(same)})", "\n".join(bad))
        if n:
            self.extra["call sequences whose values were compared across builds"] = n

    def evidence(self, multi):
        pid = self.pid
        evp = os.path.join(ROOT, "evidence", f"{pid}.json")
        if multi:
            files = sorted(glob.glob(os.path.join(ROOT, "evidence", f"{pid}.*.json")), key=lambda f: (".native." not in f, f))
            evs = [json.load(open(f)) for f in files]
            if evs:
                m = dict(evs[0])
                cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "parts": {}}
                for f, ev in zip(files, evs):
                    part = os.path.basename(f).split(".")[1]
                    c = ev["coverage"]
                    cov["evaluations"] += c["evaluations"]
                    cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], c["distinct_nontrivial"])
                    cov["rule"] = c["rule"]
                    cov["samples"] += c["samples"][:8]
                    cov["parts"][part] = {k: c[k] for k in ("evaluations", "distinct_nontrivial")}
                    group = part.rstrip("0123456789")
                    for k, v in c["observed"].items():
                        cov["observed"][f"{group}: {k}"] = cov["observed"].get(f"{group}: {k}", 0) + v
                    if c.get("known_findings_seen"):
                        cov.setdefault("known_findings_seen", {}).update(c["known_findings_seen"])
                cov["observed"].update(self.extra)
                cov["samples"] = cov["samples"][:24]
                m["coverage"] = cov
                m["violations"] = sum(e["violations"] for e in evs) + (1 if self.worst == 1 and not any(e["violations"] for e in evs) else 0)
                m["wall_s"] = time.time() - self.t0
                m["coverage"]["monitors"] = [f"{k}: {r}" for k, r in sorted(self.logs)]
                with open(evp, "w") as f:
                    json.dump(m, f, indent=1)
            for f in files:
                os.remove(f)
        if self.worst == 1 and not os.path.exists(evp):
            with open(evp, "w") as f:
                json.dump({"property": pid, "tier": TIER, "seed": int(SEED), "level": "exploration",
                           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the workload died under its monitor before it could report",
                                        "samples": [str(self.logs)]},
                           "wall_s": time.time() - self.t0, "violations": 1}, f, indent=1)


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    only_part = rest[rest.index("--part") + 1] if "--part" in rest else None
    only = rest[rest.index("--only") + 1] if "--only" in rest else None
    ck = Check(pid)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(ROOT, "evidence", f"{pid}.*json")) + glob.glob(os.path.join(ROOT, "replays", f"{pid}-*.json")) \
            + glob.glob(os.path.join(BUILD, pid.lower(), "*.log")):
        os.remove(f)
    todo = parts(pid)
    multi = len(todo) > 1
    if only_part:
        todo = [p for p in todo if p.name == only_part]
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(ROOT, "tools", "mirror.py")], check=True)
        kinds = {}
        for p in todo:
            bins = kinds.setdefault(p.kind, [])
            if p.bin not in bins:
                bins.append(p.bin)
        # one thread per target directory
        dirs = {}
        for k, bins in kinds.items():
            dirs.setdefault(KINDS[k][0], []).append((k, bins))
        fails = []

        def work(jobs):
            for k, bins in jobs:
                try:
                    t = time.time()
                    build(k, bins)
                    if os.environ.get("VERIF_TRACE"):
                        print(f"{k}: {len(bins)} workloads built in {time.time() - t:.0f}s", file=sys.stderr)
                except RuntimeError as x:
                    fails.append(x)
                    return
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(work, dirs.values()))
        if fails:
            print(f"INCONCLUSIVE property={pid}: {fails[0]}")
            sys.exit(2)
    if os.environ.get("VERIF_TRACE"):
        print(f"built in {time.time() - ck.t0:.0f}s", file=sys.stderr)
    for stage in sorted({p.stage for p in todo}):
        now = [p for p in todo if p.stage == stage]
        # other properties' workloads use every core each; a few at a time
        with ThreadPoolExecutor(12 if now[0].own else 3) as ex:
            list(ex.map(lambda p: ck.run(p, only, multi), now))
        if os.environ.get("VERIF_TRACE"):
            print(f"stage {stage} done at {time.time() - ck.t0:.0f}s", file=sys.stderr)
    if pid in ("C22", "C27") and not only:
        ck.compare("native" if pid == "C22" else "checked")
    ck.evidence(multi)
    sys.exit(1 if ck.worst else 2 if ck.none else 0)


main()
