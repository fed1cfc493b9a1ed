#!/usr/bin/env python3
"""Runs one property's check: builds the workers from /repo's working tree, runs them under
their monitors, and judges what the monitors saw.

    check.py ID            (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)
    check.py --setup       builds everything the checks use
    check.py --replay FILE runs one recorded violation again

Exit 0: the property held on everything explored. Exit 1: VIOLATION lines were printed.
Exit 2: the check gave no answer (build failure, harness error, watchdog without a repeat).
"""
import fcntl
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, RULES, ASSUME  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
CORES = min(8, os.cpu_count() or 8)

# variant -> how it is built and run
VARIANTS = {
    "dev": dict(profile="dev", features="watch", flags=""),
    "rel": dict(profile="release", features="watch", flags=""),
    "hdev": dict(profile="dev", features="watch", flags="--cfg verif_hooks"),
    "hrel": dict(profile="release", features="watch", flags="--cfg verif_hooks"),
    "asan": dict(profile="release", features="", flags="-Zsanitizer=address -Cforce-frame-pointers=yes",
                 nightly=True, target=True, mode="asan"),
    "asandev": dict(profile="dev", features="", flags="-Zsanitizer=address -Cforce-frame-pointers=yes",
                    nightly=True, target=True, mode="asan"),
    "tsan": dict(profile="release", features="", flags="-Zsanitizer=thread", nightly=True, target=True,
                 buildstd=True, mode="tsan"),
    "valgrind": dict(profile="dev", features="", flags="", mode="valgrind"),
    "miri": dict(profile="dev", features="", flags="", nightly=True, miri=True, mode="miri"),
}
# one hook only, should another no longer compile
HOOKS = ("iters", "colour", "triang")
for _h in HOOKS:
    for _v in ("hdev", "hrel"):
        VARIANTS[_v + "." + _h] = dict(VARIANTS[_v], flags=" ".join(
            ["--cfg verif_hooks"] + ["--cfg verif_no_" + o for o in HOOKS if o != _h]))


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO, HARNESS):
        for root, dirs, files in os.walk(top):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "benches"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def cargo_env(variant):
    v = VARIANTS[variant]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, variant)
    env["RUSTFLAGS"] = (v["flags"] + " -Awarnings").strip()
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = "0"
    if v.get("miri"):
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        env["MIRI_SYSROOT"] = os.path.join(BUILD, "miri-sysroot")
    return env


def cargo_cmd(variant, sub, bins):
    v = VARIANTS[variant]
    cmd = ["cargo"]
    if v.get("nightly"):
        cmd.append("+nightly")
    if v.get("miri"):
        cmd.append("miri")
    cmd += [sub, "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    if v["profile"] == "release":
        cmd.append("--release")
    if v["features"]:
        cmd += ["--features", v["features"]]
    if v.get("target"):
        cmd += ["--target", TRIPLE]
    if v.get("buildstd"):
        cmd += ["-Zbuild-std"]
    for b in bins:
        cmd += ["--bin", b]
    return cmd


def bin_path(variant, b):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    if v.get("target"):
        d = os.path.join(d, TRIPLE)
    return os.path.join(d, "release" if v["profile"] == "release" else "debug", b)


def drop_stale(variant, want):
    """Cargo decides by file times; the content decides here."""
    d = os.path.join(BUILD, variant)
    stamp = os.path.join(d, "tree.sha256")
    try:
        with open(stamp) as f:
            if f.read() == want:
                return
    except OSError:
        pass
    for root, dirs, _ in os.walk(d):
        if os.path.basename(root) == ".fingerprint":
            for x in list(dirs):
                if x.startswith(("trellis-", "dot_parser-", "vh-")):
                    shutil.rmtree(os.path.join(root, x), ignore_errors=True)
            dirs[:] = []
    os.makedirs(d, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(want)


def build(variant, bins):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drop_stale(variant, tree_hash())
        env = cargo_env(variant)
        if VARIANTS[variant].get("miri"):
            # the interpreter compiles as it runs; one empty run builds everything
            r = subprocess.run(["cargo", "+nightly", "miri", "setup"], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE)
            if r.returncode != 0:
                raise Inconclusive("miri setup failed: " + r.stderr.decode(errors="replace")[-2000:])
            for b in bins:
                cmd = cargo_cmd(variant, "run", [b]) + ["--", "--count", "0", "--mode", "miri", "--scale", "0"]
                r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                if r.returncode != 0:
                    raise Inconclusive("build for miri failed: " + r.stderr.decode(errors="replace")[-3000:])
            return
        r = subprocess.run(cargo_cmd(variant, "build", bins), env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise Inconclusive("build failed (%s): %s" % (variant, r.stderr.decode(errors="replace")[-4000:]))


def limits(gb, cpu=None):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            b = int(gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


class Job:
    """One worker process over a stretch of numbered cases."""

    def __init__(self, run, w, seed, scratch, start, stride, count, cpu=None, secs=None):
        self.run, self.seed = run, seed
        self.variant, self.bin = run["variant"], run["bin"]
        self.v = VARIANTS[self.variant]
        self.start, self.stride, self.count = start, stride, count
        self.cpu = cpu
        self.secs = secs if secs is not None else run["secs"]
        n = os.path.join(scratch, "%s-%s-%d-%d" % (self.bin, self.variant, w, int(time.time() * 1e6)))
        self.out, self.prog, self.err = n + ".json", n + ".progress", n + ".err"
        self.name = "%s/%s#%d" % (self.bin, self.variant, w)
        self.proc = None
        self.hung = False

    def args(self):
        a = ["--seed", self.seed, "--start", self.start, "--stride", self.stride, "--count", self.count,
             "--secs", self.secs, "--scale", self.run["scale"], "--mode", self.v.get("mode", "plain"),
             "--out", self.out, "--progress", self.prog]
        if self.run.get("sanitize_only"):
            a += ["--sanitize-only", "x"]
        return [str(x) for x in a]

    def launch(self):
        env = dict(os.environ)
        gb = 3.0
        cmd = [bin_path(self.variant, self.bin)]
        mode = self.v.get("mode", "plain")
        if mode == "asan":
            env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:"
                                   "detect_stack_use_after_return=1:malloc_context_size=12")
            gb = None
        elif mode == "tsan":
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4"
            gb = None
        elif mode == "valgrind":
            cmd = ["valgrind", "--error-exitcode=77", "--leak-check=no", "-q", "--track-origins=no"] + cmd
            gb = None
        elif mode == "miri":
            env = cargo_env("miri")
            if self.run.get("miriflags"):
                env["MIRIFLAGS"] += " " + self.run["miriflags"]
            env["MIRIFLAGS"] += " -Zmiri-seed=%d" % (self.seed & 0xffff)
            cmd = cargo_cmd("miri", "run", [self.bin]) + ["--"]
            gb = None
        env["RUST_BACKTRACE"] = "0"
        self.errf = open(self.err, "wb")
        self.proc = subprocess.Popen(cmd + self.args(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=self.errf, preexec_fn=limits(gb, self.cpu), env=env, cwd=HERE)
        self.t0 = time.time()
        self.seen = None
        self.seen_at = self.t0

    def at(self):
        try:
            with open(self.prog) as f:
                return int(f.read().strip() or -1)
        except (OSError, ValueError):
            return None

    def stalled(self, limit):
        p = self.at()
        if p != self.seen:
            self.seen, self.seen_at = p, time.time()
        return time.time() - self.seen_at > limit

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def tail(self, n=6000):
        self.errf.close()
        with open(self.err, "rb") as f:
            d = f.read()
        return d[-n:].decode(errors="replace") if len(d) <= 2 * n else (
            d[:n].decode(errors="replace") + "\n...\n" + d[-n:].decode(errors="replace"))

    def head(self, n=4000):
        with open(self.err, "rb") as f:
            return f.read(n).decode(errors="replace")

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def first(self):
        try:
            with open(self.out + ".first") as f:
                return json.load(f)
        except (OSError, ValueError):
            return None


def sanitizer_report(job, rc):
    """The text of a memory-error or race report, if that is how the worker ended."""
    mode = job.v.get("mode", "plain")
    text = job.tail()
    if mode == "asan" and "ERROR: AddressSanitizer" in text:
        at = text.index("ERROR: AddressSanitizer")
        return text[at:at + 3000]
    if mode == "tsan" and "WARNING: ThreadSanitizer" in text:
        at = text.index("WARNING: ThreadSanitizer")
        return text[at:at + 3000]
    if mode == "valgrind" and rc == 77:
        return text[:3000]
    if mode == "miri" and "Undefined Behavior" in text:
        at = text.index("Undefined Behavior")
        return text[max(0, at - 20):at + 2500]
    return None


def run_jobs(jobs, stall, deadline):
    """Runs the jobs, a limited number at a time; returns those that ended."""
    todo, live, done = list(jobs), [], []
    try:
        while todo or live:
            while todo and len(live) < CORES:
                j = todo.pop(0)
                j.launch()
                live.append(j)
            time.sleep(0.02)
            for j in list(live):
                if j.proc.poll() is not None:
                    live.remove(j)
                    done.append(j)
                elif j.stalled(stall(j)):
                    j.hung = True
                    j.kill()
                    live.remove(j)
                    done.append(j)
            if any(decisive(j) or j.hung for j in done):
                # a violation, or a call that does not end: no need for the rest
                for j in live:
                    j.kill()
                    j.cancelled = True
                return [j for j in done]
            if time.time() > deadline:
                raise Inconclusive("the run took too long")
    finally:
        for j in live:
            if j.proc.poll() is None:
                j.kill()
    return done


def decisive(j):
    if getattr(j, "judged", None) is None:
        r = j.result()
        j.judged = bool(r and r.get("violations"))
    return j.judged


def rerun(job, scratch, start, count, stride):
    """Runs cases again, alone; a single case under a limit on processor time."""
    one = count == 1
    j = Job(job.run, 99, job.seed, scratch, start, stride, count,
            cpu=90 if one and job.v.get("mode") != "miri" else None, secs=100000 if one else 250)
    j.launch()
    limit = time.time() + 300
    while j.proc.poll() is None:
        time.sleep(0.05)
        if time.time() > limit:
            j.hung = True
            j.kill()
            break
    return j


def judge(job, scratch):
    """(kind, detail) of one ended worker: ok / violation / inconclusive."""
    rc = job.proc.returncode
    res = job.result()
    if not job.hung and res is not None and rc in (0, 1):
        if res["violations"]:
            return "violation", res["violations"][0]
        if rc == 0:
            return "ok", res
    if not job.hung and res is not None and res.get("harness_error"):
        return "inconclusive", "harness error: " + res["harness_error"]
    first = job.first()
    if first is not None:
        return "violation", first
    rep = None if job.hung else sanitizer_report(job, rc)
    idx = job.at()
    if rep is not None:
        return "violation", {"idx": idx, "choices": None, "message": rep, "case": "", "after": 0}
    if idx is None:
        return "inconclusive", "%s ended with %s before its first case: %s" % (job.name, rc, job.head(1500))
    # crash or hang: the same case alone, then the whole stretch
    what = "hang" if job.hung else "exit status %s" % rc
    for start, count, stride in ((idx, 1, 1), (job.start, job.count, job.stride)):
        again = rerun(job, scratch, start, count, stride)
        if again.first() is not None:
            return "violation", again.first()
        r = again.result()
        if r is not None and r.get("violations"):
            return "violation", r["violations"][0]
        rep = sanitizer_report(again, again.proc.returncode)
        if rep is not None:
            return "violation", {"idx": idx, "choices": None, "message": rep, "case": "", "after": 0}
        rrc = again.proc.returncode
        if job.hung and count > 1 and rrc == 0 and r is not None:
            return "ok", r  # the machine was slow, not the call
        if rrc == -signal.SIGXCPU or (job.hung and rrc == -signal.SIGKILL and not again.hung and again.cpu):
            return "violation", {"idx": idx, "choices": None, "case": "", "after": 0,
                                 "message": "the call did not end within 90 s of processor time, twice"}
        if rrc < 0 and rrc not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
            return "violation", {"idx": idx, "choices": None, "case": "", "after": 0,
                                 "message": "the process died with signal %d, twice: %s" % (-rrc, again.tail(1500))}
    return "inconclusive", "%s: %s at case %s did not repeat: %s" % (job.name, what, idx, job.head(1500))


def known_findings(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    # known: property=ID sig=<text that the message contains> :: <description>
                    body = line.split(" ", 2)[2]
                    sig, _, desc = body.partition(" :: ")
                    out.append((sig[len("sig="):] if sig.startswith("sig=") else sig, desc))
    except OSError:
        pass
    return out


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    runs = [dict(r) for r in PLAN[prop] if r.get("tier") in (None, tier)]
    for r in runs:
        r["count"] = r["thorough"] if tier == "thorough" else r["quick"]
        r["secs"] = r.get("secs_thorough", 600) if tier == "thorough" else r.get("secs_quick", 150)
        r.setdefault("scale", 2 if tier == "thorough" else 1)
    runs = [r for r in runs if r["count"] > 0]
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    verdict, problems, oks, jobs_done = [], [], [], []
    try:
        by_variant = {}
        for r in runs:
            by_variant.setdefault(r["variant"], set()).add(r["bin"])
        for v, bins in by_variant.items():
            mine = [r for r in runs if r["variant"] == v]
            hook = mine[0].get("hook")
            steps = [v] + ([v + "." + hook] if hook else [])
            if hook and all(r.get("without") == "hooks" for r in mine):
                # public functions can still be watched where the private ones are gone
                steps.append(v[1:])
            for k, step in enumerate(steps):
                try:
                    build(step, sorted(bins))
                    break
                except Inconclusive:
                    if k + 1 == len(steps):
                        raise
                    log("%s: %s does not build, trying %s" % (sorted(bins), step, steps[k + 1]))
            for r in mine:
                r["variant"] = step
        t_build = time.time() - t0
        jobs = []
        for k, r in enumerate(runs):
            n = min(r.get("workers", CORES), r["count"])
            base = k * 100_000_000  # every run has cases of its own
            for w in range(n):
                c = r["count"] // n + (1 if w < r["count"] % n else 0)
                jobs.append(Job(r, w, seed, scratch, base + w, n, c))
        stall = (lambda j: 400 if j.v.get("mode") in ("miri", "valgrind") else 150 if j.run["scale"] >= 3 else 60)
        budget = 780 if tier == "quick" else 6 * 3600
        jobs_done = run_jobs(jobs, stall, t0 + budget)
        for j in sorted(jobs_done, key=lambda j: not decisive(j)):
            if verdict and (j.hung or j.result() is None):
                continue  # a violation is known already; this one would have to be run again
            kind, d = judge(j, scratch)
            if kind == "ok":
                oks.append((j, d))
            elif kind == "violation":
                verdict.append((j, d))
            else:
                problems.append(d)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    fresh, seen_known = [], []
    for j, d in verdict:
        hit = [k for k in known if k[0] in d["message"]]
        if hit:
            seen_known.append(hit[0])
        else:
            fresh.append((j, d))
    # write what was covered
    evals, stats, maxes, samples, distinct, per, capped = 0, {}, {}, [], set(), {}, 0
    for j, r in oks:
        evals += r["evaluations"]
        capped += 1 if r["capped"] else 0
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["maxes"].items():
            maxes[k] = max(maxes.get(k, 0), v)
        distinct.update(r["distinct"])
        p = per.setdefault("%s (%s)" % (j.bin, j.variant), {"cases": 0, "workers": 0})
        p["cases"] += r["evaluations"]
        p["workers"] += 1
    for j, r in sorted(oks, key=lambda x: (x[0].start)):
        if len(samples) < 6 and r["samples"]:
            samples.append(r["samples"][0])
    for j, d in verdict:
        evals += d.get("after") or 1
        samples.insert(0, "VIOLATION: %s | case: %s" % (d["message"][:600], (d.get("case") or "")[:800]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": RULES[prop],
            "samples": samples or ["(none: the run ended before a case was sampled)"],
            "monitored_events": stats, "largest": maxes, "runs": per,
            "workers_stopped_by_time": capped, "build_s": round(t_build, 1),
        },
        "assumptions": ASSUME.get(prop, []) + [
            "held on the executions counted here; nothing is claimed about inputs that were not driven"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        for j, d in fresh[:3]:
            rp = os.path.join(REPLAYS, "%s-%s-%d-%s.json" % (prop, j.variant, seed, d["idx"]))
            with open(rp, "w") as f:
                json.dump({"property": prop, "bin": j.bin, "variant": j.variant, "seed": seed,
                           "scale": j.run["scale"], "idx": d["idx"], "choices": d["choices"],
                           "before": d.get("before"), "start": j.start, "stride": j.stride,
                           "message": d["message"], "case": d.get("case", ""),
                           "miriflags": j.run.get("miriflags"),
                           "sanitize_only": bool(j.run.get("sanitize_only"))}, f, indent=1)
            log("%s: %s" % (j.name, d["message"][:1500]))
            if d.get("case"):
                log("  case: %s" % d["case"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    if problems:
        raise Inconclusive("; ".join(problems)[:6000])
    if evals == 0 or len(distinct) < 2:
        raise Inconclusive("the monitors observed nothing")
    print("%s: held on %d executions (%d distinct), %.1f s" % (prop, evals, len(distinct), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    run = {"variant": r["variant"], "bin": r["bin"], "scale": r["scale"], "secs": 600, "count": 1,
           "miriflags": r.get("miriflags"), "sanitize_only": r.get("sanitize_only")}
    build(r["variant"], [r["bin"]])
    scratch = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        # the smallest case alone; then after the cases just before it; then all that its worker ran
        tries = []
        if r.get("choices") is not None:
            tries = [[r["choices"]]] + ([r["before"] + [r["choices"]]] if r.get("before") else [])
        all_of_it = [None] if r.get("start") is not None else []
        bad = False
        for cases in tries + ([None] if not tries else all_of_it):
            start, n = r["idx"], 1
            if cases is None and tries:
                start, n = r["start"], (r["idx"] - r["start"]) // r["stride"] + 1
            j = Job(run, 0, r["seed"], scratch, start, r.get("stride") or 1, n, cpu=600)
            if cases is not None:
                a = ["--choices", ";".join(",".join(map(str, c)) for c in cases), "--idx", str(r["idx"]),
                     "--scale", str(r["scale"]), "--mode", j.v.get("mode", "plain")]
                j.args = lambda: a
            j.launch()
            j.proc.wait()
            sys.stderr.write(j.tail())
            rep = sanitizer_report(j, j.proc.returncode) if cases is None else None
            bad = rep is not None or j.proc.returncode not in (0, 2)
            if bad:
                break
        print("replay: %s" % ("VIOLATED" if bad else "held"))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    need = {}
    for runs in PLAN.values():
        for r in runs:
            if r.get("tier") != "thorough":
                need.setdefault(r["variant"], set()).add(r["bin"])
    for v in need:
        t = time.time()
        build(v, sorted(need[v]))
        log("built %s: %d workers, %.1f s" % (v, len(need[v]), time.time() - t))
    return 0


def main():
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Inconclusive as e:
        log("INCONCLUSIVE: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
