"""Check runner: spawns workers, collects verdicts, writes evidence and replay files.

Verdicts: 0 held on everything observed, 1 violated, 2 inconclusive (a monitor was never
reached, a worker died, the watchdog fired without a witness).
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
EVID = Path(os.environ.get("ATGMON_EVID") or ROOT / "evidence")        # the variable: development only
KNOWN = ROOT / "known_findings.json"
WORKERS = int(os.environ.get("ATGMON_WORKERS") or 8)
SCALE = float(os.environ.get("ATGMON_SCALE") or 1)                     # development only
QUICK = 3                 # the modules' quick case numbers, times this
CASE_CPU_S = 120          # CPU seconds one case may burn (they normally take milliseconds)


class Violation(Exception):
    pass


class CaseHang(BaseException):
    pass


class Ctx:
    """What one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mon = collections.Counter()      # monitor evaluations
        self.ops = collections.Counter()      # operations driven
        self.sigs = set()                     # distinct non-trivial case signatures
        self.samples = []
        self.trace = []                       # what the running case did
        self.nontrivial = True

    def thorough(self):
        return self.tier == "thorough"

    def log(self, *what):
        self.trace.append(" ".join(str(w) for w in what)[:400])

    def op(self, name, *detail):
        self.ops[name] += 1
        self.log(name, *detail)

    def seen(self, monitor, n=1):
        self.mon[monitor] += n

    def check(self, monitor, cond, *msg):
        self.mon[monitor] += 1
        if not cond:
            raise Violation(f"{monitor}: " + " ".join(str(m) for m in msg)[:2000])

    def eq(self, monitor, got, want, *msg):
        self.mon[monitor] += 1
        if not (got == want):
            raise Violation(f"{monitor}: " + " ".join(str(m) for m in msg)[:500]
                            + f"\n   got  {str(got)[:1500]}\n   want {str(want)[:1500]}")

    def close(self, monitor, got, want, *msg, tol=1e-7):
        self.mon[monitor] += 1
        ok = (got is None and want is None) or (
            got is not None and want is not None and abs(float(got) - float(want)) <= tol)
        if not ok:
            raise Violation(f"{monitor}: " + " ".join(str(m) for m in msg)[:500]
                            + f"\n   got  {got!r}\n   want {want!r}")

    def raises(self, monitor, fn, *msg, types=Exception):
        """fn has to be rejected with an exception."""
        self.mon[monitor] += 1
        try:
            fn()
        except Violation:
            raise
        except types:
            return
        raise Violation(f"{monitor}: was accepted: " + " ".join(str(m) for m in msg)[:500])

    def sig(self, *what):
        self.sigs.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])


def load(prop):
    return importlib.import_module(f"atgmon.props.{prop.lower()}")


def all_props():
    return sorted(p.stem.upper() for p in (ROOT / "atgmon" / "props").glob("c[0-9]*.py"))


def run_case(mod, ctx, idx):
    """Run one case; returns None or a violation record."""
    rng = random.Random(f"{ctx.seed}:{ctx.prop}:{idx}")
    ctx.trace = []

    def hang(*_):
        raise CaseHang()

    old = signal.signal(signal.SIGVTALRM, hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.case(ctx, rng, idx)
        return None
    except Violation as e:
        what, kind = str(e), "oracle"
    except CaseHang:
        what, kind = f"no progress: the case burned {CASE_CPU_S} s of CPU", "progress"
    except Exception as e:
        what = f"unexpected {type(e).__name__}: {e}"
        kind = "exception"
        ctx.log(traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return {"case": idx, "kind": kind, "what": what, "trace": ctx.trace[-60:]}


def worker(prop, tier, seed, k, n, total, out):
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    mod = load(prop)
    ctx = Ctx(prop, tier, seed)
    deadline = time.monotonic() + (2400 if tier == "thorough" else 420)
    viol, done, truncated = [], 0, False
    for idx in range(k, total, n):
        if time.monotonic() > deadline:
            truncated = True
            break
        v = run_case(mod, ctx, idx)
        done += 1
        if idx < 3 and not v:
            ctx.samples.append({"case": idx, "history": ctx.trace[:25]})
        if v:
            viol.append(v)
            if len(viol) >= 3:
                break
    Path(out).write_text(json.dumps({
        "done": done, "truncated": truncated, "violations": viol, "mon": ctx.mon, "ops": ctx.ops,
        "sigs": sorted(ctx.sigs), "samples": ctx.samples}))


def source_of_code():
    import aligned_textgrid
    return os.path.realpath(aligned_textgrid.__file__)


def check(prop, tier, seed):
    t0 = time.monotonic()
    mod = load(prop)
    want = os.environ.get("ATGMON_SRC", "/repo/src")
    src = source_of_code()
    if not src.startswith(os.path.realpath(want) + "/"):
        print(f"INCONCLUSIVE property={prop} the code under test is not {want} but {src}")
        return 2
    total = max(1, int(mod.CASES[tier] * SCALE * (QUICK if tier == "quick" else 1)))
    n = min(WORKERS, os.cpu_count() or 1, max(1, total))
    tmp = tempfile.mkdtemp(prefix="atgmon-")
    procs = []
    for k in range(n):
        out = os.path.join(tmp, f"{k}.json")
        procs.append((out, subprocess.Popen(
            [sys.executable, "-m", "atgmon", "--worker", prop, tier, str(seed), str(k), str(n), str(total), out],
            cwd=ROOT, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)))
    results, dead = [], 0
    for out, p in procs:
        try:
            p.wait(timeout=3000 if tier == "thorough" else 700)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            results.append(json.loads(Path(out).read_text()))
        except (OSError, ValueError):
            dead += 1
    subprocess.run(["rm", "-rf", tmp])
    mon, ops, sigs, samples, viol, done = collections.Counter(), collections.Counter(), set(), [], [], 0
    truncated = False
    for r in results:
        mon.update(r["mon"])
        ops.update(r["ops"])
        sigs.update(r["sigs"])
        samples += r["samples"]
        viol += r["violations"]
        done += r["done"]
        truncated = truncated or r["truncated"]
    samples.sort(key=lambda s: s["case"])
    known_lines, known_stale = [], []
    for f in json.loads(KNOWN.read_text())["findings"]:
        if f["property"] != prop:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            still = mod.PROBES[f["id"]]()             # replays the listed input
        (known_lines if still else known_stale).append(f["what"])
    EVID.mkdir(exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:3] or [{"case": None, "history": []}],
            "monitor_evaluations": dict(sorted(mon.items())),
            "operations_driven": dict(sorted(ops.items())),
            "stopped_by_time": truncated,
            "workers_without_report": dead,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viol),
    }
    (EVID / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    for line in known_lines:
        print(f"KNOWN-FINDING: property={prop} {line}")
    for line in known_stale:
        print(f"note: listed finding no longer observed: {line}")
    if viol:
        viol.sort(key=lambda v: v["case"])
        rdir = EVID / "replays"
        rdir.mkdir(exist_ok=True)
        for v in viol[:3]:
            path = rdir / f"{prop}-{tier}-{seed}-{v['case']}.json"
            path.write_text(json.dumps({"property": prop, "tier": tier, "seed": seed, **v}, indent=1, default=str))
            print(f"VIOLATION property={prop} replay={path}")
            print("  " + v["what"].replace("\n", "\n  ")[:1500])
        print(f"replay with: bash run.sh --replay {rdir}/<file>")
        return 1
    missing = [m for m in getattr(mod, "REQUIRED", []) if not mon.get(m)]
    if dead or missing or done == 0:
        print(f"INCONCLUSIVE property={prop} workers without a report: {dead}, monitors never reached: {missing}, cases: {done}")
        return 2
    print(f"held property={prop} tier={tier} seed={seed}: {done} cases, {len(sigs)} distinct, "
          f"{sum(mon.values())} monitor evaluations, {sum(ops.values())} operations, {evidence['wall_s']} s")
    return 0


def replay(path):
    r = json.loads(Path(path).read_text())
    mod = load(r["property"])
    ctx = Ctx(r["property"], r["tier"], r["seed"])
    v = run_case(mod, ctx, r["case"])
    print("\n".join(ctx.trace))
    if v:
        print("REPRODUCED:", v["what"])
        return 1
    print("not reproduced")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), a[7])
        return
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(a) > 1 and a[1] in ("quick", "thorough"):
        tier = a[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a and a[0] == "all":
        rc = 0
        for p in all_props():
            rc = max(rc, check(p, tier, seed))
        sys.exit(rc)
    sys.exit(check(a[0], tier, seed))
