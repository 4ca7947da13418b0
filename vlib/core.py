"""Runner shared by all checks: case generation, parallel execution, verdicts,
replay files and evidence."""
import collections
import ctypes
import glob
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build

VERIF = build.VERIF
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")

sys.setrecursionlimit(20000)
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)


class Inconclusive(Exception):
    """The oracle could not decide (time-out, harness trouble)."""


class Stuck(Inconclusive):
    """The calculator certainly won't do what was waited for: it waits for keys
    although it has taken all there are, or its output never ends."""


class Outcome:
    """What one case (usually a batch of evaluations) showed."""

    def __init__(self):
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.counts = collections.Counter()
        self.inconclusive = 0
        self.notes = []
        self.violation = None

    def ok(self, sig=None, n=1):
        self.evals += n
        if sig is not None:
            if not isinstance(sig, str):
                sig = repr(sig)
            if len(sig) > 40:
                sig = hashlib.sha1(sig.encode()).hexdigest()[:20]
            self.sigs.add(sig)

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def incon(self, why):
        self.inconclusive += 1
        self.counts["inconclusive: " + why[:60]] += 1
        if len(self.notes) < 3:
            self.notes.append(why)

    def fail(self, **detail):
        if self.violation is None:
            self.violation = detail


class Violation(Exception):
    def __init__(self, **detail):
        super().__init__(str(detail)[:2000])
        self.detail = detail


class Check:
    """A property's check.  Subclasses give
         gen(ctx): yields JSON-able cases, in a fixed order for a seed
         run(case, ctx, out): executes a case and monitors it
    """
    id = None
    level = "exploration"
    rule = ""
    assumptions = ()
    needs = ("dev",)          # binaries
    shim = False
    timeshim = False
    quick_s = 40
    thorough_s = 600
    confirm = 3               # re-runs that may confirm a violation
    min_evals = 20
    workers = 8
    case_timeout = 240

    def gen(self, ctx):
        raise NotImplementedError

    def run(self, case, ctx, out):
        raise NotImplementedError

    def finish(self, ctx, total):
        """hook: extra evidence"""
        return {}


class Ctx:
    def __init__(self, check, tier, seed):
        self.id = check.id
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.bins = {}
        self.shim = None
        self.timeshim = None
        self.scratch = None
        self.known = {}

    @property
    def bin(self):
        return self.bins["dev"]

    def rng(self, *key):
        return random.Random("%s:%d:%s" % (self.id, self.seed, ":".join(map(str, key))))

    def fast_time(self, rng):
        """environment in which time passes faster and the date is another"""
        return {"LD_PRELOAD": self.timeshim, "TIMESHIM_RATE": str(rng.choice([1, 100, 10 ** 4, 10 ** 5])),
                "TIMESHIM_START": str(rng.choice([0, 86400 * 40, 86400 * 3000, 86400 * 20000, -86400 * 9000]))}

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch)


_check = None
_ctx = None


def _init(check, ctx):
    global _check, _ctx
    _check, _ctx = check, ctx
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class _CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise _CaseTimeout()


def run_case(check, ctx, case):
    out = Outcome()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(check.case_timeout)
    try:
        check.run(case, ctx, out)
    except Violation as v:
        out.fail(**v.detail)
    except Stuck as e:
        out.fail(what="the calculator got stuck: %s" % e)
    except Inconclusive as e:
        out.incon(str(e))
    except _CaseTimeout:
        out.incon("case timed out")
    except Exception as e:                      # harness trouble, never a verdict
        out.incon("harness error: %s" % (type(e).__name__,))
        out.notes.append(traceback.format_exc()[-1500:])
        out.counts["harness_errors"] += 1
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return out


def _work(case):
    t = time.monotonic()
    out = run_case(_check, _ctx, case)
    return case, out, time.monotonic() - t


def load_known(pid):
    """findings listed for this property: key -> text"""
    found = {}
    try:
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                found[m.group(2)] = m.group(3)
    except OSError:
        pass
    return found


def scratch_root():
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="bcalc-verif-", dir=base)
            return d
        except OSError:
            continue
    raise RuntimeError("no scratch space")


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(path + ".tmp", path)


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = check.thorough_s if tier == "thorough" else check.quick_s
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    replay = None
    if "--replay" in argv:
        replay = argv[argv.index("--replay") + 1]
        rep = json.load(open(replay))
        seed, tier = rep.get("seed", seed), rep.get("tier", tier)
    t0 = time.monotonic()
    adopt_children()
    ctx = Ctx(check, tier, seed)
    ctx.known = load_known(check.id)
    rc = 2
    try:
        ctx.scratch = scratch_root()
        try:
            for kind in check.needs:
                ctx.bins[kind] = build.binary(kind)
            if check.shim:
                ctx.shim = build.shim()
            if check.timeshim:
                ctx.timeshim = build.shim("timeshim")
        except build.BuildError as e:
            print("BUILD FAILED: %s" % e)
            return 2
        t_build = time.monotonic() - t0
        if hasattr(check, "prepare"):
            check.prepare(ctx)
        if replay:
            out = run_case(check, ctx, rep["case"])
            print(json.dumps({"violation": out.violation, "evals": out.evals,
                              "inconclusive": out.inconclusive, "notes": out.notes},
                             indent=1, default=str))
            if out.violation:
                print("VIOLATION property=%s replay=%s" % (check.id, replay))
                return 1
            return 0 if not out.inconclusive else 2
        rc = explore(check, ctx, tier, seed, budget, t0, t_build)
    finally:
        end_children()
        build.cleanup()
        if ctx.scratch and os.path.basename(ctx.scratch).startswith("bcalc-verif-"):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc


def adopt_children():
    """Processes whose parent ends become ours, so that none is left behind."""
    signal.signal(signal.SIGHUP, signal.SIG_DFL)
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER
    except (OSError, AttributeError):
        pass


def end_children():
    for _ in range(50):
        try:
            with open("/proc/self/task/%d/children" % os.getpid()) as f:
                pids = f.read().split()
        except OSError:
            return
        if not pids:
            return
        for p in pids:
            try:
                os.kill(int(p), signal.SIGKILL)
                os.waitpid(int(p), 0)
            except (ProcessLookupError, ChildProcessError):
                pass


def explore(check, ctx, tier, seed, budget, t0, t_build):
    total = Outcome()
    sigs = set()
    samples = []
    cases_run = 0
    longest = 0.0
    violation = None
    known_lines = []
    deadline = time.monotonic() + budget
    mp = multiprocessing.get_context("fork")
    stop = {"v": False}

    def feed():
        for c in check.gen(ctx):
            if stop["v"] or time.monotonic() > deadline:
                return
            yield c

    unconfirmed = 0
    truncated = False
    pool = mp.Pool(check.workers, _init, (check, ctx))
    pending = collections.deque()
    src = feed()
    exhausted = False
    suspects = []
    try:
        while True:
            while not exhausted and len(pending) < check.workers * 3:
                try:
                    pending.append(pool.apply_async(_work, (next(src),)))
                except StopIteration:
                    exhausted = True
                    truncated = time.monotonic() > deadline
            if not pending:
                break
            r = pending.popleft()
            try:
                # (cases that go on long after all others should have ended are given up)
                case, out, dt = r.get(max(1, min(check.case_timeout + 60, deadline + 300 - time.monotonic())))
            except multiprocessing.TimeoutError:
                total.incon("worker lost")
                break
            cases_run += 1
            longest = max(longest, dt)
            total.evals += out.evals
            total.inconclusive += out.inconclusive
            total.counts.update(out.counts)
            for n in out.notes:
                if len(total.notes) < 5:
                    total.notes.append(n)
            if len(sigs) < 2000000:
                sigs |= out.sigs
            if len(samples) < 6:
                samples += out.samples[:2]
            if out.violation is not None:
                suspects.append((case, out))
                stop["v"] = True
                if len(suspects) >= 3:
                    break
    finally:
        pool.terminate()
        pool.join()

    for case, out in suspects:
        if check.confirm <= 0:
            violation = (case, out.violation, "not re-run")
            break
        again = 0
        for _ in range(check.confirm):
            if tier == "quick" and time.monotonic() > t0 + 660:
                break
            o = run_case(check, ctx, case)
            if o.violation is not None:
                again += 1
                break
        if again:
            violation = (case, out.violation, "reproduced")
            break
        unconfirmed += 1
        total.counts["unconfirmed_suspicions"] += 1
        total.notes.append("unconfirmed: %s" % json.dumps(out.violation, default=str)[:1500])
        total.inconclusive += 1

    for key, text in sorted(ctx.known.items()):
        if hasattr(check, "known_finding") and check.known_finding(ctx, key):
            known_lines.append("KNOWN-FINDING: property=%s %s" % (check.id, text))

    wall = time.monotonic() - t0
    cov = {
        "evaluations": total.evals,
        "distinct_nontrivial": len(sigs),
        "rule": check.rule,
        "samples": samples[:6] or ["(none)"],
        "cases": cases_run,
        "observed": dict(sorted(total.counts.items())),
        "inconclusive": total.inconclusive,
        "build_s": round(t_build, 1),
        "longest_case_s": round(longest, 1),
        "generator_exhausted": exhausted and not truncated,
    }
    if total.notes:
        cov["notes"] = total.notes[:5]
    cov.update(check.finish(ctx, total) or {})
    ev = {
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": cov, "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    write_json(os.path.join(EVID, check.id + ".json"), ev)
    for line in known_lines:
        print(line)
    print("%s %s seed=%d: %d evaluations, %d distinct, %d cases, %d inconclusive, %.1f s"
          % (check.id, tier, seed, total.evals, len(sigs), cases_run,
             total.inconclusive, wall))
    if violation:
        case, detail, how = violation
        path = os.path.join(OUT, "%s-%d.json" % (check.id, seed))
        write_json(path, {"property": check.id, "seed": seed, "tier": tier,
                          "case": case, "detail": detail, "confirmation": how,
                          "rerun": "python3 check.py %s --replay %s" % (check.id, path)})
        print(json.dumps(detail, indent=1, default=str)[:3000])
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    if total.counts["harness_errors"] > max(2, cases_run // 20):
        print("INCONCLUSIVE: too many harness errors")
        print("\n".join(total.notes))
        return 2
    if total.evals < check.min_evals:
        print("INCONCLUSIVE: only %d evaluations observed" % total.evals)
        print("\n".join(total.notes))
        return 2
    return 0
