"""C20: concurrent sessions never lose or corrupt saved data."""
import re
import time

from vlib import db
from vlib.calc import is_error_text
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import DELAY, LOCK, Shim
from vlib.session import Died, Session

# SQLite waits five seconds for another session's lock.  A refusal that took
# this long says that this machine is overloaded, not that sessions disturb
# each other.
PATIENCE = 4.0


class Actor:
    """One session driven without waiting for it."""

    def __init__(self, name):
        self.name = name
        self.s = None
        self.seq = 0
        self.busy = None
        self.sent = []


class C20(Check):
    id = "C20"
    rule = ("2-4 sessions at once on one data directory (also while it is being created, while "
            "sessions start and end, with and without random delays before file and lock "
            "calls, ample and small capacities) that submit stamped lines, assign own and "
            "shared variables, reload, purge and change the capacity as fast as they get "
            "answers; afterwards each line must be stored once and in session order, the list "
            "well formed, and every variable hold a value that was last assigned; reloads must "
            "be explained by the assignments (register linearizability), and fractions read while they "
            "change must have been assigned as they are. Non-trivial: inputs "
            "that were in progress in two or more sessions at the same moment.")
    quick_s = 45
    shim = True
    confirm = 0
    case_timeout = 170

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        if case["n"] % 9 == 4:
            self.fractions(case, ctx, out)
        else:
            self._run(case, ctx, out)

    def fractions(self, case, ctx, out):
        """one session reads a variable while another assigns fractions i/(i+1) to it"""
        rng = ctx.rng(case["n"])
        root = ctx.tmpdir()
        env = {"_B_UTIL_DATA_DIR": root}
        a = b = None
        shim = Shim(ctx, root)
        shim.arm(DELAY, mask=LOCK, delay=rng.choice([1000, 4000, 10000]), permille=rng.choice([300, 800]))
        recent = []
        try:
            a = Session(ctx.bin, ["-f"], env, rows=50, cols=4000)
            n = rng.randrange(1, 10 ** rng.choice([1, 3, 25]))
            fractions = {"%d/%d" % (n, n + 1)}
            a.submit("$a=%d/%d" % (n, n + 1))
            slow = dict(env, **shim.env)
            slow["FSSHIM_SEED"] = str(rng.randrange(10 ** 6))
            for j in range(50):
                if b is None:
                    b = Session(ctx.bin, ["-f"], slow, rows=50, cols=4000, preload=ctx.shim)
                line = "/reloadvar $a"
                if rng.random() < 0.15:
                    b.close()
                    b = Session(ctx.bin, ["-f"], slow, rows=50, cols=4000, preload=ctx.shim)
                    line = "$a"
                t0 = time.monotonic()
                b.send(line.encode() + b"\r")
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if rng.random() < 0.5:
                        time.sleep(rng.random() * 0.01)
                    n += 1
                    fractions.add("%d/%d" % (n, n + 1))
                    recent.append("$a=%d/%d" % (n, n + 1))
                    a.send(recent[-1].encode() + b"\r")
                    while a.emu.dsr <= a.prompts:
                        a.pump(0.001)
                        b.pump(0.001)
                        if not a.alive():
                            raise Died(a, "the calculator ended")
                        if time.monotonic() - t0 > 60:
                            raise Inconclusive("no answer within a minute")
                    self.shown_to(a, recent[-1].split("=")[1], recent, t0, exact=True)
                while b.emu.dsr <= b.prompts:
                    b.pump(0.005)
                    if not b.alive():
                        raise Died(b, "the calculator ended")
                    if time.monotonic() - t0 > 60:
                        raise Inconclusive("no answer within a minute")
                got = self.shown_to(b, fractions, recent, t0)
                out.counts["fractions read while another session assigned"] += 1
                out.ok(got)
        except Died as d:
            raise Violation(what="a session ended or failed to start because of others", status=d.session.status, recent=recent[-10:])
        finally:
            for s in (a, b):
                if s is not None:
                    s.kill()
            shim.close()

    def shown_to(self, s, want, recent, t0, exact=False):
        got = self.shown(s).strip()
        dt = time.monotonic() - t0
        if is_error_text(got) and "locked" in got and dt > PATIENCE:
            raise Inconclusive("the database was busy for %.1f s" % dt)
        value = got if exact else got.split(" ")[-1]
        if value != want if exact else value not in want:
            raise Violation(what="a value was never assigned" if not is_error_text(got) else "an input failed because of other sessions",
                            got=got, recent=recent[-10:])
        return got

    # -- actions ----------------------------------------------------------
    def start(self, a, case_env):
        ctx, root, shim = case_env["ctx"], case_env["root"], case_env["shim"]
        env = {"_B_UTIL_DATA_DIR": root}
        if shim:
            env.update(shim.env)
            env["FSSHIM_SEED"] = str(case_env["rng"].randrange(10 ** 6))
        a.s = Session(ctx.bin, [], env, rows=50, cols=4000, start=False, preload=ctx.shim if shim else None)
        a.busy = ("start", None, time.monotonic())

    def next_line(self, a, rng, e):
        a.seq += 1
        stamp = "%d00%d" % (a.idx, a.seq)
        k = rng.random()
        mix = e["mix"]
        if k < mix[0]:
            return "line", "%s+1" % stamp, None
        if k < mix[1]:
            n = "$own%s" % "abcd"[a.idx - 1]
            return "assign", "%s=%s" % (n, stamp), (n, int(stamp))
        if k < mix[2]:
            n = rng.choice(["$s", "$t"])
            return "assign", "%s = %s/1" % (n, stamp), (n, int(stamp))
        if k < mix[3]:
            n = rng.choice(["$s", "$t", "$owna", "$ownb"])
            return "reload", "/reloadvar %s" % n + " " * (a.seq % 3), n
        if k < mix[4]:
            return "use", "%s+%s*0" % (stamp, rng.choice(["$s", "$t", "$owna"])), int(stamp)
        if k < mix[5]:
            return "cap", "/histcap", None
        if e["small"]:
            return "setcap", "/histcap %d" % rng.choice(e["small"]), None
        return "setcap", "/histcap %d" % rng.choice([5000, 6000, 7000]), None

    def _run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        root = ctx.tmpdir()
        style = case["n"] % 7
        n = rng.choice([2, 3, 3, 4])
        small = {5: [40, 50, 60], 6: rng.choice([[1], [1, 2, 3], [2, 5, 8]])}.get(style)
        shim = None
        if style in (1, 2, 4) or (style == 6 and rng.random() < 0.5):
            shim = Shim(ctx, root)
            if style in (1, 6):
                shim.arm(DELAY, delay=rng.choice([2000, 8000, 20000]), permille=rng.choice([30, 100, 300]))
            elif style == 2:
                shim.arm(DELAY, mask=LOCK, delay=rng.choice([2000, 10000, 30000]), permille=rng.choice([100, 300, 800]))
            else:
                shim.arm(DELAY, delay=1000, permille=700)
        mix = rng.choice([(0.6, 0.7, 0.8, 0.9, 0.96, 0.98), (0.2, 0.5, 0.75, 0.9, 0.96, 0.99), (0.3, 0.4, 0.65, 0.95, 0.98, 0.99),
                          (0.97, 0.97, 0.98, 0.99, 0.995, 0.998)])
        if small and rng.random() < 0.5:
            mix = (0.45, 0.5, 0.65, 0.7, 0.76, 0.8)
        e = {"ctx": ctx, "root": root, "shim": shim, "rng": rng, "mix": mix, "small": small}
        fresh = style in (0, 3, 4)
        # with room for fewer inputs than sessions submit at a time (style 6), an
        # input may be evicted before its own answer
        if not fresh or small:
            with Session(ctx.bin, [], {"_B_UTIL_DATA_DIR": root}) as s:
                s.submit("/histcap %d" % (small[0] if small else 5000))
                s.close()
            base = 1
        else:
            base = 0
        total = rng.choice([40, 80, 140]) if style != 0 else rng.choice([10, 30])
        actors = []
        for i in range(n):
            a = Actor("s%d" % (i + 1))
            a.idx = i + 1
            actors.append(a)
        hist = {}             # session line order: index -> [text]
        writes, reads = {}, []
        done = 0
        overlaps = 0
        recent = []
        t_end = time.monotonic() + 120
        # names a session has assigned or read are answered from memory
        known = {a.idx: set() for a in actors}
        try:
            for a in actors:
                a.lines = []
                self.start(a, e)
            closing = False
            while True:
                if time.monotonic() > t_end:
                    raise Inconclusive("the workload took too long")
                active = [a for a in actors if a.s is not None]
                if not active:
                    break
                for a in active:
                    s = a.s
                    s.pump(0.0005)
                    if a.busy is None:
                        continue
                    if s.emu.dsr >= s.prompts + 1:
                        kind, line, t0 = a.busy[0], a.busy[1], a.busy[2]
                        t1 = time.monotonic()
                        if kind == "start":
                            s.prompts += 1
                            out.counts["sessions"] += 1
                        else:
                            got = self.shown(s)
                            others = sum(1 for b in active if b is not a and b.busy and b.busy[1])
                            overlaps += 1 if others else 0
                            self.judge(a, a.busy, got, t0, t1, writes, reads, known, recent, out)
                            if small and rng.random() < 0.2:
                                self.look(root, recent)
                                out.counts["snapshots while running"] += 1
                            out.ok(repr((line, others, got)) if others else None)
                        a.busy = None
                    elif not s.alive():
                        while s.pump(0.02):
                            pass
                        if s.emu.dsr >= s.prompts + 1 and s.status == 0:
                            continue
                        dt = time.monotonic() - a.busy[2]
                        text = "\n".join(filter(None, ("".join(x).rstrip() for x in s.emu.main.lines)))
                        if a.busy[0] == "start" and dt > PATIENCE:
                            raise Inconclusive("a session waited %.1f s for the database" % dt)
                        raise Violation(what="a session ended or failed to start because of others",
                                        doing=a.busy[:2], session=a.name, status=s.status, seconds=round(dt, 2),
                                        screen=text[-600:], recent=recent[-20:])
                closing = closing or done >= total
                for a in active:
                    if a.s is None or a.busy is not None:
                        continue
                    if closing:
                        st = a.s.close()
                        if st != 0:
                            raise Violation(what="a session did not end properly", status=st)
                        a.s = None
                        continue
                    if rng.random() < 0.03:
                        # restart at full speed
                        st = a.s.close()
                        known[a.idx] = set()
                        self.start(a, e)
                        recent.append("%s: (restart)" % a.name)
                        out.counts["restarts"] += 1
                        continue
                    kind, line, what = self.next_line(a, rng, e)
                    a.lines.append(line)
                    a.busy = (kind, line, time.monotonic(), what)
                    if what and kind == "assign":
                        writes.setdefault(what[0], []).append([what[1], a.busy[2], None, a.idx])
                    a.s.send(line.encode() + b"\r")
                    recent.append("%s: %s" % (a.name, line))
                    done += 1
                if rng.random() < (0.05 if small else 0.004):
                    self.look(root, recent)
                    out.counts["snapshots while running"] += 1
            if shim:
                out.counts["injected delays"] += shim.hits
            self.final(root, actors, writes, small, base, recent, out, reads)
            out.counts["inputs overlapping others"] += overlaps
            if case["n"] < 3:
                out.sample({"sessions": n, "delays": bool(shim), "steps": recent[:12]})
        finally:
            for a in actors:
                if a.s is not None:
                    a.s.kill()
            if shim:
                shim.close()

    def shown(self, s):
        """what appeared between the last two prompts"""
        s.prompts += 1
        before, after = s.emu.dsr_marks[-2][1], s.emu.dsr_marks[-1][1]
        return "\n".join(s.emu.s.abs_text(n) for n in range(before + 1, after))

    # -- oracles ----------------------------------------------------------
    def judge(self, a, busy, got, t0, t1, writes, reads, known, recent, out):
        kind, line, _, what = busy
        out.counts["inputs"] += 1
        bad = None
        if is_error_text(got):
            if kind == "use" and "locked" not in got and "database" not in got.lower():
                return                      # that variable isn't stored yet
            if "locked" in got and t1 - t0 > PATIENCE:
                raise Inconclusive("the database was busy for %.1f s" % (t1 - t0))
            bad = "an input failed because of other sessions"
        elif kind == "line":
            if got != str(int(line[:-2]) + 1):
                bad = "wrong answer"
        elif kind == "use":
            if got != str(what):
                bad = "wrong answer"
        elif kind == "assign":
            for w in writes[what[0]]:
                if w[0] == what[1]:
                    w[2] = t1
            if got != str(what[1]):
                bad = "wrong answer"
        elif kind == "reload":
            m = re.search(r"\bto (\d+)(/1)?$", got.strip())
            reads.append((what, int(m.group(1)) if m else None, t0, t1, a.idx))
        elif kind == "cap":
            if not re.search(r"\d+", got):
                bad = "wrong answer"
        if bad:
            raise Violation(what=bad, session=a.name, line=line, got=got, seconds=round(t1 - t0, 3),
                            recent=recent[-20:])

    def look(self, root, recent):
        try:
            d = db.Dump(root)
        except Exception:
            return
        if d.problems:
            raise Violation(what="the saved data is not well formed while sessions run", problems=d.problems[:5],
                            recent=recent[-20:])

    def final(self, root, actors, writes, small, base, recent, out, reads):
        d = db.Dump(root, deep=True)
        if d.problems:
            raise Violation(what="the saved data is not well formed", problems=d.problems[:5], recent=recent[-20:])
        want = sum(len(a.lines) for a in actors) + base
        if small or want > 5000 or (not base and want > 100):
            # the newest inputs are kept: as ids are given once, all were stored
            if max(d.rows) != want:
                raise Violation(what="inputs were lost or stored twice", submitted=want, newest=max(d.rows), recent=recent[-20:])
        elif len(d.inputs) != want:
            raise Violation(what="inputs were lost or stored twice", submitted=want, stored=len(d.inputs), recent=recent[-20:])
        for a in actors:
            mine = [t for t in d.inputs if self.whose(t) == a.idx]
            lines = [t for t in a.lines if self.whose(t) == a.idx]
            if mine != (lines[len(lines) - len(mine):] if mine else []):
                raise Violation(what="lines of a session are missing, doubled or out of order", session=a.name,
                                submitted=lines[-8:], stored=mine[-8:], recent=recent[-20:])
            if len(mine) != len(lines) and len(d.inputs) == want:
                raise Violation(what="lines of a session are missing", session=a.name, recent=recent[-20:])
        texts = sorted(t for a in actors for t in a.lines)
        if len(d.inputs) == want and sorted(d.inputs)[:] != sorted(texts + ["/histcap %d" % (small[0] if small else 5000)] * base):
            raise Violation(what="the stored lines are not the submitted ones", recent=recent[-20:])
        out.counts["lines accounted for"] += want
        for n, ws in writes.items():
            last = [w for w in ws if not any(o[1] > w[2] for o in ws if o is not w)]
            if n not in d.vars:
                # it may have expired with its input when the capacity is small
                if small or (not base and want > 100):
                    continue
                raise Violation(what="a variable is missing", name=n, recent=recent[-20:])
            v = d.value(n)
            if v not in [w[0] for w in last]:
                raise Violation(what="a variable doesn't hold the last assigned value", name=n, stored=str(v),
                                last_assigned=[w[0] for w in last], recent=recent[-20:])
            out.counts["variables checked"] += 1
            out.ok(repr((n, v)))
        for n, v, t0, t1, who in reads:
            ws = writes.get(n, [])
            if v is None:
                # nothing may have been stored completely before
                if not small and not (not base and want > 100) and any(w[2] < t0 for w in ws):
                    raise Violation(what="a stored variable was not found", name=n, recent=recent[-20:])
                continue
            w = [w for w in ws if w[0] == v]
            if not w or w[0][1] > t1:
                raise Violation(what="a value was read that nobody had assigned", name=n, value=v, recent=recent[-20:])
            if any(o[1] > w[0][2] and o[2] < t0 for o in ws):
                raise Violation(what="an outdated value was read", name=n, value=v, recent=recent[-20:])
            out.counts["reloads explained"] += 1

    def whose(self, t):
        m = re.search(r"([1-4])00\d+", t)
        return int(m.group(1)) if m else None


CHECK = C20()
