"""C34: a waiting session holds nothing up and outlives neither interruptions nor its terminal."""
import os
import signal
import sqlite3
import time

from vlib import db, editor, gen, model, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.saved import NAMES, World, value_expr
from vlib.session import Died, KEYS, Session

HARMLESS = [signal.SIGCONT, signal.SIGURG, signal.SIGCHLD, signal.SIGWINCH]


def cpu(pid):
    """processor time so far, in clock ticks (of 10 ms)"""
    with open("/proc/%d/stat" % pid) as f:
        a = f.read().rpartition(")")[2].split()
    return int(a[11]) + int(a[12])


def wakeups(pid):
    with open("/proc/%d/status" % pid) as f:
        for line in f:
            if line.startswith("voluntary_ctxt_switches"):
                return int(line.split()[1])


def rss(pid):
    with open("/proc/%d/status" % pid) as f:
        for line in f:
            if line.startswith("VmRSS"):
                return int(line.split()[1])


def open_files(pid):
    return sorted(os.readlink("/proc/%d/fd/%s" % (pid, n)) for n in os.listdir("/proc/%d/fd" % pid))


class C34(Check):
    id = "C34"
    timeshim = True
    rule = ("sessions of all kinds, brought into random states (after answers, errors, commands, "
            "failed storing, in the middle of editing, anywhere in the history, after resizing); "
            "whenever one waits for a key, an exclusive lock on its saved data must be available "
            "at once, its processor time must stand still for a while, its open files must be "
            "those of the beginning; its memory is measured over hundreds of large evaluations. "
            "Sessions are suspended and resumed and get harmless signals at random moments (all "
            "answers against the model), wait for hours and days of faster time, and lose their terminal (they have to end). Non-trivial: "
            "distinct states by the preceding actions.")

    def gen(self, ctx):
        kinds = ["waiting", "waiting", "suspend", "waiting", "hangup", "suspend", "waiting", "growth", "time"]
        for i in range(10 ** 7):
            yield {"n": i, "kind": kinds[i % len(kinds)]}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        getattr(self, case["kind"])(rng, ctx, out)

    def line(self, rng):
        n = rng.choice(NAMES[:5])
        k = rng.random()
        if k < 0.3:
            return "%s=%s" % (n, value_expr(rng, NAMES[:5] if rng.random() < 0.3 else ()))
        if k < 0.45:
            return rng.choice(["%s", "%s+1", "-%s", "%s/0", "max(%s", "%s*2"]) % n
        if k < 0.65:
            return rng.choice(["/histcap", "/histcap %d" % rng.choice([1, 2, 5, 50]), "/histcap 0", "/histcap x", "/reloadvar " + n,
                               "/reloadvar " + n + " $b", "/purgevar " + n, "/purgevar", "/help", "/nosuch", "/radix", "/precision 7"])
        return rng.choice(["1+2", "", "2^70", "1/3", "hello", "1/0", "7*6", "sqrt 2", "(1", " "])

    # ---- nothing is held while waiting ------------------------------------------
    def waiting(self, rng, ctx, out):
        d = ctx.tmpdir()
        for i in range(2):
            self.wait_once(rng, ctx, out, d, 12 if i == 0 else 25)

    def wait_once(self, rng, ctx, out, d, n):
        argv = rng.choice([[], [], ["-a"]])
        s = Session(ctx.bin, argv, {"_B_UTIL_DATA_DIR": d}, rows=rng.choice([50, 8]), cols=rng.choice([200, 40]))
        done = ["start"]
        try:
            c = sqlite3.connect(db.path(d), timeout=0, isolation_level=None)
            first = None
            for j in range(n):
                s.settle()
                self.free(c, s, done, argv, out)
                if j in (3, n - 1):
                    fds = open_files(s.pid)
                    if first is None:
                        first = fds
                    elif len(fds) > len(first) + 3:
                        raise Violation(what="more files are open than at the beginning", then=first, now=fds, done=done[-10:], argv=argv)
                    out.counts["open files compared"] += 1
                if rng.random() < 0.06:
                    self.still(s, done, argv, out)
                k = rng.random()
                if k < 0.6:
                    t = self.line(rng)
                    done.append(t)
                    s.send(t.encode() + b"\r")
                    s.wait_prompt()
                elif k < 0.8:
                    ks = [rng.choice(["up", "up", "up", "down", "left", "home", "c-n", "delete", "backspace"]) for _ in range(rng.choice([1, 3, 8]))]
                    done.append(ks)
                    s.send_keys([KEYS[x] for x in ks])
                elif k < 0.9:
                    t = rng.choice(["1", "(2", "$a", "/hist", " "])
                    if rng.random() < 0.25:
                        t = rng.choice(["1", "+2", "$ab ", "(x"]) * rng.choice([30, 60, 120, 260])
                    done.append("typed " + t)
                    s.send(t.encode())
                    if len(t) > 8 or rng.random() < 0.05:
                        s.settle()
                        self.still(s, done, argv, out)
                        if len(t) > 8 and rng.random() < 0.7:
                            s.send_keys([KEYS["backspace"]] * len(t))
                elif k < 0.95:
                    r = rng.choice([(50, 200), (8, 40), (24, 80)])
                    done.append(r)
                    s.resize(*r)
                else:
                    # another program is in the way for a moment: the session waits and goes on
                    c.execute("BEGIN EXCLUSIVE")
                    try:
                        done.append("(locked) 1+1")
                        s.send(b"1+1\r")
                        time.sleep(rng.choice([0.05, 0.2]))
                    finally:
                        c.execute("ROLLBACK")
                    s.wait_prompt()
                out.ok(repr(done[-2:]))
            s.settle()
            self.free(c, s, done, argv, out)
            c.close()
            s.close()
            if len(out.samples) < 3:
                out.sample({"argv": argv, "actions": done[:12]})
        except Died:
            raise Violation(what="the calculator ended", status=s.status, done=done[-10:], argv=argv)
        finally:
            s.kill()

    def free(self, c, s, done, argv, out):
        """an exclusive lock is to be had at once"""
        for i in range(3):
            try:
                c.execute("BEGIN EXCLUSIVE")
                c.execute("ROLLBACK")
                out.counts["exclusive locks taken beside a waiting session"] += 1
                return
            except sqlite3.OperationalError as e:
                err = str(e)
                # it might not have been waiting
                time.sleep(0.1)
                s.settle()
        raise Violation(what="a waiting session holds a lock on the saved data", error=err, done=done[-10:], argv=argv)

    def still(self, s, done, argv, out):
        """no processor time is used"""
        for i in range(3):
            a, b = cpu(s.pid), wakeups(s.pid)
            time.sleep(0.4)
            woken = wakeups(s.pid) - b
            while s.pump(0.001):
                pass
            used = cpu(s.pid) - a
            if used <= 4 and woken <= 40:
                out.counts["quiet waits observed"] += 1
                return
        raise Violation(what="a waiting session uses processor time", ticks_in_400_ms=used, wakeups=woken, done=done[-10:], argv=argv)

    # ---- memory --------------------------------------------------------------------
    def growth(self, rng, ctx, out):
        with_db = rng.random() < 0.4
        env = {"_B_UTIL_DATA_DIR": ctx.tmpdir()} if with_db else {}
        argv = rng.choice([["--no-db"], ["-a", "--no-db"]]) if not with_db else []
        kind = rng.choice(["answers", "assignments", "errors", "roots", "editing", "sums", "mixed"])
        s = Session(ctx.bin, argv, env, rows=50, cols=20000)
        n = 0
        try:
            typed = 0
            for j in range(300):
                if kind == "answers":
                    t = "2^160000+%d" % j
                elif kind == "assignments":
                    t = "$x=2^160000+%d" % j
                elif kind == "errors":
                    t = "2^160000/(%d-%d)" % (j, j)
                elif kind == "roots":
                    if j == 0:
                        s.ask("/precision 60 25")
                    t = "sqrt(%d^61)" % (j + 2)
                elif kind == "sums":
                    t = "0*(" + "+".join(["2^20000"] * 60) + ")+%d" % j
                elif kind == "mixed":
                    t = self.line(rng)
                    if rng.random() < 0.3:
                        s.send_keys([KEYS["up"]] * rng.choice([1, 3]) + [KEYS["c-n"]])
                else:
                    t = "1+%d" % j
                    for _ in range(3):
                        s.send_keys([KEYS["up"], KEYS["up"], b"11111111", KEYS["backspace"] * 8, KEYS["down"], KEYS["down"]])
                typed += len(t)
                s.submit(t, 60)
                if j == 100:
                    s.settle()
                    base = rss(s.pid)
                    files = open_files(s.pid)
                n += 1
                out.ok(t)
            s.settle()
            grown = rss(s.pid) - base
            now = open_files(s.pid)
            out.counts["open files compared"] += 1
            if len(now) > len(files) + 3:
                raise Violation(what="open files become more with every input", kind=kind, then=files, now=now[:20], inputs=200, argv=argv)
            s.emu = None
            out.counts["evaluations with memory measured"] += n
            out.counts["memory growth in KiB, summed"] += max(0, grown)
            if grown > 2500:
                raise Violation(what="memory grows with every input", kind=kind, kib=grown, inputs=200, bytes_typed=typed, argv=argv)
        except Died:
            raise Violation(what="the calculator ended", status=s.status, kind=kind, argv=argv)
        finally:
            s.kill()

    # ---- interruptions ----------------------------------------------------------------
    def interrupt(self, rng, s, done, out):
        k = rng.random()
        if k < 0.5:
            os.kill(s.pid, signal.SIGSTOP)
            t = rng.choice([0, 0.01, 0.05])
            time.sleep(t)
            done.append("stop %g s" % t)
            return True
        # a change of the window that isn't one must not meet unread keys
        # (see Session.resize)
        g = rng.choice(HARMLESS if s.idle() else HARMLESS[:-1])
        os.kill(s.pid, g)
        if g == signal.SIGWINCH:
            time.sleep(0.03)
            s.settle()
        done.append(g.name)
        out.counts["harmless signals"] += 1
        return False

    def suspend(self, rng, ctx, out):
        env = {"_B_UTIL_DATA_DIR": ctx.tmpdir()} if rng.random() < 0.5 else {}
        argv = rng.choice([[], ["-a"]])
        s = Session(ctx.bin, argv, env)
        m = model.Session(ref.Config(), model.Store() if env else None)
        done = []
        try:
            for j in range(15):
                t = rng.choice([self.line(rng), "7^20000*0+%d" % j, "1+%d" % j])
                if "sqrt" in t:
                    continue
                m.dry(t)
                amb = [n for n in sorted(m.ambiguous) if n in t]
                for n in amb:
                    q = ("/reloadvar " if m.store and n in m.store.vars else "/purgevar ") + n
                    model.check(s.ask(q), m.submit(q), q, done)
                exp = m.submit(t)
                done.append(t)
                i = rng.randrange(len(t) + 1)
                parts = [t[:i].encode(), t[i:].encode() + b"\r"]
                stopped = False
                for p in parts:
                    if not stopped and rng.random() < 0.6:
                        stopped = self.interrupt(rng, s, done, out)
                    if stopped:
                        s.inbuf += p
                        s.pump(0.01)
                        if rng.random() < 0.5:
                            os.kill(s.pid, signal.SIGCONT)
                            stopped = False
                            out.counts["suspensions"] += 1
                    else:
                        s.send(p)
                if not stopped and rng.random() < 0.4:
                    # while it computes, perhaps
                    os.kill(s.pid, signal.SIGSTOP)
                    time.sleep(0.02)
                    stopped = True
                    done.append("stop")
                if stopped:
                    os.kill(s.pid, signal.SIGCONT)
                    out.counts["suspensions"] += 1
                got = "\n".join(s.answer(60))
                model.check(got, exp, t, done)
                out.ok(repr(done[-4:]))
            if s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status, done=done[-10:])
        except Died:
            raise Violation(what="an interruption ended the session", status=s.status, done=done[-10:], argv=argv)
        finally:
            try:
                os.kill(s.pid, signal.SIGCONT)
            except OSError:
                pass
            s.kill()

    # ---- hours and days ---------------------------------------------------------------
    def time(self, rng, ctx, out):
        """a session is left alone for long, in any state"""
        env = ctx.fast_time(rng)
        env["TIMESHIM_RATE"] = str(rng.choice([10 ** 4, 10 ** 5, 10 ** 6]))
        w = World(ctx, out, env=env)
        done = []
        try:
            p = w.open(rng.choice([[], ["-a"]]))
            s = p.s
            for j in range(12):
                t = self.line(rng)
                if "sqrt" in t or "/precision" in t:
                    t = "7*%d" % j
                if any(n in t for n in p.m.ambiguous):
                    t = "/purgevar " + sorted(p.m.ambiguous)[0]
                keys = [b"12", KEYS["left"]] if rng.random() < 0.4 else []
                up = rng.choice([0, 0, 1, 3])
                begun = rng.randrange(1, len(t) + 1) if t and rng.random() < 0.5 else 0
                if begun:
                    # in the middle of the line
                    keys, up = [t[:begun].encode()], 0
                s.send_keys([KEYS["up"]] * up + keys)
                s.settle()
                if rng.random() < 0.5:
                    raw = s.emu.raw_len
                    snap = db.Dump(w.root).snapshot()
                    t0 = time.monotonic()
                    wait = rng.choice([0.02, 0.1, 0.4, 1.0])
                    while time.monotonic() < t0 + wait:
                        s.pump(0.02)
                        if not s.alive():
                            raise Violation(what="a session that was left alone has ended", status=s.status, seconds=wait * int(env["TIMESHIM_RATE"]), done=done)
                    if s.emu.raw_len != raw:
                        raise Violation(what="a session that was left alone has written something", done=done, bytes=s.emu.raw_len - raw)
                    if db.Dump(w.root).snapshot() != snap:
                        raise Violation(what="a session that was left alone has changed the saved data", done=done)
                    out.counts["hours waited"] += int(wait * int(env["TIMESHIM_RATE"]) / 3600)
                    done.append("waited %g s * %s" % (wait, env["TIMESHIM_RATE"]))
                # back to the empty line
                try:
                    p.m.dry(t)
                    fine = True
                except (ref.TooBig, ref.Inexact):
                    fine = False
                if begun and fine:
                    done.append(t[:begun] + " ... " + t[begun:])
                    exp = p.m.submit(t)
                    p.settle(t)
                    mark = s.emu.dsr_marks[-1]
                    s.send_keys([t[begun:].encode(), b"\r"])
                    s.wait_prompt(20)
                    shown = s.emu.s.abs_text(mark[1])
                    if len(t) < 90 and shown.rstrip() != ("# " + t).rstrip():
                        raise Violation(what="a line that waited was not kept as it was typed", typed=t, shown=shown, done=done[-4:])
                    out.ok(repr(done[-3:]))
                    continue
                s.send_keys([KEYS["down"]] * up)
                s.send_keys([KEYS["end"]] + [KEYS["backspace"]] * (begun + 4))
                s.settle()
                if not fine:
                    continue
                done.append(t)
                p.ask(t)
                out.ok(repr(done[-3:]))
            w.compare()
            p.close()
        except Died as d:
            raise Violation(what="a session that was left alone has ended", status=d.session.status, done=done)
        finally:
            w.end()

    # ---- the terminal goes away ---------------------------------------------------------
    def lose(self, s):
        s.settle()
        os.close(s.fd)
        os.close(s.slave)
        s.slave = None

    def hangup(self, rng, ctx, out):
        env = {"_B_UTIL_DATA_DIR": ctx.tmpdir()} if rng.random() < 0.5 else {}
        argv = rng.choice([[], ["-a"]])
        s = Session(ctx.bin, argv, env)
        done = []
        try:
            for j in range(rng.choice([0, 1, 4])):
                t = self.line(rng)
                done.append(t)
                s.submit(t)
            if rng.random() < 0.5:
                done.append("typed 1+1")
                s.send(b"1+1")
            self.lose(s)
            end = time.monotonic() + 10
            while s.alive() and time.monotonic() < end:
                time.sleep(0.005)
            if s.alive():
                raise Violation(what="a session outlives its terminal", done=done, argv=argv)
            out.ok(repr(done))
            out.counts["terminals taken away"] += 1
        finally:
            if s.status is None:
                s.kill()

    def known_finding(self, ctx, key):
        if key != "hangup-ignored":
            return False
        old = signal.signal(signal.SIGHUP, signal.SIG_IGN)
        try:
            s = Session(ctx.bin, ["--no-db"])
        finally:
            signal.signal(signal.SIGHUP, old)
        try:
            self.lose(s)
            a = cpu(s.pid)
            time.sleep(2)
            return s.alive() and cpu(s.pid) - a > 20
        finally:
            s.kill()


CHECK = C34()
