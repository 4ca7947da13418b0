"""C22: failing storage is reported and never corrupts data or ends the session."""
import errno

from vlib import calc, db, faults, gen, model, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import FAIL, LOCK, MKDIR, OPEN, PROBE, READ, SYNC, TRUNC, UNLINK, WRITE, Shim
from vlib.saved import World
from vlib.session import Died, Session

ERRORS = [errno.ENOSPC, errno.EIO, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EROFS]
MASKS = [WRITE, WRITE | TRUNC, SYNC, READ, OPEN, UNLINK, WRITE | TRUNC | SYNC | OPEN | UNLINK,
         READ | WRITE | TRUNC | SYNC | OPEN | UNLINK]


class C22(Check):
    id = "C22"
    rule = ("inputs of every kind while the first, second, ... write, read, sync, truncate, open "
            "or unlink on the saved data fails (disk full, quota, I/O error, read-only; once, "
            "or for several inputs; writes also after writing a part), or while another program "
            "keeps the data locked for longer than a session waits, in sessions with and "
            "without other sessions changing the data; the answer must be the right one (and "
            "everything stored) or an error, the data well formed and equal to the model at an "
            "update boundary, the session's values unchanged, and after the fault inputs must "
            "be stored again. Non-trivial: distinct faults that hit.")
    shim = True
    confirm = 2
    case_timeout = 170
    assumptions = ("walking to older history entries while reads fail is not covered (it ends the session with an error)",)

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def ok(self, m, line):
        if not gen.cheap(line, 10, dict(m.vars, **{a: v[0] for a, v in m.store.vars.items()})):
            return False
        try:
            m.dry(line)
        except (ref.TooBig, ref.Inexact):
            return False
        return True

    def ask(self, s, line, info):
        try:
            return s.ask(line)
        except Died:
            raise Violation(what="the session ended because of a storage fault", input=line, status=s.status,
                            screen="\n".join(filter(None, ("".join(x).rstrip() for x in s.emu.main.lines)))[-500:], **info)

    def locked(self, rng, ctx, out):
        """another process holds the lock for longer than the calculator waits"""
        root = ctx.tmpdir()
        s = Session(ctx.bin, [], {"_B_UTIL_DATA_DIR": root}, rows=50, cols=20000)
        m = model.Session(ref.Config(), model.Store())
        recent = []
        c = None
        try:
            for line in ("$a=5", "1+1", "$b=1/3"):
                model.check(self.ask(s, line, {}), m.submit(line), line, recent)
            for _ in range(2):
                line = rng.choice(["", "2+2", "$a", "$a=7", "$b*3", "hello", "/reloadvar $a", "/histcap 2", "/histcap", "/purgevar $a", "1/0", "/help"])
                how = rng.choice(["BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"])
                before = m.store.copy()
                exp = m.submit(line)
                c = db.connect(root)
                c.execute(how)
                info = dict(locked=how, recent=recent[-8:])
                got = self.ask(s, line, info)
                c.execute("ROLLBACK")
                c.close()
                recent.append("%s (locked) -> %s" % (line, got[:60]))
                if not calc.is_error_text(got):
                    raise Violation(what="success was reported although the data wasn't stored", input=line, got=got, **info)
                d = db.Dump(root, deep=True)
                diff = db.differences(d.snapshot(), before.snapshot())
                if d.problems or diff:
                    raise Violation(what="the saved data changed while it was locked", problems=d.problems[:3], differences=diff[:4], **info)
                m.store = before
                m.vars.update({k: v[0] for k, v in before.vars.items()})
                for line in ("3*3", "$a=$a+0", "$b", "$a-1"):
                    model.check(self.ask(s, line, info), m.submit(line), line, recent)
                d = db.Dump(root, deep=True)
                diff = db.differences(d.snapshot(), m.store.snapshot())
                if d.problems or diff:
                    raise Violation(what="inputs after the lock are not stored properly", problems=d.problems[:3], differences=diff[:4], **info)
                out.counts["locked for too long, reported"] += 1
                out.ok(repr((how, line, recent[-5:])))
            if s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status, recent=recent[-10:])
        finally:
            if c is not None:
                c.close()
            s.kill()

    def reading(self, rng, ctx, out):
        """inputs that read something another session stored, while the first,
        second, ... read fails"""
        root = ctx.tmpdir()
        env = {"_B_UTIL_DATA_DIR": root}
        shim = Shim(ctx, root)
        s = o = None
        said = []
        names = ["$a", "$b", "$c"]
        try:
            o = Session(ctx.bin, [], env, rows=50, cols=20000)
            s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, preload=ctx.shim)
            k = 0
            cap = 100
            for step in range(50):
                vals = {}
                for n in rng.sample(names, rng.choice([1, 2, 3])):
                    vals[n] = rng.randrange(10 ** 6)
                    if rng.random() < 0.1:
                        # a value of several pages
                        vals[n] = rng.randrange(10 ** 9000, 10 ** 9001)
                    self.ask(o, "%s=%d" % (n, vals[n]), {})
                n = rng.choice(sorted(vals))
                if rng.random() < 0.2:
                    line, want = "/histcap", str(cap)
                else:
                    line, want = "/reloadvar " + n, "Set %s to %d" % (n, vals[n])
                k = k + 1 if k < 14 else 1
                persist = rng.random() < 0.2
                shim.arm(FAIL, at=k, mask=READ, err=errno.EIO, persist=int(persist), shortw=0)
                info = dict(input=line, fault=[k, "reads", "EIO", persist], said=said[-6:])
                got = self.ask(s, line, info)
                hit = shim.hits
                shim.off()
                said.append("%s%s -> %s" % (line, " (fault)" if hit else "", got[:80]))
                right = want in got
                if not right and not (hit and calc.is_error_text(got)):
                    raise Violation(what="wrong answer while reads fail", got=got[:300], expected=want[:300], **info)
                if hit:
                    out.counts["reads of others' data failed: " + ("hidden by the storage layer" if right else "reported")] += 1
                    out.ok(repr((line, k, persist, want[:40])))
                else:
                    k = 0
                g = self.ask(s, line, info)
                if want not in g:
                    raise Violation(what="wrong answer after the fault", got=g[:300], expected=want[:300], **info)
            for x in (s, o):
                if x.close() != 0:
                    raise Violation(what="the session did not end properly", status=x.status, said=said[-10:])
            d = db.Dump(root, deep=True)
            if d.problems:
                raise Violation(what="the saved data is damaged after failing reads", problems=d.problems[:5])
        finally:
            for x in (s, o):
                if x is not None:
                    x.kill()
            shim.close()

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        if case["n"] % 20 == 3:
            return self.locked(rng, ctx, out)
        if case["n"] % 10 == 5:
            return self.reading(rng, ctx, out)
        root = ctx.tmpdir()
        env = {"_B_UTIL_DATA_DIR": root}
        store = model.Store()
        shim = Shim(ctx, root)
        recent = []
        s = o = None
        try:
            s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, preload=ctx.shim)
            m = model.Session(ref.Config(), store)
            for line in faults.base_lines(rng, long=rng.random() < 0.3):
                if self.ok(m, line):
                    model.check(self.ask(s, line, {}), m.submit(line), line, recent)
            mask = rng.choice(MASKS)
            k = 0
            unsure = {}                      # name -> values the session may have
            for step in range(rng.choice([20, 40])):
                # another session makes cached pages outdated
                if rng.random() < 0.25:
                    # a line of several pages: its parts are read (and can fail) one by one
                    line = "+".join(["1"] * rng.choice([2000, 2030, 2031, 2032, 4000, 7000, 20000]))
                    db.add_line(root, line)
                    m.store.add(line)
                    recent.append("(another session) a line of %d characters" % len(line))
                elif rng.random() < 0.3:
                    if o is None:
                        o = Session(ctx.bin, [], env, rows=50, cols=20000)
                        om = model.Session(ref.Config(), m.store)
                    om.store = m.store
                    line = rng.choice(["1+1", "$o=%d" % step, "$a=%d" % step, "$b=%d" % step])
                    exp = om.submit(line)
                    model.check(self.ask(o, line, dict(recent=recent[-10:])), exp, line, recent)
                    recent.append("(other session) " + line)
                line = faults.op_line(rng)
                if not self.ok(m, line) or any(x in line for x in list(unsure) + sorted(m.ambiguous)):
                    continue
                states, exp, full = faults.reachable(m, line)
                persist = rng.random() < 0.3
                err = rng.choice(ERRORS)
                k = k + 1 if rng.random() < 0.6 else rng.choice([1, 1, 2, 3, 5, 8, 13, 20, 30])
                before = dict(m.vars)
                shim.arm(FAIL, at=k, mask=mask, err=err, persist=int(persist), shortw=int(rng.random() < 0.3))
                info = dict(current=line, fault=[k, "kinds %d" % mask, errno.errorcode[err], "persistent" if persist else "once"],
                            recent=recent[-10:])
                got = self.ask(s, line, info)
                hit = shim.hits
                if not hit:
                    k = 0
                recent.append("%s%s -> %s" % (line, " (%s fault)" % errno.errorcode[err] if hit else "", got[:60]))
                # (an error answer may be the right one and still hide a fault)
                good = model.matches(got, exp) and (exp[0] != "error" or not hit)
                if not good and not calc.is_error_text(got):
                    raise Violation(what="wrong answer under a storage fault", input=line, got=got[:500], expected=str(exp)[:500], **info)
                if not good and not hit:
                    raise Violation(what="an input failed without a fault", input=line, got=got, expected=str(exp)[:500], **info)
                if persist and hit and rng.random() < 0.5:
                    # more inputs while the fault lasts
                    for extra in rng.sample(["3+4", "", "6*7"], 2):
                        g = self.ask(s, extra, info)
                        recent.append("%s (fault) -> %s" % (extra, g[:60]))
                        want = {"3+4": "7", "": "", "6*7": "42"}[extra]
                        if g.strip() != want and not calc.is_error_text(g):
                            raise Violation(what="wrong answer under a storage fault", input=extra, got=g, **info)
                        more = []
                        for st in states if not good or states is None else states[-1:]:
                            st2 = st.copy()
                            st2.add(extra)
                            more.append(st2)
                        if g.strip() == want and not calc.is_error_text(g):
                            states = more          # reported as done
                            good = False
                        else:
                            states = (states if not good else states[-1:]) + more
                            good = False
                shim.off()
                d = db.Dump(root, deep=True)
                if d.problems:
                    raise Violation(what="the saved data is damaged after a storage fault", problems=d.problems[:5], input=line, **info)
                which = faults.match(states, d.snapshot())
                if good and len(states) - 1 not in which:
                    raise Violation(what="success was reported although the data wasn't stored", input=line, got=got[:300],
                                    differences=db.differences(d.snapshot(), states[-1].snapshot())[:4], **info)
                if not which:
                    raise Violation(what="the saved data is neither as before nor as after a complete update", input=line,
                                    to_before=db.differences(d.snapshot(), states[0].snapshot())[:4],
                                    to_after=db.differences(d.snapshot(), states[-1].snapshot())[:4], **info)
                m.store = states[which[-1]]
                if model.matches(got, exp) and exp[0] != "error":
                    m.vars, m.cfg, m.ambiguous = full.vars, full.cfg, full.ambiguous
                else:
                    m.ambiguous |= full.ambiguous
                    for n in set(full.vars) | set(before):
                        if full.vars.get(n) != before.get(n):
                            unsure[n] = (before.get(n), full.vars.get(n))
                out.counts["inputs with a fault" if hit else "inputs without"] += 1
                if hit:
                    out.counts["%s: %s" % (errno.errorcode[err], "as before" if 0 in which else "all done" if len(states) - 1 in which else "partly done")] += 1
                    out.counts["reported" if calc.is_error_text(got) else "hidden by the storage layer"] += 1
                out.ok(repr((line, k, mask, err, persist, store.cap, len(store.hist))) if hit else None)
                # afterwards: values are still known and inputs are stored
                for x in sorted(before):
                    if rng.random() < 0.4 and x not in m.ambiguous:
                        self.known(s, m, x, unsure, before, info, out)
                if rng.random() < 0.3:
                    g, e = self.ask(s, "5*9", info), m.submit("5*9")
                    if g != "45":
                        raise Violation(what="an input after the fault is not answered", got=g, **info)
                for n in list(unsure):
                    # make sure again
                    a = rng.choice(["%s=%d" % (n, step), "/reloadvar %s" % n])
                    if a.startswith("/") and n not in m.store.vars:
                        a = "%s=%d" % (n, step)
                    e = m.submit(a)
                    model.check(self.ask(s, a, info), e, a, recent)
                    if e[0] == "reload" and e[1][n] is None:
                        # its input was evicted: the session keeps its value
                        a = "%s=%d" % (n, step)
                        e = m.submit(a)
                        model.check(self.ask(s, a, info), e, a, recent)
                    del unsure[n]
                d = db.Dump(root)
                diff = db.differences(d.snapshot(), m.store.snapshot())
                if d.problems or diff:
                    raise Violation(what="inputs after the fault are not stored properly", problems=d.problems[:3],
                                    differences=diff[:4], **info)
            st = s.close()
            if st != 0:
                raise Violation(what="the session did not end properly", status=st, recent=recent[-10:])
            if case["n"] < 4:
                out.sample({"steps": recent[-10:]})
        finally:
            for x in (s, o):
                if x is not None:
                    x.kill()
            shim.close()

    def known(self, s, m, x, unsure, before, info, out):
        g = self.ask(s, x, info)
        if x in unsure:
            vals = [v for v in unsure[x] if v is not None]
            if None in unsure[x] and x in m.store.vars:
                vals.append(m.store.vars[x][0])
            if g not in [m.cfg.show(v) for v in vals] and not (None in unsure[x] and calc.is_error_text(g)):
                raise Violation(what="a variable has neither its old nor its new value after a fault", name=x, got=g,
                                possible=[str(v)[:100] for v in vals], **info)
            i = m.store.add(x)
            m.store.touch(x, i)
            for v in vals:
                if m.cfg.show(v) == g:
                    unsure[x] = (v, v)
            return
        e = m.submit(x)
        out.counts["values still known"] += 1
        if not model.matches(g, e):
            raise Violation(what="a value assigned before is no longer known", name=x, got=g, expected=str(e)[:300], **info)


CHECK = C22()
