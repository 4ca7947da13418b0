"""C21: killing the calculator at any moment never damages saved data."""
import os

from vlib import db, faults, gen, model, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import KILL, KIND, Shim
from vlib.saved import World
from vlib.session import Died, Session


class C21(Check):
    id = "C21"
    rule = ("for inputs of every kind on prepared data (and for the creation of new data, "
            "starting, ending and recovering), the process is killed before its first, second, "
            "... file-system call until it survives; then the files are checked, a next session "
            "must start and work, and its data must equal the model before the input, after it, "
            "or after some of its single updates; also with other sessions running. "
            "Non-trivial: distinct kill points hit.")
    shim = True
    confirm = 2
    case_timeout = 170

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        kind = ("op", "op", "op", "create", "op", "start", "op", "recover")[case["n"] % 8]
        w = World(ctx, out)
        try:
            if kind != "create":
                p = w.open()
                for line in faults.base_lines(rng, long=True):
                    if self.ok(p.m, line):
                        try:
                            p.settle(line)
                            p.ask(line)
                        except (ref.TooBig, ref.Inexact):
                            pass
                p.close()
        finally:
            w.end()
        if kind == "op":
            self.sweep_op(ctx, rng, w, out, case)
        elif kind == "recover":
            self.sweep_recover(ctx, rng, w, out, case)
        else:
            self.sweep_start(ctx, rng, w, out, kind)

    def ok(self, m, line):
        return gen.cheap(line, 10, dict(m.vars, **{a: v[0] for a, v in m.store.vars.items()}))

    def op(self, rng, m):
        for _ in range(50):
            line = faults.op_line(rng, long=True)
            if not self.ok(m, line):
                continue
            try:
                m.dry(line)
            except (ref.TooBig, ref.Inexact):
                continue
            return line
        return "1+2"

    def sweep_op(self, ctx, rng, w, out, case):
        """one input, killed at every call; a few inputs before it in the session"""
        seed = rng.randrange(10 ** 9)
        base = w.store
        stride = 1 if ctx.thorough else 3
        k = rng.randrange(stride) + 1 - stride
        fresh = ctx.rng(case["n"], "first")
        prelude = [x for x in (faults.op_line(fresh) for _ in range(fresh.choice([0, 0, 1, 3])))]
        line = None
        other = fresh.random() < 0.3
        while k < 500:
            k += stride
            root = ctx.tmpdir()
            faults.copytree(w.root, root)
            shim = Shim(ctx, root)
            m = model.Session(ref.Config(), base.copy())
            env = {"_B_UTIL_DATA_DIR": root}
            o = None
            s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, preload=ctx.shim)
            try:
                if other:
                    o = Session(ctx.bin, [], env, rows=50, cols=20000)
                for x in prelude:
                    if self.ok(m, x):
                        try:
                            m.dry(x)
                        except (ref.TooBig, ref.Inexact):
                            continue
                        exp = m.submit(x)
                        model.check(s.ask(x), exp, x, [])
                if line is None:
                    line = self.op(ctx.rng(case["n"], "op", seed), m)
                states, exp, full = faults.reachable(m, line)
                shim.arm(KILL, at=k)
                dead = False
                try:
                    got = s.ask(line)
                except Died:
                    dead = True
                shim.off()
                if not dead:
                    # survived: everything was done
                    model.check(got, exp, line, prelude)
                    states = states[-1:]
                elif s.status != -9:
                    raise Violation(what="the calculator ended by itself", status=s.status, line=line)
                s.kill()
                info = dict(input=line, kill_before_call=k if dead else None, prelude=prelude)
                if o is not None:
                    # the other session goes on before anything was recovered
                    om = model.Session(ref.Config(), None)
                    got = o.ask("8+9")
                    if got != "17":
                        raise Violation(what="another session was disturbed by the kill", got=got, **info)
                    for st in states:
                        st.add("8+9")
                    o.close()
                full_m = full if not dead else None
                self.verify(ctx, root, env, states, info, out, shim)
                out.counts["kill points hit" if dead else "inputs survived"] += 1
                if dead:
                    out.ok(repr((line, prelude, k, base.snapshot())))
                else:
                    break
            finally:
                s.kill()
                if o is not None:
                    o.kill()
                shim.close()
        else:
            raise Inconclusive("too many file-system calls")
        if case["n"] < 4:
            out.sample({"input": line, "prelude": prelude, "kill points": k - 1})

    def verify(self, ctx, root, env, states, info, out, shim=None):
        """a next session starts and works on data in one of the states"""
        hot = os.path.exists(db.path(root) + "-journal") and os.path.getsize(db.path(root) + "-journal") > 0
        out.counts["journals left to recover"] += hot
        try:
            s = Session(ctx.bin, [], env, rows=50, cols=20000)
        except Died as d:
            raise Violation(what="no session starts after the kill", status=d.session.status,
                            screen="\n".join(filter(None, ("".join(x).rstrip() for x in d.session.emu.main.lines)))[-500:], **info)
        try:
            d = db.Dump(root, deep=True)
            if d.problems:
                raise Violation(what="the saved data is damaged after the kill", problems=d.problems[:5], **info)
            which = faults.match(states, d.snapshot())
            if not which:
                raise Violation(what="the saved data is neither as before nor as after a complete update",
                                to_before=db.differences(d.snapshot(), states[0].snapshot())[:4],
                                to_after=db.differences(d.snapshot(), states[-1].snapshot())[:4], **info)
            out.counts["state: " + ("all done" if len(states) - 1 in which else "as before" if 0 in which else "partly done")] += 1
            st = states[which[0]]
            m = model.Session(ref.Config(), st)
            for line in ("2+3", "$z=41", "$z+1"):
                exp = m.submit(line)
                model.check(s.ask(line), exp, line, ["after the kill"], **info)
            d = db.Dump(root)
            if d.problems or db.differences(d.snapshot(), st.snapshot()):
                raise Violation(what="the saved data isn't updated properly after the kill",
                                problems=d.problems[:3] + db.differences(d.snapshot(), st.snapshot())[:4], **info)
            s.close()
        except Died:
            raise Violation(what="the session after the kill ended", status=s.status, **info)
        finally:
            s.kill()

    def sweep_start(self, ctx, rng, w, out, kind):
        """starting (with or without existing data) and ending"""
        stride = 1 if ctx.thorough else 3
        for k in range(1 + rng.randrange(stride), 400, stride):
            root = ctx.tmpdir()
            if kind == "start":
                faults.copytree(w.root, root)
            shim = Shim(ctx, root)
            env = {"_B_UTIL_DATA_DIR": root}
            shim.arm(KILL, at=k)
            s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, start=False, preload=ctx.shim)
            try:
                dead = False
                try:
                    s.wait_prompt()
                    s.send(b"\x04")
                    s.wait_for(lambda: not s.alive(), 20, dead_ok=True)
                except Died:
                    dead = True
                dead = dead or s.status == -9
                if dead and s.status != -9:
                    raise Violation(what="the calculator ended by itself", status=s.status)
                shim.off()
                info = dict(while_=kind, kill_before_call=k if dead else None)
                self.verify(ctx, root, env, [w.store.copy()], info, out, shim)
                out.counts["kill points hit" if dead else "starts survived"] += 1
                if not dead:
                    out.ok()
                    return
                out.ok(repr((kind, k, w.store.snapshot())))
            finally:
                s.kill()
                shim.close()

    def sweep_recover(self, ctx, rng, w, out, case):
        """killed in the middle of an update, then killed again while recovering"""
        m = model.Session(ref.Config(), w.store.copy())
        line = self.op(rng, m)
        states, exp, full = faults.reachable(m, line)
        first = rng.randrange(12, 30)
        broken = ctx.tmpdir()
        faults.copytree(w.root, broken)
        shim = Shim(ctx, broken)
        s = Session(ctx.bin, [], dict({"_B_UTIL_DATA_DIR": broken}, **shim.env), rows=50, cols=20000, preload=ctx.shim)
        try:
            for _ in range(8):
                # aim at a moment at which the journal is complete
                shim.arm(KILL, at=first)
                try:
                    s.ask(line)
                except Died:
                    break
                m.submit(line)
                states, exp, full = faults.reachable(m, line)
                first = max(1, first - 3)
        finally:
            s.kill()
            shim.close()
        stride = 1 if ctx.thorough else 2
        for k in range(1 + rng.randrange(stride), 300, stride):
            root = ctx.tmpdir()
            faults.copytree(broken, root)
            shim = Shim(ctx, root)
            env = {"_B_UTIL_DATA_DIR": root}
            shim.arm(KILL, at=k)
            s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, start=False, preload=ctx.shim)
            try:
                dead = False
                try:
                    s.wait_prompt()
                except Died:
                    dead = True
                    if s.status != -9:
                        raise Violation(what="no session starts after a kill", status=s.status, input=line, first_kill=first)
                shim.off()
                s.kill()
                info = dict(input=line, first_kill=first, second_kill=k if dead else None)
                self.verify(ctx, root, env, [st.copy() for st in states], info, out, shim)
                out.ok(repr((line, first, k)) if dead else None)
                out.counts["kill points hit while recovering" if dead else "recoveries survived"] += 1
                if not dead:
                    return
            finally:
                s.kill()
                shim.close()


CHECK = C21()
