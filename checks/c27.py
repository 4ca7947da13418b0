"""C27: power loss never damages saved data."""
import os
import shutil

from vlib import db, disk, faults, gen, model, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import KIND, OPEN, UNLINK, WRITE, Shim
from vlib.session import Died, Session

MODES = ["none", "few", "half", "most", "random", "ordered", "names", "data", "ordered", "random", "none"]
EMPTY = {"cap": 100, "inputs": [], "vars": {}}


class C27(Check):
    id = "C27"
    rule = ("the file-system calls of real sessions (new and existing data, one or two sessions, inputs of every "
            "kind) are recorded and replayed on a disk model up to a random call; what wasn't synced is then lost "
            "in a random way (all, some sectors, names, sizes, out of order). The real calculator is "
            "started on what is left: it must start, the data must be well formed and equal to the "
            "data after the update then complete, the one before or the one in progress, and must be usable. "
            "Non-trivial: distinct (recording, call, loss).")
    assumptions = ("a sync makes everything written to that file durable, a directory sync the names in it",
                   "a created directory is durable (the calculator doesn't sync the data directory's parent)",
                   "sectors of 512 bytes are written completely or not at all; other bytes are not harmed")
    shim = True
    confirm = 2

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        root = ctx.tmpdir()
        base = rng.random() < 0.75
        env = {"_B_UTIL_DATA_DIR": root}
        lines = []
        if base:
            s = Session(ctx.bin, [], env, rows=50, cols=20000)
            m = model.Session(ref.Config(), model.Store())
            try:
                for line in faults.base_lines(rng, long=True):
                    self.submit(s, m, line, None)
                s.close()
            finally:
                s.kill()
            store = m.store
        else:
            store = model.Store()
        d = disk.Disk(root)
        shim = Shim(ctx, root, log=True)
        ss = []
        try:
            n = rng.choice([1, 1, 1, 2])
            for _ in range(n):
                s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, preload=ctx.shim)
                ss.append((s, model.Session(ref.Config(), store)))
            for _ in range(rng.choice([1, 2, 4, 8])):
                s, m = rng.choice(ss)
                line = faults.op_line(rng, long=True)
                if rng.random() < 0.1:
                    s.send(b"\x1b[A\x1b[A\x1b[B\x1b[B")
                    s.settle()
                self.submit(s, m, line, lines)
                if rng.random() < 0.1:
                    # the session is left and a new one comes
                    s.close()
                    ss.remove((s, m))
                    s = Session(ctx.bin, [], dict(env, **shim.env), rows=50, cols=20000, preload=ctx.shim)
                    ss.append((s, model.Session(ref.Config(), store)))
            for s, m in ss:
                if rng.random() < 0.5:
                    s.close()
        except Died as x:
            raise Violation(what="a session ended", status=x.session.status, lines=lines)
        finally:
            for s, m in ss:
                s.kill()
        log = shim.log()
        shim.close()
        if not any(r[0] == WRITE for r in log):
            raise Inconclusive("nothing was recorded")
        self.lose(ctx, rng, root, d, log, lines, out, case, base)

    def submit(self, s, m, line, lines):
        vals = dict(m.vars, **{a: v[0] for a, v in m.store.vars.items()})
        if not gen.cheap(line, 10, vals) or any(n in line for n in m.ambiguous):
            return
        try:
            m.dry(line)
        except (ref.TooBig, ref.Inexact):
            return
        m.submit(line)
        s.ask(line)
        if lines is not None:
            lines.append(line)

    def intact(self, ctx, files, root):
        """the data if nothing is lost: the state a killed process leaves"""
        to = ctx.tmpdir()
        try:
            disk.write_out(files, root, to)
            if not os.path.exists(db.path(to)):
                return EMPTY
            try:
                d = db.Dump(to)
            except Exception:
                return EMPTY
            if d.problems:
                return None
            return d.snapshot()
        finally:
            shutil.rmtree(to, ignore_errors=True)

    def lose(self, ctx, rng, root, d, log, lines, out, case, base):
        # first pass: the data after each call, nothing lost
        first = disk.Disk.__new__(disk.Disk)
        first.__dict__.update(root=root, now={p: disk.Inode(i.data) for p, i in d.now.items()}, pending=[], stats=dict(d.stats))
        first.safe = dict(first.now)
        updates = [self.intact(ctx, first.full(), root)]
        at = []                        # index of the current update after each call
        for r in log:
            if first.apply(r):
                v = self.intact(ctx, first.full(), root)
                if v is None:
                    raise Violation(what="the recorded calls lead to damaged data without any loss", lines=lines)
                if db.differences(v, updates[-1]):
                    updates.append(v)
            at.append(len(updates) - 1)
        out.counts["recorded calls"] += len(log)
        out.counts["updates recorded"] += len(updates) - 1
        for k, v in first.stats.items():
            out.counts[k] += v
        points = list(range(1, len(log) + 1))
        # favour moments with something at stake
        seen = set()
        budget = 60 if ctx.thorough else 36
        rng.shuffle(points)
        points = sorted(points[:budget])
        k = 0
        for p in points:
            while k < p:
                d.apply(log[k])
                k += 1
            if not d.at_stake():
                continue
            for mode in rng.sample(MODES, 2):
                files, lost = d.crash(rng, mode)
                sig = (p, tuple(sorted((a, b) for a, b in files.items())))
                if sig in seen:
                    continue
                seen.add(sig)
                self.restart(ctx, rng, root, files, lost, updates, at[p - 1], lines, out,
                             dict(after_call="%d of %d (%s %s)" % (p, len(log), KIND.get(log[p - 1][0] & 0xffff, "?"), os.path.basename(log[p - 1][1])),
                                  mode=mode, lost=lost[:20], new_data=not base))
        if case["n"] < 4:
            out.sample({"lines": lines, "calls": len(log), "updates": len(updates) - 1, "losses tried": len(seen)})

    def restart(self, ctx, rng, root, files, lost, updates, u, lines, out, info):
        to = ctx.tmpdir()
        os.makedirs(os.path.join(to, "bcalc"), exist_ok=True)
        disk.write_out(files, root, to)
        info = dict(info, lines=[x[:80] for x in lines])
        try:
            s = Session(ctx.bin, [], {"_B_UTIL_DATA_DIR": to}, rows=50, cols=20000)
        except Died as x:
            raise Violation(what="no session starts after the power loss", status=x.session.status,
                            screen="\n".join(filter(None, ("".join(y).rstrip() for y in x.session.emu.main.lines)))[-500:], **info)
        try:
            d = db.Dump(to, deep=True)
            if d.problems:
                raise Violation(what="the saved data is damaged after the power loss", problems=d.problems[:5], **info)
            got = d.snapshot()
            allowed = updates[max(0, u - 1):u + 2]
            hit = [i for i, a in enumerate(allowed) if not db.differences(got, a)]
            if not hit:
                raise Violation(what="more than the most recent update is lost, or part of one",
                                to_current=db.differences(got, updates[u])[:4], to_previous=db.differences(got, updates[max(0, u - 1)])[:4], **info)
            i = max(0, u - 1) + hit[-1]
            out.counts["found: " + ("the complete data" if i >= u else "the last update lost")] += 1
            if rng.random() < 0.2:
                if s.ask("$z=41") != "41" or s.ask("$z+1") != "42":
                    raise Violation(what="the saved data isn't usable after the power loss", **info)
                e = db.Dump(to)
                cap = got["cap"]
                want = (got["inputs"] + ["$z=41", "$z+1"])[-cap:]
                if e.problems or e.inputs != want or cap > 1 and e.value("$z") != 41:
                    raise Violation(what="the saved data isn't updated properly after the power loss", problems=e.problems[:3], **info)
                out.counts["used afterwards"] += 1
            s.close()
            out.ok(repr((info["after_call"], lost, info["lines"])))
        except Died:
            raise Violation(what="the session after the power loss ended", status=s.status, **info)
        finally:
            s.kill()
            shutil.rmtree(to, ignore_errors=True)


CHECK = C27()
