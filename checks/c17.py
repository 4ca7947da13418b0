"""C17: the saved history is exactly the newest inputs up to its capacity."""
from vlib import db, gen, ref
from vlib.core import Check, Violation
from vlib.saved import NAMES, World

TEXTS = ["", " ", "1+2", "  7 ", "hello", "/help", "/nosuch", "((", "1/0", "'", "''", "\"q\"", "a;b--", "%s%d", "\\", "?1", ":input",
         "$x=1", "$x", "$y", "NULL", "1_000", "~`!@#&|<>{}[]", "x" * 300, " " * 40, "1" + "+1" * 120]


class C17(Check):
    id = "C17"
    rule = ("one to many sessions, sequential and side by side, on one data directory; inputs of "
            "all kinds (empty, blank, duplicates, quotes, long lines, errors, commands) and "
            "/histcap changes between 1 and 2^63-1, beyond the default capacity of 100; after "
            "every line (or every few; now and then with the stored ids, which only identify, renumbered) the tables are dumped from outside and compared with a "
            "model of the bounded list, and their chain, end markers and references are "
            "checked. Non-trivial: dumps after at least one eviction or capacity change.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def long_line(self, rng, j):
        """a line that needs more than one page of the database, or nearly"""
        n = rng.choice([255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 3900, 4000, 4096, 4100,
                        5000, 8200, rng.randrange(300, 3000)])
        return rng.choice(["%d" % j, "x%d" % j, "(%d" % j, "'%d" % j]) + rng.choice(["0", "x", " ", "'", "12"]) * n + \
            rng.choice(["", " ", "9", ")", "!%d" % j])

    def line(self, rng, j):
        k = rng.random()
        if rng.random() < 0.015:
            return self.long_line(rng, j)
        if k < 0.4:
            return rng.choice(TEXTS)
        if k < 0.6:
            return "%d+%d" % (j, rng.randrange(10))
        if k < 0.8:
            t = gen.noise_line(rng)
            t = "".join(c for c in t if 32 <= ord(c) < 127)
            return t if not t.lstrip().startswith("/") else "1" + t
        return "%s=%d" % (rng.choice(NAMES), j)

    def long_list(self, rng, ctx, out):
        """many stored inputs, and capacities far below their number"""
        w = World(ctx, out)
        try:
            p = w.open()
            for _ in range(2):
                n = rng.choice([120, 250, 257, 511, 513, 520, 600, 700, 1000, 1025, 1300])
                have = len(w.store.hist)
                p.ask("/histcap %d" % (have + n + rng.choice([1, 2, 50, 10 ** 6])))
                more = [rng.choice(["%d+1", "x%d", "$a%d", "(%d", ""]).replace("%d", str(j)) for j in range(n)]
                more = more[:max(0, w.store.cap - len(w.store.hist))]
                db.add_lines(w.root, more)
                for t in more:
                    w.store.add(t)
                w.recent.append("(%d lines of another session)" % len(more))
                w.compare(("cap", "inputs"))
                if rng.random() < 0.4:
                    p.close(rng)
                    p = w.open()
                for _ in range(rng.choice([1, 2, 3])):
                    have = len(w.store.hist)
                    c = rng.choice([1, 2, 3, 10, 100, max(1, have - 513), max(1, have - 600), max(1, have - 130), max(1, have // 2), max(1, have - 1)])
                    p.ask("/histcap %d" % c)
                    w.compare(("cap", "inputs"), deep=rng.random() < 0.3)
                    out.counts["dumps compared"] += 1
                    out.counts["inputs dropped at once"] += max(0, have + 1 - c)
                    out.ok(repr((have, c)))
                    p.ask("%d" % rng.randrange(100))
                    w.compare(("cap", "inputs"))
            p.close(rng)
            w.compare(("cap", "inputs"), deep=True)
            out.counts["evictions"] += w.store.evictions
        finally:
            w.end()

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        if case["n"] % 12 == 5:
            return self.long_list(rng, ctx, out)
        w = World(ctx, out)
        style = case["n"] % 4
        every = rng.choice([1, 1, 3]) if style != 3 else 10
        todo = {0: 60, 1: 60, 2: 80, 3: 260}[style]
        changed = 0
        try:
            p = w.open()
            others = []
            if style == 0:
                # small capacities from the start
                p.ask("/histcap %d" % rng.choice([1, 1, 2, 3, 5]))
                changed = 1
            j = 0
            while j < todo:
                j += 1
                k = rng.random()
                q = rng.choice([p] + others)
                if style != 3 and k < 0.08 or style == 3 and k < 0.01:
                    n = len(w.store.hist)
                    c = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 99, 100, 101, max(1, n - 1), max(1, n), n + 1, max(1, n // 2),
                                    n + 2, 1000, 2 ** 31, 2 ** 63 - 1, 0, -1, -5])
                    line = rng.choice(["/histcap %d", "/histcap  %d", "/histcap %d.0", " /histcap %d "]) % c
                    changed += 1
                elif k < 0.12:
                    line = rng.choice(["/histcap", "/histcap 1.5", "/histcap x", "/histcap 3 4", "/histcap 1/2", "/histcap 9223372036854775808",
                                       "/histcap -", "/histcap 0", "/reloadvar", "/reloadvar $x", "/purgevar $x"])
                elif k < 0.17 and style != 3:
                    if others and rng.random() < 0.6:
                        o = others.pop(rng.randrange(len(others)))
                        o.close(rng)
                    elif len(others) < 2:
                        others.append(w.open())
                    continue
                elif k < 0.22:
                    p.close(rng)
                    if not others and rng.random() < 0.4 and db.renumber(w.root, rng):
                        w.recent.append("(ids renumbered)")
                        w.compare(("cap", "inputs"), deep=True)
                        out.counts["renumbered"] += 1
                    p = w.open()
                    out.counts["restarts"] += 1
                    continue
                else:
                    line = self.line(rng, j)
                    if not gen.cheap(line, 10, None):
                        continue
                try:
                    q.settle(line)
                    q.ask(line)
                except (ref.TooBig, ref.Inexact):
                    continue
                out.counts["inputs"] += 1
                if j % every == 0 or j == todo:
                    w.compare(("cap", "inputs"), deep=rng.random() < 0.05)
                    nt = w.store.evictions or changed
                    out.ok(repr((w.store.cap, w.recent[-12:])) if nt else None)
                    out.counts["dumps compared"] += 1
                    if w.store.evictions:
                        out.counts["dumps after evictions"] += 1
            for o in others:
                o.close(rng)
            p.close(rng)
            w.compare(("cap", "inputs"), deep=True)
            out.counts["evictions"] += w.store.evictions
            if case["n"] < 3:
                out.sample({"capacity": w.store.cap, "steps": w.recent[-15:]})
        finally:
            w.end()


CHECK = C17()
