"""C35: saved data stays interchangeable with other builds of its version."""
import os
import sys

from vlib import gen, ref
from vlib.core import Check
from vlib.peer import Peer
from vlib.saved import NAMES, World, value_expr

sys.set_int_max_str_digits(0)


class C35(Check):
    id = "C35"
    rule = ("real sessions and sessions of a reference implementation of the documented format "
            "(the statements and strictness of the first build of this version) use one data "
            "directory in turns, several of both running at a time, either of them creating it: "
            "lines, assignments of all sizes, mentions, reloads, purges, capacities, evictions. "
            "Each must read exactly what the other stored, by a model that doesn't know which of "
            "them did it, and the reference must never meet a table, row or value it cannot use. "
            "Non-trivial: distinct lines after a change of hands.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def line(self, rng, names, p, store):
        n = rng.choice(names)
        k = rng.random()
        if k < 0.4:
            return "%s=%s" % (n, value_expr(rng, names if rng.random() < 0.4 else ()))
        if k < 0.6:
            return rng.choice([n, "-" + n, "%s*1" % n, "%s+%s" % (n, rng.choice(names)), "%s=%s/0" % (n, n), "%s=" % n])
        if k < 0.68:
            return "/reloadvar " + " ".join(rng.sample(names, rng.randrange(1, 3)))
        if k < 0.74:
            return "/purgevar " + " ".join(rng.sample(names, rng.randrange(1, 3)))
        if k < 0.8:
            return "/histcap %d" % rng.choice([1, 2, 3, 5, 8, 13, 100, 2 ** 40])
        return rng.choice(["1+2", "", " ", "7*6", "'; DROP TABLE meta_int; --", "hello", "\"x\"", "%d" % rng.randrange(99), "1/0", "/nosuch", "2" * 300])

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        w = World(ctx, out)
        names = rng.sample(NAMES, 4)
        peers = 0
        last = None
        try:
            os.mkdir(os.path.join(w.root, "bcalc"))
            live = []
            n = 0
            while n < 60:
                if len(live) < 2 or (len(live) < 4 and rng.random() < 0.05):
                    kinds = [isinstance(p, Peer) for p in live]
                    if True in kinds and False in kinds:
                        peer = rng.random() < 0.5
                    else:
                        peer = not kinds[0] if kinds else rng.random() < 0.5
                    if peer:
                        peers += 1
                        p = Peer(w, "other%d" % peers)
                        p.compare()
                    else:
                        p = w.open()
                    live.append(p)
                    continue
                if rng.random() < 0.05:
                    p = live.pop(rng.randrange(len(live)))
                    p.close()
                    continue
                p = rng.choice(live)
                t = self.line(rng, names, p, w.store)
                # what a failed line brought into a session is uncertain
                if any(x in t for x in p.m.ambiguous):
                    x = next(x for x in sorted(p.m.ambiguous) if x in t)
                    t = ("/reloadvar " if x in w.store.vars else "/purgevar ") + x
                if not gen.cheap(t, 10, dict(p.m.vars, **{a: v[0] for a, v in w.store.vars.items()})):
                    continue
                big = [x for x, v in w.store.vars.items() if v[0].numerator.bit_length() + v[0].denominator.bit_length() > 12000]
                if big:
                    t = "%s=%d" % (rng.choice(big), rng.randrange(100))
                try:
                    if isinstance(p, Peer):
                        p.submit(t)
                    else:
                        p.ask(t)
                except (ref.TooBig, ref.Inexact):
                    continue
                n += 1
                out.counts["lines of the other build" if isinstance(p, Peer) else "lines of this build"] += 1
                if last is not p:
                    out.ok(t)
                last = p
                if rng.random() < 0.4:
                    w.compare()
                    for q in live:
                        if isinstance(q, Peer):
                            q.compare()
                            out.counts["readings by the other build"] += 1
                            out.ok()
            w.compare(deep=True)
            if len(out.samples) < 3:
                out.sample({"recent": w.recent[-20:]})
        finally:
            w.end()


CHECK = C35()
