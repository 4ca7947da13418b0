"""C19: a stored variable lives as long as the last input that mentions it."""
from vlib import gen, ref
from vlib.core import Check, Violation
from vlib.saved import NAMES, World


class C19(Check):
    id = "C19"
    rule = ("sessions with small capacities that mention variables in every way (assignment, "
            "use, failing, malformed and duplicate expressions, /reloadvar, /purgevar, "
            "histories walked with Up) and others that do not; after every line the stored "
            "variables and the input each belongs to are compared with a last-mention model, "
            "and fresh sessions probe which are available. Non-trivial: dumps in which a "
            "variable has expired or outlived its assignment.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def mention(self, rng, n, m):
        return rng.choice([n, n + "+1", "1/0+" + n, n + "/0", "(%s" % n, n + " " + n, "%s=%s" % (m, n), "%s+%s" % (n, m), "max(%s,1)" % n,
                           "$q=%s+$nosuch" % n, "%s=" % n, "=%s" % n, "%s==1" % n, "/reloadvar " + n, "/r 10", "  %s  " % n, "1 %s 2" % n,
                           "/reloadvar %s %s" % (n, m), "/reloadvar $nosuch " + n, "/reloadvar %s 1" % n, "%s=%s*2" % (n, n), "sqrt " + n,
                           "/help %s" % n, "/nosuch %s" % n, "%s & 1" % n, "1.2.3+%s" % n, "/purgevar %s 1" % n, "%s=2" % (n + "z"), n + "+", n + "-", "*" + n, n + ")",
                           n + ",1", "max(" + n, n + "++1", "%s=%s=3" % (m, n), "(%s))" % n, n + "^", n + " (", "2" + n, n + "abs", n + "1.2.3",
                           "%s %s +" % (n, m), "-" + n + "--", "+" + n, "()" + n, "%s 1 +" % n, "mod(%s" % n, "mod(%s,0)" % n, "nosuch(%s)" % n,
                           n.swapcase() if n.swapcase() != n else n + "_"])

    def many(self, rng, ctx, out):
        """lines that mention many variables"""
        w = World(ctx, out)
        names = ["$%s%d" % (rng.choice(["v", "w_", "a"]), i) for i in rng.sample(range(500), rng.choice([9, 18, 35, 70, 110]))]
        try:
            p = w.open()
            cap = len(names) + rng.choice([1, 2, 5, 20])
            p.ask("/histcap %d" % cap)
            for i, n in enumerate(names):
                p.ask("%s=%d" % (n, i))
            for _ in range(rng.choice([2, 4])):
                if rng.random() < 0.3:
                    p.close(rng)
                    p = w.open()
                known = [n for n in names if n in w.store.vars]
                some = known if rng.random() < 0.5 else rng.sample(known, rng.randrange(len(known) + 1))
                rng.shuffle(some)
                k = rng.randrange(4)
                line = ("+".join(some) if k == 0 else "max(%s)" % ", ".join(some) if k == 1 else "/reloadvar " + " ".join(some) if k == 2 else
                        " ".join(some))
                p.settle(line)
                p.ask(line or "1")
                w.compare()
                for _ in range(rng.randrange(1, cap)):
                    p.ask("")
                d = w.compare()
                out.ok(line)
            out.counts["histories with many variables"] += 1
            for n in names:
                if n not in p.m.ambiguous and rng.random() < 0.3:
                    p.ask(n)
            p.close()
        finally:
            w.end()

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        if case["n"] % 10 == 6:
            return self.many(rng, ctx, out)
        w = World(ctx, out)
        names = rng.sample(["$a", "$b", "$x", "$X", "$foo", "$Foo"], rng.choice([1, 2, 3, 3, 5, 6]))
        try:
            live = [w.open()]
            live[0].ask("/histcap %d" % rng.choice([1, 2, 2, 3, 4, 5, 6, 8] if len(names) < 4 else [5, 8, 12, 20]))
            lines = 0
            while lines < 80:
                k = rng.random()
                if k < 0.06:
                    if len(live) > 1 or rng.random() < 0.5:
                        live.pop(rng.randrange(len(live))).close(rng)
                    if not live or (len(live) < 2 and rng.random() < 0.5):
                        live.append(w.open())
                    continue
                p = rng.choice(live)
                n, o = rng.choice(names), rng.choice(names)
                if k > 0.94 and len(names) > 2:
                    several = [rng.choice(names + ["$nosuch"]) for _ in range(rng.randrange(2, 8))]
                    line = rng.choice(["/reloadvar " + " ".join(several), "+".join(several), "max(%s)" % ",".join(several),
                                       "/reloadvar " + "  ".join(several)])
                elif k < 0.3:
                    line = "%s=%d" % (n, rng.randrange(1000))
                elif k < 0.55:
                    line = self.mention(rng, n, o)
                elif k < 0.58:
                    line = "/purgevar " + n
                elif k < 0.65:
                    line = "/histcap %d" % rng.choice([1, 2, 3, 4, 5, 6, 8, 12] if len(names) < 4 else [3, 6, 8, 12, 20])
                else:
                    line = rng.choice(["1+2", "", "hello", "/radix", "7", "/help", "((", "a", n[1:], "/histcap"])
                names_in = set(names) & p.m.ambiguous
                if any(x in line for x in names_in) and not line.startswith("/"):
                    line = "/reloadvar " + sorted(names_in)[0]
                if "sqrt" in line:
                    p.w.store  # its value is inexact: only its mention counts
                    self.inexact(p, line, n)
                else:
                    try:
                        p.ask(line)
                    except (ref.TooBig, ref.Inexact):
                        continue
                lines += 1
                d = w.compare(deep=rng.random() < 0.03)
                alive = {x for x in w.store.vars}
                old = [x for x, v in w.store.vars.items() if v[1] in dict(w.store.hist) and
                       not dict(w.store.hist)[v[1]].strip().startswith(x + "=")]
                out.counts["inputs"] += 1
                out.counts["dumps with variables kept by a mention"] += bool(old)
                out.ok(repr((w.store.cap, w.store.snapshot()["vars"], [t for _, t in w.store.hist]))
                       if old or w.store.evicted_vars else None)
                if rng.random() < 0.08:
                    # availability, seen by a fresh session; asking is a mention too
                    f = w.open()
                    x = rng.choice(names)
                    exp, got = f.ask(x)
                    out.counts["availability probes: " + ("there" if exp[0] == "value" else "gone")] += 1
                    f.close()
            out.counts["variables expired"] += w.store.evicted_vars
            for p in live:
                # eviction never affects running sessions
                for x in names:
                    if x in p.m.vars and x not in w.store.vars:
                        p.ask(x)
                        out.counts["expired variables still known in their session"] += 1
                p.s.close()
            if case["n"] < 3:
                out.sample({"steps": w.recent[:25]})
        finally:
            w.end()

    def inexact(self, p, line, n):
        m = p.m
        i = m.store.add(line)
        m.store.touch(n, i)
        if n not in m.vars and n in m.store.vars:
            m.vars[n] = m.store.vars[n][0]
        p.w.recent.append("%s: %s" % (p.name, line))
        p.s.ask(line)


CHECK = C19()
