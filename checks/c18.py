"""C18: variables survive sessions with their exact value."""
from vlib import gen, ref
from vlib.core import Check, Violation
from vlib.saved import NAMES, World, value_expr


class C18(Check):
    id = "C18"
    rule = ("sequences of sessions, one after the other and side by side, on one data directory "
            "that assign, read, reassign, reload and purge variables with values of any size, "
            "sign and denominator; every answer is compared with a model of the session's and "
            "the stored values, and the stored fractions are read from outside. Non-trivial: "
            "distinct (variable, value) read back by another session than assigned it.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def many(self, rng, ctx, out):
        """many variables and lines, two sessions and their successors"""
        w = World(ctx, out)
        names = ["$%s%d" % (rng.choice(["v", "w_", "a"]), i) for i in rng.sample(range(500), rng.choice([18, 35, 70, 110, 140]))]
        try:
            p = w.open()
            p.ask("/histcap %d" % rng.choice([60, 150, 600, 2000]))
            for i, n in enumerate(names):
                p.ask("%s=%d/%d" % (n, i, rng.randrange(1, 9)))
            if rng.random() < 0.5:
                p.close(rng)
                p = w.open()
            q = w.open()
            for r in range(3):
                for _ in range(len(names)):
                    n = rng.choice(names)
                    s = p if r == 1 or rng.random() < 0.3 else q
                    s.settle(n)
                    s.ask(n if rng.random() < 0.6 or n not in w.store.vars else "%s=%s+1" % (n, n))
                    out.ok(n + str(w.store.vars.get(n)))
                line = "+".join(n for n in rng.sample(names, rng.randrange(1, len(names))) if n in q.m.vars or n in w.store.vars) or "1"
                q.settle(line)
                q.ask(line)
                w.compare(("vars",))
                if rng.random() < 0.5:
                    rng.choice([p, q]).ask("/%s %s" % (rng.choice(["reloadvar", "reloadvar", "purgevar"]),
                                                       " ".join(rng.sample(names, rng.choice([5, 9, 17, len(names) // 2])))))
                    w.compare(("vars",))
                if rng.random() < 0.5:
                    q.close(rng)
                    q = w.open()
            p.ask("/reloadvar " + " ".join(rng.sample(names, rng.choice([len(names), len(names) - 1]))))
            for s in (p, q):
                for n in names:
                    if n not in s.m.ambiguous:
                        s.ask(n)
                s.close()
            w.compare(("vars",))
            out.counts["histories with many variables"] += 1
        finally:
            w.end()

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        if case["n"] % 10 == 6:
            return self.many(rng, ctx, out)
        w = World(ctx, out)
        names = rng.sample(NAMES, rng.choice([1, 2, 4, 6]))
        side = case["n"] % 2
        owner = {}
        try:
            live = [w.open(["--precision", "60"] if rng.random() < 0.3 else [])]
            if "--precision" in live[0].s.argv:
                live[0].m.cfg.precision = 60
            lines = 0
            while lines < 70:
                k = rng.random()
                if k < 0.12:
                    if len(live) > (2 if side else 0):
                        live.pop(rng.randrange(len(live))).close(rng)
                    if not live or (side and len(live) < 3 and rng.random() < 0.5):
                        argv, cfg = [], ref.Config()
                        if rng.random() < 0.3:
                            cfg = gen.config(rng)
                            if cfg.precision + cfg.extra > 255:
                                cfg.extra = 0
                            cfg.radix = 10
                            argv = cfg.options(rng)
                        p = w.open(argv)
                        p.m.cfg = cfg
                        live.append(p)
                    continue
                p = rng.choice(live)
                n = rng.choice(names)
                if p.m.ambiguous & set(names) and rng.random() < 0.7:
                    n = rng.choice(sorted(p.m.ambiguous))
                    line = rng.choice(["%s=%s" % (n, value_expr(rng)), "/reloadvar " + n])
                elif k < 0.42:
                    line = "%s%s%s" % (n, rng.choice(["=", " = ", "= "]), value_expr(rng, names))
                elif k < 0.66:
                    line = rng.choice([n, n, "-" + n, n + "*1", "%s-%s" % (n, rng.choice(names)), "max(%s,%s)" % (n, n),
                                       "(%s)+%d" % (n, rng.randrange(9)), "%s %s" % (n, n)])
                elif k < 0.76:
                    line = "/reloadvar " + " ".join(rng.sample(names, rng.randrange(1, min(3, len(names)) + 1)))
                elif k < 0.84:
                    line = "/purgevar " + " ".join(rng.sample(names, rng.randrange(1, min(2, len(names)) + 1)))
                elif k < 0.9:
                    line = rng.choice(["%s=1/0" % n, "%s=" % n, "%s=$nosuch" % n, "=%s" % n, "%s=(1" % n, "/purgevar", "/reloadvar",
                                       "/purgevar 1", "/reloadvar %s+1" % n, "%s=%s/0" % (n, n)])
                else:
                    line = rng.choice(["1+2", "", "7*6", "hello", "/precision"])
                mentions = [x for x in p.m.ambiguous if x in line]
                if mentions and "/reloadvar" not in line and "/purgevar" not in line and not (
                        line.startswith(mentions[0]) and "=" in line and not any(x in line.split("=", 1)[1] for x in mentions)):
                    continue
                if not gen.cheap(line, 10, dict(p.m.vars, **{a: v[0] for a, v in w.store.vars.items()})):
                    continue
                if any(x in w.store.vars and (w.store.vars[x][0].numerator.bit_length() > 4000 or
                                              w.store.vars[x][0].denominator.bit_length() > 4000) for x in names):
                    line = "%s=%d" % (next(x for x in names if x in w.store.vars and w.store.vars[x][0].numerator.bit_length() +
                                           w.store.vars[x][0].denominator.bit_length() > 4000), rng.randrange(100))
                try:
                    before = {x: v[0] for x, v in w.store.vars.items()}
                    had = dict(p.m.vars)
                    exp, got = p.ask(line)
                except (ref.TooBig, ref.Inexact):
                    continue
                lines += 1
                out.counts["inputs"] += 1
                if exp[0] == "value" and exp[2]:
                    owner[exp[2]] = p.name
                if exp[0] == "reload":
                    out.counts["reloads"] += 1
                for x in set(p.m.vars) - set(had):
                    if owner.get(x) not in (None, p.name) and x in before:
                        out.counts["values read from another session"] += 1
                        out.ok(repr((x, before[x])))
                if any(x in had and x in before and had[x] != before[x] and x in line for x in names):
                    out.counts["own value preferred to a newer stored one"] += 1
                if rng.random() < 0.5:
                    w.compare(("vars",))
                    out.ok()
                    out.counts["stored values compared"] += 1
            # everything must be read back exactly by a last session
            for p in list(live):
                p.close(rng)
            p = w.open()
            for x in names:
                v = w.store.vars.get(x)
                if v is None:
                    exp, got = p.ask(x)
                else:
                    try:
                        p.ask("(%s-(%d/%d))*10^50+%d" % (x, v[0].numerator, v[0].denominator, rng.randrange(10)))
                    except (ref.TooBig, ref.Inexact):
                        continue
                    out.counts["values verified by subtraction"] += 1
                    out.ok(repr((x, v[0])))
            p.close()
            if case["n"] < 3:
                out.sample({"steps": w.recent[:20]})
        finally:
            w.end()


CHECK = C18()
