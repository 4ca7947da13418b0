"""C10: variables hold the exact value last assigned to them."""
from vlib import calc, gen, model, ref
from vlib.core import Check

NAMES = ["$x", "$X", "$xx", "$x1", "$x_", "$y", "$total", "$Total", "$TOTAL", "$a.b", "$1", "$ff",
         "$_", "$", "$max", "$sqrt", "$x'", "$\"q", "$x;y", "$%d" % 5, "$verylong" + "name" * 20,
         "$x\\", "$x$y", "$\x7e", "$x!", "$xX"]


ALPHABET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.$!'\"#&:;<>?@[]\\`{|}~"


def near_names(rng):
    """names that only differ a little: in one place, in case, in length"""
    n = rng.choice([1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 300])
    if rng.random() < 0.6:
        n = rng.randrange(1, 70)
    base = "".join(rng.choice(ALPHABET) for _ in range(n)) if rng.random() < 0.5 else rng.choice("ax1_") * n
    out = {base}
    for at in {0, n - 1, n // 2, rng.randrange(n)}:
        for c in (rng.choice(ALPHABET), base[at].swapcase()):
            out.add(base[:at] + c + base[at + 1:])
    out |= {base + rng.choice(ALPHABET), base[:-1], base + base, base.swapcase(), base[::-1], base[1:], base + "_",
            base[0] + base}
    return ["$" + x for x in sorted(out)]


class C10(Check):
    id = "C10"
    rule = ("sessions (without and with a database) of assignments, uses, failing inputs, "
            "purges and setting changes over a pool of similar variable names and exact values "
            "(large, tiny, fractional); every answer is compared with a model of the variable "
            "store, uses of variables most of all. Non-trivial: answers involving a variable.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def line(self, rng, m, names):
        r = m.cfg.radix
        k = rng.random()
        known = [n for n in names if n in m.vars]
        if k < 0.3:
            t = gen.render(rng, gen.tree(rng, r, rng.choice([1, 1, 2, 4]), rng.choice([5, 30]),
                                         ops="+-*/%", variables=known), tabs=False)
            return "%s%s%s" % (rng.choice(names), rng.choice(["=", " = ", " =", "= "]), t)
        if k < 0.36:
            # an assignment from the variable itself / a rounded value
            n = rng.choice(known or names)
            return "%s = %s" % (n, rng.choice(["%s+1", "%s*%s", "-%s", "%s/3", "(%s)", "%s^2", "abs %s"
                                              ]).replace("%s", n))
        if k < 0.6:
            return rng.choice(["%s", "%s", " %s ", "-%s", "%s*3", "%s-%s", "abs %s", "max(%s,0)"
                               ]).replace("%s", rng.choice(known if known and rng.random() < 0.85 else names))
        if k < 0.68:
            a, b = rng.choice(known or names), rng.choice(names)
            return rng.choice(["%s = %s", "%s+%s", "%s - %s * 2", "(%s)/(%s)"]) % (b, a)
        if k < 0.8:
            # fails after or before the assignment could have happened
            n, z = rng.choice(names), rng.choice(known or names)
            return rng.choice([
                "%s = 1/0", "%s = $undefined", "%s = (1", "%s = 1 2", "%s = ", "%s == 1", "%s = 1)",
                "%s = max()", "1 = %s", "%s %s = 3", "2 + (%s = 3)", "(%s) = 3", "%s = sqrt -1",
                "%s = 1 + $z = 2", "-%s = 2", "%s = 5 5", "%s = 1%%0", "%s = @", "%s = 1.2.3",
                "%s=0^-1", "= %s", "%s += 1", "%s, %s", "%s = 7 + " + z + "/0"]).replace("%s", n).replace("%%", "%")
        if k < 0.87:
            return "/purgevar " + " ".join(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3])))
        if k < 0.89:
            return "/purgevar " + rng.choice(["x", "$x 1", "$nosuch", "$x,", "$x,$y", "$x+$y", "", "$x /p", "5"])
        return rng.choice(["/precision %d" % rng.choice([0, 1, 5, 20]), "/fractional t", "/f f",
                           "/radix %d" % rng.choice([10, 16, 2, 7]), "/r 10", "/commas t", "/comma f",
                           "/converttoradix %d" % rng.randrange(2, 17), "/converttoradix none",
                           "/upper t", "/upper f", "", "1+1", "/help", "/radix"])

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = ref.Config(fractional=rng.random() < 0.5, precision=rng.choice([5, 0, 3, 30]))
        if rng.random() < 0.35:
            names = near_names(rng)
            names = rng.sample(names, min(len(names), rng.choice([4, 8, 12])))
            out.counts["sessions with near-identical names"] += 1
        else:
            names = rng.sample(NAMES, rng.choice([2, 4, 8, 16]))
        env = {}
        store = None
        argv = cfg.options()
        if rng.random() < 0.3:
            env["_B_UTIL_DATA_DIR"] = ctx.tmpdir()
            store = model.Store()
        else:
            argv.append("--no-db")
        m = model.Session(cfg, store)
        recent = []
        many = case["n"] % 9 == 4
        if many:
            names = rng.sample(names, min(2, len(names))) + ["$%s%d" % (rng.choice(["v", "v", "x", "_"]), i)
                                                             for i in rng.sample(range(1000), rng.choice([20, 35, 70, 110, 140, 270]))]
            names = sorted(set(names), key=lambda n: rng.random())
            out.counts["sessions with many variables"] += 1
        with calc.Lines(ctx.bin, argv, env=env) as lines:
            if many:
                for i, n in enumerate(names):
                    line = "%s=%d" % (n, i + 2) if rng.random() < 0.8 else "%s=%d/7" % (n, i)
                    model.check(lines.ask(line), m.submit(line), line, recent, argv=argv)
                if rng.random() < 0.5:
                    line = "/purgevar " + " ".join(rng.sample(names, rng.choice([len(names), len(names) // 2, rng.randrange(1, len(names))])))
                    recent.append((line, ""))
                    model.check(lines.ask(line), m.submit(line), line, recent, argv=argv)
            for j in range(70):
                line = self.line(rng, m, names)
                if j % 10 == 9:
                    line = "/fractional t"
                try:
                    m.dry(line)
                except (ref.TooBig, ref.Inexact):
                    continue
                exp = m.submit(line)
                got = lines.ask(line)
                recent.append((line, got[:60]))
                model.check(got, exp, line, recent, argv=argv)
                out.counts[exp[0]] += 1
                if "$" in line:
                    out.ok(line + "|" + got)
            # full read-back
            lines.ask("/f t")
            m.submit("/f t")
            for n in names:
                exp = m.submit(n)
                got = lines.ask(n)
                recent.append((n, got[:60]))
                model.check(got, exp, n, recent, argv=argv, at="final read-back")
                out.ok()
                out.counts["read-backs"] += 1
        if case["n"] < 3:
            out.sample({"session": recent[:8]})


CHECK = C10()
