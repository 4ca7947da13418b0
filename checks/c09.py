"""C09: undefined mathematics is an error, never a value."""
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check, Violation

VARS = {"$zero": Fraction(0), "$neg": Fraction(-4), "$pos": Fraction(9), "$half": Fraction(1, 2),
        "$q": Fraction(-7, 3)}


class C09(Check):
    id = "C09"
    rule = ("expressions with one undefined operation (division or modulus by zero, zero to a "
            "negative power, even root of a negative number, max/min of nothing, unknown or "
            "purged variable), its zero/negative operand computed in many ways, at a random "
            "place of a random surrounding expression, alone or as an assignment, in sessions "
            "and one-shot; plus defined look-alikes that must not be refused. Non-trivial: "
            "distinct lines.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    # expressions that are zero / negative / positive
    def zero(self, rng, v):
        n = rng.choice(["1", "2", "7", "0.5", "123456789012345678901234567890", "1/3", "99"])
        c = ["0", "0.0", "0.000000", "-0", "(%s-%s)" % (n, n), "(0*%s)" % n, "(0/%s)" % n,
             "(%s%%%s)" % ("6", rng.choice("123")), "max(0,-%s)" % n, "min(0,%s)" % n,
             "abs 0", "sqrt 0", "(0^%s)" % rng.choice("123"), "(1/3*3-1)", "(0.1+0.2-0.3)",
             "(2^0-1)", "(sqrt 4-2)", "(8^(1/3)-2)", "--0", "(5-3-2)", "_0_", ".0", "0."]
        if v:
            c += ["$zero", "($pos-9)", "($q*3+7)", "(%s*$zero)" % n, "($half-.5)"]
        return rng.choice(c)

    def negative(self, rng, v):
        n = rng.choice(["1", "2", "4", "0.25", "9", "1/4", "100000000000000000000", "0.0001"])
        c = ["-" + rng.choice(["1", "4", "9", ".25", "0.000001", "16"]), "(1-%s-1)" % n,
             "(-(%s))" % n, "(0-%s)" % n, "max(-%s, -200000000000000000000)" % n.replace("1/4", ".25"),
             "min(1, -2)", "(-7%4)", "((-2)^3)", "(1/-4)", "((-8)^(1/3))", "(3-5)", "(-2)^-1",
             "(1-sqrt 2)", "(-1-0.0000000001)"]
        if v:
            c += ["$neg", "($neg*$pos)", "$q", "(0-$half)", "(-$pos)"]
        s = rng.choice(c)
        return s if s.startswith("(") and s.endswith(")") and s.count("(") == 1 else "(" + s + ")"

    def any(self, rng, v):
        c = ["1", "0", "5", "-3", "2.5", "(1/3)", "7*2", "abs -2", "max(1,2)", "(2^10)", "100"]
        if v:
            c += ["$pos", "$half", "$neg", "$zero"]
        return rng.choice(c)

    def undefined(self, rng, v):
        k = rng.randrange(7 if v else 6)
        if k == 0:
            z = self.zero(rng, v)
            return "%s/%s" % (self.any(rng, v), z), "division by zero"
        if k == 1:
            return "%s%%%s" % (self.any(rng, v), self.zero(rng, v)), "modulus by zero"
        if k == 2:
            e = rng.choice(["-1", "-2", "-3", "(-1/2)", "(-1/3)", "(-7/2)", "(1-2)", "-100",
                            "-.5", "(2-4)"] + (["$neg", "$q", "(-$half)"] if v else []))
            return "(%s)^%s" % (self.zero(rng, v), e), "zero to a negative power"
        if k == 3:
            return rng.choice(["sqrt %s", "sqrt(%s)", "sqrt - abs%s"]) % self.negative(rng, v), \
                "square root of a negative"
        if k == 4:
            e = rng.choice(["(1/2)", ".5", "(1/4)", "(3/2)", "(-1/2)", "(2/4)", "(1/6)", "1.5", "(5/8)",
                            "(1/12)", "(0.25)", "-.5", "(3/10)", "(1/%d)" % (2 * rng.randrange(6, 130)), "(3/64)", "(-1/20)", "(7/%d)" % 2 ** rng.randrange(4, 40)] + (["$half"] if v else []))
            return "%s^%s" % (self.negative(rng, v), e), "even root of a negative"
        if k == 5:
            return rng.choice(["max()", "min()", "max( )", "min(  )", "abs max()", "-min()"]), \
                "no arguments"
        return rng.choice(["$nosuch", "$ZERO", "$zer", "$zero_", "$", "$gone", "$neg2", "$pos."]), "unknown variable"

    def many(self, rng, t, v):
        """one of many arguments, or of many terms"""
        n = rng.choice([3, 4, 5, 8, 12, 40])
        parts = [self.any(rng, v) for _ in range(n)]
        parts[rng.randrange(n)] = t
        return rng.choice(["max(%s)", "min(%s)", "max(1,min(%s),2,3)"]) % ",".join(parts) if rng.random() < 0.7 else \
            "(" + rng.choice("+-*").join(parts) + ")"

    def surround(self, rng, core, v, n):
        t = "(" + core + ")"
        for _ in range(n):
            a = self.any(rng, v)
            k = rng.randrange(16)
            t = ["(%s+%s)" % (a, t), "(%s-%s)" % (t, a), "(0*%s)" % t, "(%s*%s)" % (t, a),
                 "(%s)^0" % t, "0/%s" % t, "abs %s" % t, "-%s" % t, "max(%s,%s)" % (a, t),
                 "min(%s,%s,%s)" % (t, a, a), "(%s+%s*%s)" % (a, a, t), "%s%%7" % t,
                 "max(%s,%s,1)" % (a, t), "(1^%s)" % t, self.many(rng, t, v), self.many(rng, t, v)][k]
            t = "(" + t + ")"
        return t

    def defined(self, rng, v):
        z = self.zero(rng, v)
        if rng.random() < 0.06:
            # very near to zero, very large, very long
            n = rng.choice([40, 300, 1200, 2500, 6000])
            t = rng.choice(["(2^-%d)" % n, "(1/3^%d)" % n, "(-(7^-%d))" % n, "0." + "0" * (n // 20) + "1", "(1/3-0.%s)" % ("3" * (n // 20)),
                            "(-(10^-%d))" % n, "(1-(1-2^-%d))" % n])
            return rng.choice(["1/%s", "3%%%s", "2^4000/%s", "%s/%s", "0/%s", "sqrt(%s*%s)", "%s^-1", "%s^-2", "abs %s", "1/max(%s,0,%s)",
                               "0/-%s", "(%s)^0"]).replace("%%", "%").replace("%s", t)
        return rng.choice(["%s/5" % z, "%s%%5" % z, "(%s)^3" % z, "(%s)^0" % z, "sqrt (%s)" % z,
                           "(-8)^(1/3)", "(-1)^(1/7)", "(-27)^(2/3)", "(-32)^(3/5)", "max(0)", "min 0",
                           "(-4)^2", "(-4)^-2", "sqrt((-4)^2)", "(-4)^(2/2)", "5%-3", "-5/-1",
                           "(-8)^(-1/3)*0+1", "(%s)^(1/2)" % z, "0^(2-2)", "((-2)^2)^(1/2)"])

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = ref.Config(fractional=rng.random() < 0.5)
        argv = cfg.options()
        store = dict(VARS)
        with calc.Lines(ctx.bin, ["--no-db"] + argv, cheap=True) as lines:
            for name, v in VARS.items():
                lines.ask("%s = %s" % (name, ref.fmt_fraction(v, 10)))
            lines.ask("$gone=0")
            lines.ask("/purgevar $gone")
            for j in range(40):
                v = rng.random() < 0.6
                if rng.random() < 0.15:
                    text = self.defined(rng, v)
                    try:
                        exp = ref.answer(text, cfg, store if v else None)
                    except (ref.Inexact, ref.TooBig):
                        continue
                    if exp[0] != "value":
                        continue
                    got = lines.ask(text)
                    calc.judge(got, exp, text, argv, "defined look-alike")
                    out.counts["defined"] += 1
                    out.ok(text)
                    continue
                core, kind = self.undefined(rng, v)
                text = self.surround(rng, core, v, rng.choice([0, 0, 1, 1, 2, 3, 5]))
                if rng.random() < 0.3:
                    text = core
                # the oracle must agree that this is undefined
                try:
                    exp = ref.answer(text, cfg, store if v else None)
                    assert exp[0] == "error" and exp[1] == "math", (text, exp)
                except (ref.Inexact, ref.TooBig):
                    exp = ("error", "math")
                target = None
                if v and rng.random() < 0.4:
                    target = rng.choice(list(VARS) + ["$new%d" % j])
                    text = target + rng.choice([" = ", "="]) + text
                if not v and rng.random() < 0.4:
                    got = calc.eval_oneshot(ctx.bin, text, argv, cheap=True)
                    out.counts["one-shot"] += 1
                else:
                    got = lines.ask(text)
                calc.judge(got, exp, text, argv, kind)
                if target:
                    got = lines.ask(target)
                    want = ("value", cfg.show(store[target])) if target in store else ("error", "math")
                    calc.judge(got, want, text + " ; " + target, argv,
                               "variable after a failed assignment")
                    out.counts["failed assignments"] += 1
                out.counts[kind] += 1
                out.ok(text)
                if j == 0:
                    out.sample({"line": text, "kind": kind})


CHECK = C09()
