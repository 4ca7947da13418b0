"""C05: fractional output is exact, in lowest terms, and can be re-entered."""
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check, Violation


class C05(Check):
    id = "C05"
    rule = ("rationals written unreduced, with negative denominators or as sums, and the results of operators on related fractions (same denominator, negated, reciprocal, neighbours ...), displayed with "
            "fractional output in radix 2-16 with commas/upper: the string must equal the "
            "reference rendering in lowest terms; every exactly displayed result (fraction, or "
            "decimal without rounding) is typed back in and has to show the same value again. "
            "Non-trivial: distinct (config, value) with a non-integer or multi-digit value.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def text(self, rng, v, radix):
        k = rng.randrange(7)
        s = lambda n: ref.to_radix(n, radix)
        m = rng.choice([1, 2, 3, 10, 12, radix, radix ** 5, 2 ** 64, 30030])
        a, b = abs(v.numerator) * m, v.denominator * m
        neg = v < 0
        if k == 0:
            t = s(a) + "/" + s(b)
            return "-" + t if neg else t
        if k == 1:
            t = "%s/-%s" % (s(a), s(b))
            return t if neg else "-" + t
        if k == 2:
            x = Fraction(rng.randrange(1, 50), rng.randrange(1, 50))
            y = v - x
            return "(%s%s/%s) + %s/%s" % ("-" if y < 0 else "", s(abs(y.numerator)),
                                          s(y.denominator), s(x.numerator), s(x.denominator))
        if k == 3:
            t = "%s*(%s/%s)" % (s(a), s(m), s(b * m))
            return "0-" + t if neg else t
        if k == 4:
            t = "(%s/%s)^-1" % (s(b), s(a)) if a else "0"
            return "-" + t if neg else t
        if k == 5:
            t = "abs(%s/%s)" % (s(a), s(b))
            return "-" + t if neg else t
        literal = self.literal(rng, abs(v), radix)
        if literal and k == 6:
            if neg:
                return rng.choice(["-%s", "- %s", "(-%s)", "-(%s)", "---%s", "min(-%s)", "max(-(%s), -9999999)"
                                   if -v < 9999999 and radix == 10 else "-%s"]) % literal
            return rng.choice(["%s", "%s", "(%s)", "((%s))", "--%s", "max %s", "abs(-%s)", "min(%s)", "abs %s"]) % literal
        return gen.value_text(rng, v, radix)

    def computed(self, rng, cfg):
        """-> (expression, its value): operators and functions applied to fractions"""
        while True:
            if rng.random() < 0.6:
                t = gen.related_pair(rng, cfg.radix, rng.choice("+-*/%+-"))
                if rng.random() < 0.2:
                    t = rng.choice([("neg", t), ("abs", t), ("bin", "^", t, gen.int_node(rng.choice([0, 1, 2, 3]), cfg.radix)),
                                    ("call", "max", [t, gen.int_node(0, cfg.radix)])])
            else:
                t = gen.tree(rng, cfg.radix, rng.choice([2, 2, 3, 4]), 12)
            text = gen.render(rng, t)
            exp = ref.answer(text, cfg)
            if exp[0] == "value" and abs(exp[3].numerator) < 1 << 400 and exp[3].denominator < 1 << 400:
                return text, exp[3]

    def literal(self, rng, v, radix):
        """v >= 0 written as a literal with a point, or None"""
        for n in range(60):
            if (v * radix ** n).denominator == 1:
                n += rng.choice([0, 0, 1, 2, 7])
                d = ref.to_radix(int(v * radix ** n), radix).rjust(n + 1, "0")
                t = d[:len(d) - n] + ("." + d[len(d) - n:] if n else rng.choice(["", "."]))
                return t[1:] if t.startswith("0.") and n and rng.random() < 0.3 else t
        return None

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = gen.config(rng, fractional=rng.random() < 0.75)
        if rng.random() < 0.6:
            cfg.convert = rng.choice([None, cfg.radix])
            cfg.commas = False
        argv = cfg.options(rng)
        with calc.Lines(ctx.bin, ["--no-db"] + argv) as lines:
            for j in range(25):
                v = gen.rational(rng)
                if rng.random() < 0.15:
                    v = Fraction(gen.integer(rng, 12), cfg.radix ** rng.randrange(0, 12))
                    v = -v if rng.random() < 0.4 else v
                if not cfg.fractional or rng.random() < 0.3:
                    v = Fraction(gen.integer(rng, 20), cfg.out ** rng.randrange(0, min(cfg.precision, 20) + 1))
                    v = -v if rng.random() < 0.4 else v
                if cfg.fractional and rng.random() < 0.4:
                    text, v = self.computed(rng, cfg)
                else:
                    text = self.text(rng, v, cfg.radix)
                if j == 24 and cfg.fractional:
                    # up to tens of thousands of digits
                    n = lambda x: ref.to_radix(x, cfg.radix)
                    a, b, d = rng.randrange(2, 60), rng.choice([300, 999, 3000, 9000]), rng.randrange(2, 60)
                    e = rng.choice([0, 1, b, b // 2])
                    v = Fraction(a) ** b / d ** e
                    text = "%s^%s/%s^%s" % (n(a), n(b), n(d), n(e))
                    if rng.random() < 0.4:
                        v, text = 1 / v, "1/(%s)" % text
                    if rng.random() < 0.4:
                        v, text = -v, "-(%s)" % text
                    calc.judge(calc.eval_oneshot(ctx.bin, text, argv), ("value", cfg.show(v)), text, argv, "exact output")
                    out.counts["very long"] += 1
                    out.ok((str(cfg.as_dict()), text))
                    continue
                exp = ref.answer(text, cfg)
                assert exp[0] == "value" and exp[3] == v, (text, exp, v)

                def ask(t):
                    if len(t) > 150 or rng.random() < 0.08:
                        return calc.eval_oneshot(ctx.bin, t, argv)
                    return lines.ask(t)
                got = ask(text)
                calc.judge(got, ("value", cfg.show(v)), text, argv, "exact output")
                exact = cfg.fractional or (v * cfg.out ** cfg.precision).denominator == 1
                if exact and not cfg.commas and cfg.out == cfg.radix:
                    again = ask(got)
                    if again != got:
                        raise Violation(what="re-entering an exact result changes it", line=text,
                                        argv=argv, first=got, second=again)
                    out.counts["re-entered"] += 1
                out.counts["fraction" if v.denominator != 1 else "integer"] += 1
                out.ok((tuple(sorted(cfg.as_dict().items(), key=str)), str(v))
                       if v.denominator > 1 or abs(v) >= cfg.out else None)
                if j == 0 and len(text) < 80:
                    out.sample({"line": text, "options": argv, "answer": got})


CHECK = C05()
