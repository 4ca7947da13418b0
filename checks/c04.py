"""C04: decimal output is correctly rounded and shows inexactness."""
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check


def values(rng, R, P):
    """rationals where rounding in radix R with P digits is delicate"""
    scale = R ** P
    k = rng.randrange(13)
    n = gen.integer(rng, rng.choice([3, 10, 40]))
    if k == 0:
        v = gen.rational(rng)
    elif k == 1:                                   # exact tie
        v = Fraction(2 * n + 1, 2 * scale)
    elif k == 2:                                   # next to a tie
        eps = Fraction(1, scale * R ** rng.choice([1, 2, 5, 40]))
        v = Fraction(2 * n + 1, 2 * scale) + rng.choice([1, -1]) * eps
    elif k == 3:                                   # representable
        v = Fraction(n, scale)
    elif k == 4:                                   # one more digit than shown
        v = Fraction(n, scale * R)
    elif k == 5:                                   # carries into the integer part
        v = R ** rng.randrange(0, 8) - Fraction(1, scale * rng.choice([1, 2, 2, 3, R]))
    elif k == 6:                                   # about to vanish
        v = Fraction(rng.choice([1, 1, 2, 3]), scale * rng.choice([1, 2, 2, 3, 4, R, R * R]))
    elif k == 7:                                   # group boundaries
        v = Fraction(R ** rng.randrange(0, 14) - rng.choice([0, 1]))
        if rng.random() < 0.4:
            v += Fraction(1, rng.choice([2, 3, R, R ** 3, R ** 4]))
    elif k == 8:                                   # trailing zeros inside
        v = Fraction(n, R ** rng.randrange(0, P + 3)) + rng.choice([0, 1, R ** 3])
    elif k == 9:
        v = Fraction(n, 2 ** rng.randrange(0, 20) * 3 ** rng.randrange(0, 3))
    elif k == 10:                                  # zeros behind the point
        v = n + Fraction(rng.randrange(1, R), R ** max(1, P - rng.randrange(0, 3)))
    elif k == 11:
        v = Fraction(n)
    else:                                          # leading fraction zeros
        v = Fraction(rng.randrange(1, 1000), R ** max(0, P - 1) * rng.choice([1, 3, 7]))
    return -v if rng.random() < 0.4 else v


class C04(Check):
    id = "C04"
    rule = ("rationals chosen at and around rounding ties, carries, vanishing magnitudes, exactly "
            "representable values and digit-group boundaries for the output radix/precision of a "
            "random configuration (radix 2-16, output radix, precision 0-255, commas, upper); "
            "the displayed string must equal the reference rendering. Non-trivial: distinct "
            "(config, value) pairs with a non-integer value or a setting that matters.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = gen.config(rng, fractional=False)
        if rng.random() < 0.3:
            cfg.precision = rng.randrange(0, 12)
        argv = cfg.options(rng)
        lines = None
        with calc.Lines(ctx.bin, ["--no-db"] + argv) as lines:
            for j in range(25):
                v = values(rng, cfg.out, cfg.precision)
                text = gen.value_text(rng, v, cfg.radix)
                if j == 24:
                    # up to tens of thousands of digits
                    b, e = rng.randrange(2, 60), rng.choice([300, 999, 3000, 10000, 16000])
                    n = lambda x: ref.to_radix(x, cfg.radix)
                    v = v * 0 + Fraction(b) ** e + rng.randrange(100)
                    text = "%s^%s+%s" % (n(b), n(e), n(int(v - Fraction(b) ** e)))
                    if rng.random() < 0.5:
                        x = Fraction(rng.randrange(1, 99), rng.choice([2, 3, 7, 10, 16]))
                        v, text = v + x, "%s + %s/%s" % (text, n(x.numerator), n(x.denominator))
                    if rng.random() < 0.3:
                        v, text = -v, "-(%s)" % text
                    text = text.ljust(151) if rng.random() < 0.5 else text
                    got = calc.eval_oneshot(ctx.bin, text, argv)
                    calc.judge(got, ("value", cfg.show(v)), text, argv, "decimal")
                    out.counts["very long"] += 1
                    out.ok((str(cfg.as_dict()), text))
                    continue
                if v >= 0 and rng.random() < 0.1:
                    text = "0 - (0 - " + text + ")" if rng.random() < 0.5 else "(" + text + ")"
                exp = ref.answer(text, cfg)
                if len(text) > 150 or rng.random() < 0.1:
                    got = calc.eval_oneshot(ctx.bin, text, argv)
                    out.counts["one-shot"] += 1
                else:
                    got = lines.ask(text)
                    out.counts["session"] += 1
                calc.judge(got, ("value", cfg.show(v)), text, argv, "decimal")
                assert exp[1] == cfg.show(v)
                x = abs(v) * cfg.out ** cfg.precision
                out.counts["exact" if x.denominator == 1 else "tie" if x.denominator == 2
                           else "inexact"] += 1
                triv = v.denominator == 1 and not cfg.commas and abs(v) < cfg.out
                out.ok(None if triv else (cfg.radix, cfg.out, cfg.precision, cfg.commas, cfg.upper, str(v)))
                if j == 0 and len(text) < 80 and len(got) < 80:
                    out.sample({"line": text, "options": argv, "answer": got})


CHECK = C04()
