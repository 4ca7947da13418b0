"""C01: exact rational arithmetic at any magnitude."""
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check


class C01(Check):
    id = "C01"
    rule = ("random expression trees (1-40 leaves; ints, special magnitudes, long decimals; "
            "+ - * / % ^ neg abs max min; radices 2-16) evaluated by the binary with exact "
            "fractional output, compared with Python rationals. Non-trivial: at least one "
            "operator; distinct by (operator multiset, depth, result sign/size class, radix).")
    assumptions = ("one-shot and --no-db interactive evaluation share the evaluator with "
                   "database sessions",)

    def gen(self, ctx):
        n = 1000000
        for i in range(n):
            yield {"n": i}

    def special(self, rng, radix):
        """operations at their edges"""
        I = lambda n: gen.int_node(n, radix)
        k = rng.randrange(11)
        big = rng.choice([10 ** 3, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64, 10 ** 30 + 1])
        if k == 0:                      # 0, 1, -1 to huge powers
            b = rng.choice([I(0), I(1), ("neg", I(1))])
            e = I(big + rng.randrange(2))
            if b[0] != "num" or b[1] != 0:
                if rng.random() < 0.4:
                    e = ("neg", e)
            return ("bin", "^", b, e)
        if k == 1:                      # anything to the power 0
            return ("bin", "^", gen.tree(rng, radix, 3), rng.choice(
                [I(0), ("neg", I(0)), ("bin", "-", I(5), I(5))]))
        if k == 2:                      # negative powers
            return ("bin", "^", gen.tree(rng, radix, 2),
                    ("neg", I(rng.choice([1, 1, 2, 3, 5, 8]))))
        if k == 3:                      # modulus with signs and fractions
            a = gen.tree(rng, radix, rng.randrange(1, 4))
            b = gen.tree(rng, radix, rng.randrange(1, 3))
            if rng.random() < 0.5:
                a = ("neg", a)
            if rng.random() < 0.5:
                b = ("neg", b)
            return ("bin", "%", a, b)
        if k == 4:                      # modulus of multiples and near-multiples
            b = gen.num(gen.literal(rng, radix, 20), radix)
            m = I(rng.choice([1, 2, 3, 7, 1000, big]))
            a = ("bin", "*", b, m)
            if rng.random() < 0.5:
                a = ("bin", rng.choice("+-"), a, gen.num(gen.literal(rng, radix, 3), radix))
            if rng.random() < 0.4:
                a = ("neg", a)
            return ("bin", "%", a, b)
        if k == 5:                      # many arguments
            n = rng.choice([1, 2, 3, 5, 8, 16, 40])
            pool = [gen.tree(rng, radix, rng.randrange(1, 3), 12) for _ in range(n)]
            pool = [("neg", p) if rng.random() < 0.5 else p for p in pool]
            if rng.random() < 0.3:      # close to each other
                base = gen.num(gen.literal(rng, radix, 30), radix)
                pool = [("bin", rng.choice("+-"), base,
                         ("bin", "/", I(1), I(rng.randrange(1, 10 ** 9)))) for _ in range(n)]
            return ("call", rng.choice(["max", "min"]), pool)
        if k == 6:                      # cancellation
            t = gen.tree(rng, radix, 3, 60)
            u = gen.num(gen.literal(rng, radix, 30), radix)
            return ("bin", "-", ("bin", "+", t, u), t)
        if k == 7:                      # long sums / products
            n = rng.choice([5, 10, 30, 60])
            t = gen.num(gen.literal(rng, radix, 8), radix)
            for _ in range(n):
                t = ("bin", rng.choice("++-**/"), t, I(rng.randrange(1, 50)))
            return t
        if k == 8:                      # deep nesting
            t = gen.num(gen.literal(rng, radix, 8), radix)
            for _ in range(rng.choice([5, 20, 60])):
                j = rng.randrange(5)
                t = (("neg", t) if j == 0 else ("abs", t) if j == 1 else
                     ("bin", "+", I(1), t) if j == 2 else
                     ("call", "max", [t, I(0)]) if j == 3 else
                     ("bin", "-", I(3), ("bin", "*", t, I(1))))
            return t
        if k == 9:                      # exponents around machine sizes
            b = rng.choice([I(2), I(3), ("neg", I(2)), ("bin", "/", I(1), I(2)),
                            ("bin", "/", I(3), I(2)), I(1)])
            e = rng.choice([127, 128, 255, 256, 257, 1000, 4097, 32768, 65535, 65536, 65537])
            if b[0] == "bin" or b == I(3):
                e = min(e, 5000)
            n = I(e)
            return ("bin", "^", b, ("neg", n) if rng.random() < 0.4 else n)
        return ("bin", rng.choice("+-*/"), gen.num(gen.literal(rng, radix, 400, 0.5), radix),
                gen.num(gen.literal(rng, radix, 400, 0.5), radix))

    def large(self, rng, radix, cfg, argv, ctx, lines, out):
        """lines of a large form"""
        text = gen.large(rng, radix)
        try:
            exp = ref.answer(text, cfg, None, 100000)
        except (ref.TooBig, ref.Inexact):
            out.counts["outside domain"] += 1
            return
        if rng.random() < 0.6 or len(text) > 600:
            got = calc.eval_oneshot(ctx.bin, text, argv)
        else:
            got = lines.ask(text)
        calc.judge(got, exp, text, argv, "large form")
        out.counts["lines of a large form"] += 1
        out.ok(text)

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        radix = rng.choice([10, 10, 10, 16, 2, rng.randrange(2, 17)])
        cfg = ref.Config(radix=radix, fractional=True)
        if rng.random() < 0.5:
            cfg.convert = 10 if rng.random() < 0.7 else rng.randrange(2, 17)
        argv = cfg.options(rng)
        with calc.Lines(ctx.bin, ["--no-db"] + argv) as lines:
            for j in range(60):
                if rng.random() < 0.04:
                    self.large(rng, radix, cfg, argv, ctx, lines, out)
                    continue
                big = rng.random() < 0.4
                if big:
                    t = self.special(rng, radix)
                else:
                    t = gen.tree(rng, radix, rng.choice([1, 2, 2, 3, 3, 4, 6, 10, 20, 40]),
                                 rng.choice([5, 20, 60, 200]))
                try:
                    v = ref.evaluate(t, None, 80000 if big else 30000)
                except (ref.TooBig, ref.Inexact):
                    out.counts["outside domain"] += 1
                    continue
                except ref.Reject:
                    out.counts["undefined"] += 1
                    continue
                text = gen.render(rng, t)
                exp = ref.answer(text, cfg, None, 10 ** 6)
                assert exp[0] == "value" and exp[3] == v, (text, exp, v)
                show = exp
                mode = "session"
                if len(text) > 150 or rng.random() < 0.12:
                    mode = "one-shot"
                    got = calc.eval_oneshot(ctx.bin, text, argv)
                else:
                    got = lines.ask(text)
                calc.judge(got, show, text, argv, mode)
                ops = gen.ops_of(t)
                out.counts[mode] += 1
                for o in set(ops):
                    out.counts["op " + o] += 1
                sig = None
                if ops:
                    sig = (tuple(sorted(ops)), gen.depth(t), v > 0, v.numerator.bit_length() // 8,
                           v.denominator.bit_length() // 8, radix)
                out.ok(sig)
                if j == 0 and len(text) < 200:
                    out.sample({"line": text, "options": argv, "answer": got})


CHECK = C01()
