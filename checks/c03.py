"""C03: number literals denote their exact value in every radix."""
import itertools
import string

from vlib import calc, gen, oneshot, ref
from vlib.core import Check

# printable, not an operator/parenthesis/separator of the language
NOISE = [c for c in string.printable if 33 <= ord(c) < 127 and c not in "+-*/%^()=,"
         and c not in "$" and c not in "._" and not c.isalnum()]


class C03(Check):
    id = "C03"
    rule = ("all strings of up to 3 symbols over {0, 1, largest digit, first digit too large, "
            "point, underscore, upper/lower letter, g} in every radix 2-16, and random literals "
            "of up to 3000 digits with case, underscores and points, and mutations that make "
            "them invalid; the exact value is read back as a fraction in radix 10. "
            "Non-trivial: distinct (radix, literal) pairs.")

    def gen(self, ctx):
        for r in range(2, 17):
            hi = ref.DIGITS[r - 1]
            bad = ref.DIGITS[r] if r < 16 else "g"
            alpha = ["0", "1", hi, hi.upper(), bad, bad.upper(), ".", "_", "z"]
            alpha = sorted(set(alpha))
            for n in (1, 2):
                yield {"radix": r, "alpha": alpha, "n": n, "pre": ""}
            for a in alpha:
                yield {"radix": r, "alpha": alpha, "n": 2, "pre": a}
        for i in range(10 ** 6):
            yield {"rand": i, "radix": 2 + i % 15}

    def run(self, case, ctx, out):
        r = case["radix"]
        rng = ctx.rng(str(case))
        cfg = ref.Config(radix=r, convert=10, fractional=True)
        argv = cfg.options()
        with calc.Lines(ctx.bin, ["--no-db"] + argv) as lines:
            if "rand" not in case:
                for t in itertools.product(case["alpha"], repeat=case["n"]):
                    self.one(ctx, lines, case["pre"] + "".join(t), cfg, out, argv, rng)
                return
            for j in range(40):
                lit = gen.literal(rng, r, rng.choice([3, 10, 40, 90]), 0.5,
                                  rng.choice([0, 0, 0.1, 0.5]))
                if rng.random() < 0.04:
                    lit = gen.literal(rng, r, 3000, 0.5)
                    lit += "".join(rng.choice(ref.DIGITS[:r]) for _ in range(rng.randrange(3000)))
                k = rng.random()
                if k < 0.45:
                    lit = self.mutate(rng, lit, r)
                if lit.startswith("/"):
                    continue
                self.one(ctx, lines, lit, cfg, out, argv, rng)
                if j == 0 and len(lit) < 80:
                    out.sample({"radix": r, "literal": lit,
                                "expected": ref.answer(lit, cfg)[:2]})

    def mutate(self, rng, lit, r):
        bads = list(NOISE) + ["g", "G", "z", "x", "\u0663", "\uff11", "\xb2", "\u0434"]
        bads += [ref.DIGITS[r:]] if r < 16 else []
        k = rng.randrange(6)
        i = rng.randrange(len(lit) + 1)
        if k == 0:
            return lit[:i] + "." + lit[i:]
        if k == 1:
            return rng.choice(["_", ".", "__", "._", "_.", "_._", "..", "_._."])
        if k == 2 and r < 16:
            c = rng.choice(ref.DIGITS[r:])
            c = c.upper() if rng.random() < 0.5 else c
            return lit[:i] + c + lit[i:]
        if k == 3 and lit:
            i = rng.randrange(len(lit))
            return lit[:i] + rng.choice(rng.choice(bads)) + lit[i + 1:]
        if k == 4:
            w = rng.choice(["0x", "0b", "1e5", "e", "E5", "nan", "inf", "1e", "f32", "#ff", "'1'"])
            return w + lit if rng.random() < 0.5 else lit + w
        return lit[:i] + rng.choice(rng.choice(bads)) + lit[i:]

    def one(self, ctx, lines, lit, cfg, out, argv, rng):
        if lit.lstrip().startswith("/"):
            return
        exp = ref.answer(lit, cfg)
        text = lit
        if exp[0] == "value" and rng.random() < 0.15:
            # in an expression
            text = rng.choice(["%s+0", "0+%s", "(%s)", "--%s", "max(%s,%s)"]).replace("%s", lit)
            exp2 = ref.answer(text, cfg)
            assert exp2[:2] == exp[:2]
        ascii_ok = all(32 <= ord(c) < 127 for c in text)
        if len(text) > 150 or not ascii_ok or rng.random() < 0.1:
            got = calc.eval_oneshot(ctx.bin, text, argv)
            out.counts["one-shot"] += 1
        else:
            got = lines.ask(text)
            out.counts["session"] += 1
        calc.judge(got, exp, text, argv, "literal")
        out.counts["accepted" if exp[0] == "value" else "rejected"] += 1
        out.ok((cfg.radix, lit))


CHECK = C03()
