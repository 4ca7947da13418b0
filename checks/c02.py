"""C02: precedence and associativity."""
import itertools
import re
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check

OPS = "+-*/%^"
BASES = [(2, 3, 5, 7, 11, 13), (7, 2, 3, 4, 3, 2), (9, 5, 2, 3, 2, 3), (3, 2, 2, 5, 3, 4)]
VARS = {"$v%d" % n: Fraction(n) for n in range(100)}


class C02(Check):
    id = "C02"
    rule = ("all operator chains of length 1-4 (and 5 in part, in full when thorough) over "
            "+-*/%^ with four operand tuples (some operands in variables), with and without prefix operators, plus random "
            "chains of up to 25 operators with prefix operators, functions, parentheses and "
            "whitespace; the value is compared with a precedence-climbing reference parser. "
            "Non-trivial: at least two operators; distinct by operator/prefix pattern.")

    def gen(self, ctx):
        chunk = []

        def flush():
            c = {"chains": list(chunk)}
            chunk.clear()
            return c
        for n in (1, 2, 3, 4):
            for ops in itertools.product(OPS, repeat=n):
                chunk.append("".join(ops))
                if len(chunk) == 60:
                    yield flush()
        if chunk:
            yield flush()
        # the same operators over and over
        for n in (5, 6, 7, 9):
            for o in OPS:
                chunk.append(o * n)
        for x in OPS[:-1]:
            for n in (5, 6):
                chunk.extend("".join(w) for w in itertools.product("^" + x, repeat=n) if w.count("^") > 1)
            yield flush()
        # prefix operators in front of every operand of short chains
        for n in (0, 1, 2):
            for ops in itertools.product(OPS, repeat=n):
                for pre in itertools.product(("", "-", "--", "abs ", "sqrt ", "max ", "min -",
                                              "-abs -"), repeat=n + 1):
                    if n == 2 and sum(p != "" for p in pre) > 2:
                        continue
                    chunk.append(["".join(ops), list(pre)])
                    if len(chunk) == 150:
                        yield flush()
        if chunk:
            yield flush()
        i = 0
        five = list(itertools.product(OPS, repeat=5))
        ctx.rng("five").shuffle(five)
        while True:
            for _ in range(4):
                yield {"rand": i}
                i += 1
            if five:
                yield {"chains": ["".join(o) for o in five[:80]]}
                del five[:80]
            if i > 10 ** 6:
                return

    def operand(self, rng, n):
        """the number, or a variable of that value"""
        return "$v%d" % n if rng.random() < 0.15 else str(n)

    def operands(self, rng, ops, pres):
        base = list(rng.choice(BASES)) * 6
        if list(ops).count("^") > 1 and len(ops) > 2 and rng.random() < 0.6:
            # small whichever way they are grouped
            base = [2, 3, 2, 1, 2, 1, 1, 2, 1, 1] * 3
        if "sqrt " in "".join(pres):
            base = [4, 9, 16, 25, 4, 9, 81] * 6
        return base

    def run(self, case, ctx, out):
        rng = ctx.rng(str(case)[:200])
        cfg = ref.Config(fractional=True)
        argv = ["-f"]
        with calc.Lines(ctx.bin, ["--no-db", "-f"]) as lines:
            lines.known = set()
            if "chains" in case:
                for c in case["chains"]:
                    ops, pre = (c, [""] * (len(c) + 1)) if isinstance(c, str) else c
                    base = self.operands(rng, ops, pre)
                    sp = rng.choice(["", " ", ""])
                    text = pre[0] + self.operand(rng, base[0])
                    for i, o in enumerate(ops):
                        text += sp + o + sp + pre[i + 1] + self.operand(rng, base[i + 1])
                    self.one(ctx, lines, text, cfg, out, ops, pre, argv)
            else:
                for j in range(40):
                    if j in (5, 15, 25):
                        text = gen.large(rng, 10, ["$v%d" % rng.randrange(1, 100)])
                        self.one(ctx, lines, text, cfg, out, [text], [], argv, rng)
                        continue
                    text, ops, pre = self.random_chain(rng)
                    self.one(ctx, lines, text, cfg, out, ops, pre, argv, rng)

    def random_chain(self, rng, depth=0):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 25]) if depth == 0 else rng.choice([0, 1, 2, 3])
        text = ""
        ops, pres = [], []

        def sp():
            return rng.choice(["", "", " ", "  "])
        for i in range(n + 1):
            if i:
                o = rng.choice(OPS if depth else "+-*/%^+-*/%")
                ops.append(o)
                text += sp() + o + sp()
            p = ""
            while rng.random() < 0.25:
                p += rng.choice(["-", "- ", "abs ", "max ", "min ", "-"])
            pres.append(p.replace(" ", ""))
            text += p
            k = rng.random()
            if k < 0.1 and depth < 2:
                t, o2, p2 = self.random_chain(rng, depth + 1)
                text += "(" + t + ")"
                ops += ["("] + o2
            elif k < 0.18 and depth < 2:
                f = rng.choice(["max", "min"])
                m = rng.choice([1, 2, 3])
                subs = [self.random_chain(rng, depth + 1) for _ in range(m)]
                text += f + sp() + "(" + ",".join(s[0] for s in subs) + ")"
                ops += [f]
            else:
                text += self.operand(rng, rng.choice([1, 2, 3, 4, 5, 7]))
        return text, ops, pres

    def one(self, ctx, lines, text, cfg, out, ops, pre, argv, rng=None):
        try:
            exp = ref.answer(text, cfg, VARS, 60000)
        except (ref.TooBig, ref.Inexact):
            out.counts["outside domain"] += 1
            return
        if exp[0] == "error":
            # undefined mathematics (a matter of C09): nothing to compare
            assert exp[1] == "math", (text, exp)
            out.counts["undefined"] += 1
            return
        if rng is not None and "$" not in text and rng.random() < 0.1:
            text = text.replace(" ", "\t") if rng.random() < 0.5 else text + " \t"
            got = calc.eval_oneshot(ctx.bin, text, argv)
            out.counts["one-shot"] += 1
        else:
            for name in set(re.findall(r"[$]v\d+", text)):
                if name not in lines.known:
                    lines.ask("%s=%s" % (name, name[2:]))
                    lines.known.add(name)
            got = lines.ask(text)
            out.counts["session"] += 1
        calc.judge(got, exp, text, argv, "chain")
        out.ok((tuple(ops), tuple(pre)) if len(ops) + sum(map(len, pre)) > 1 else None)
        if rng is not None:
            out.sample({"line": text, "answer": got})


CHECK = C02()
