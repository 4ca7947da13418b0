"""C08: malformed expressions are rejected, well-formed ones accepted."""
import itertools
from fractions import Fraction

from vlib import calc, gen, ref
from vlib.core import Check, Violation

ALPHA = ["2", "$x", "+", "-", "*", "(", ")", ",", "max", "abs", "="]
MORE = ["1", "3", "0.5", "$x", "$y", "$unknown", "+", "-", "*", "/", "%", "^", "(", ")", ",", "max", "min",
        "abs", "sqrt", "="]


# what looks like part of an expression, or is elsewhere, but isn't here
LOOKALIKE = ["\u2212", "\u2013", "\u00d7", "\u00f7", "\u00b7", "\u2215", "\u221a", "\u221b", "\u03c0", "\u00bd", "\u00b2", "\u00b3", "\uff11", "\u0663",
             "\uff0b", "\uff0a", "\uff08", "\uff09", "\uff04x", "\uff0c", "\u066c", "\u201a", "\u221e", "\u2260", "\u2264", "\u20ac", "\u00a3", "\u00b0",
             "\u2030", "\u22c5", "\u2217", "\u2044", "\u2062", "\u200b", "\ufeff", "\u2010", "\u2011", "\u2014", "\ufe63", "\uff0d", "\u00ad", "\u2795"]


class C08(Check):
    id = "C08"
    rule = ("all token sequences of length 1-4 (5 in part; in full when thorough) over {number, "
            "variable, + - * ( ) , max abs =}, random longer sequences over all tokens, and "
            "single-token edits of well-formed lines; accept/reject, the value and the variables "
            "afterwards are compared with the reference grammar. Non-trivial: distinct token "
            "sequences.")

    def gen(self, ctx):
        for n in (1, 2):
            yield {"n": n, "pre": []}
        for n in (3, 4):
            for pre in itertools.product(ALPHA, repeat=n - 2):
                yield {"n": 2, "pre": list(pre)}
        five = list(itertools.product(ALPHA, repeat=3))
        ctx.rng("five").shuffle(five)
        i = 0
        while i < 10 ** 6:
            for _ in range(3):
                yield {"rand": i}
                i += 1
            if five:
                yield {"n": 2, "pre": list(five.pop())}

    def run(self, case, ctx, out):
        rng = ctx.rng(str(case))
        cfg = ref.Config(fractional=True)
        vars_ = {}
        with calc.Lines(ctx.bin, ["--no-db", "-f"]) as lines:
            def setv(name, v):
                t = "%s=%d" % (name, v)
                calc.judge(lines.ask(t), ("value", str(v)), t, [], "setup")
                vars_[name] = Fraction(v)
            setv("$x", 7)
            setv("$y", -3)
            if "rand" not in case:
                for tail in itertools.product(ALPHA, repeat=case["n"]):
                    self.one(rng, ctx, lines, case["pre"] + list(tail), cfg, vars_, out)
            else:
                for j in range(60):
                    toks = self.soup(rng) if j % 20 else self.long(rng)
                    text = self.one(rng, ctx, lines, toks, cfg, vars_, out)
                    if j == 0 and text:
                        out.sample({"line": text})
            for name, v in list(vars_.items()):
                calc.judge(lines.ask(name), ("value", cfg.show(v)), name, [],
                           "variables at the end", case=case)

    def soup(self, rng):
        k = rng.random()
        if k > 0.97:
            return self.grouped(rng)
        if k < 0.25:
            n = rng.choice([3, 5, 6, 7, 9, 12])
            return [rng.choice(MORE) for _ in range(n)]
        # a well-formed line, then edited
        t = gen.tree(rng, 10, rng.choice([1, 2, 3, 4, 6]), 2, "+-*/%+-*", 0.2, True,
                     ("$x", "$y"))
        text = gen.render(rng, t, 1.0)
        _, toks = ref.tokenize(text, 10)
        words = [w for _, _, w in toks]
        if rng.random() < 0.3:
            words = ["$" + rng.choice("xyz"), "="] + words
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            i = rng.randrange(len(words) + 1)
            e = rng.randrange(6)
            if e == 5:
                # a character or word that has no place in an expression
                c = rng.choice("!\"#&':;<>?@[\\]`{|}~._efxod") if rng.random() < 0.7 else rng.choice(
                    ["**", "//", "mod", "x", "pi", "e", "<<", "!=", "==", "and", "log", "sin 1", "0x1", "0b1", "1e3", "&&", "=>", ":=", "inf", "nan",
                     "ans", "# 1", "; 2", "sum(1,2)", "round(1)", "2!", "50%%", "[1]", "{2}", "<3>", "|4|", "Max(1,2)", "ABS 3", "log(2)", "1:2", "'1'"])
                j = rng.randrange(3)
                if j == 0 or not words:
                    words.insert(i, c)
                elif j == 1:
                    words[i - 1] += c
                elif c == "]" or c == "}":
                    words = [w if w != ")" else rng.choice([w, c]) for w in words]
                else:
                    words = [w if w != "(" else rng.choice([w, c]) for w in words]
            if e == 0 and words:
                i = rng.randrange(len(words))
                del words[i]
            elif e == 1:
                words.insert(i, rng.choice(MORE))
            elif e == 2 and words:
                words[rng.randrange(len(words))] = rng.choice(MORE)
            elif e == 3 and len(words) > 1:
                a, b = rng.randrange(len(words)), rng.randrange(len(words))
                words[a], words[b] = words[b], words[a]
            elif e == 4 and words:
                i = rng.randrange(len(words))
                words.insert(i, words[i])
        if rng.random() < 0.15:
            # a word in two pieces, which aren't one word any more
            i = rng.choice([i for i, w in enumerate(words) if len(w) > 1] or [-1])
            w = words[i] if i >= 0 else rng.choice(["sqrt", "abs", "max", ".5", "_7", "12", "$x"])
            k = rng.randrange(1, len(w))
            split = w[:k] + rng.choice([" ", " ", " ", "  ", "+", ",", "-", "*", "(", ")", "="]) + w[k:]
            if i >= 0:
                words[i] = split
            else:
                words.insert(rng.randrange(len(words) + 1), split)
        elif rng.random() < 0.05:
            words.insert(rng.randrange(len(words) + 1), rng.choice([". 5", "_ 7", "$ x", "$ y", ". + 5", "_ - 3", "a bs 3", "$ = 4", "sqr t 4", ". ", "._ 5", "$ +x"]))
        return words

    def grouped(self, rng):
        """a number with its digits in groups, which is no number here"""
        n = rng.choice([1, 1, 1, 2, 3])
        g = [str(rng.choice([1, 5, 12, 100, 999, rng.randrange(1, 1000)]))] + \
            [rng.choice(["000", "000", "500", "%03d" % rng.randrange(1000)]) for _ in range(n)]
        w = rng.choice([",", ",", ",", ",", " ", "'", "_,", ";"]).join(g)
        w = rng.choice(["", "", "", "-", "+", "$"]) + w + rng.choice(["", "", "", ".5", ".00", "%"])
        k = rng.randrange(8)
        if k < 3:
            return [w]
        if k == 3:
            return [w, rng.choice("+-*/%^"), "2"]
        if k == 4:
            return [rng.choice(["2", "$x", "(3)"]), rng.choice("+-*/%"), w]
        if k == 5:
            return ["$" + rng.choice("xy"), "=", w]
        if k == 6:
            return ["(", w, ")"]
        return [rng.choice(["abs", "sqrt", "max", "min"]), "(", w, ")"]

    def foreign(self, rng, ctx, text, cfg, out):
        """a character outside ASCII, which no expression has"""
        if rng.random() < 0.4:
            text = rng.choice(["3@4", "5-@2", "@5", "2@", "(@3)", "max(1@2)", "1 @ 2", "@9+1", "2*@8", "10@", "4@@1", "@"])
        else:
            text = text.replace("$", "")
            places = [i for i, c in enumerate(text) if c in "+-*/%^(),0123456789"] or [0]
            i = rng.choice(places)
            text = text[:i] + "@" + text[i + rng.randrange(2):]
        text = text.replace("@", rng.choice(LOOKALIKE))
        if text.lstrip().startswith(("/", "-")):
            text = "1+" + text.lstrip().lstrip("/-")
        exp = ref.answer(text, cfg, {}, 50000)
        calc.judge(calc.eval_oneshot(ctx.bin, text, ["-f"]), exp, text, ["-f"], "one-shot with a character outside ASCII")
        out.counts["characters outside ASCII"] += 1
        out.ok(text)

    def long(self, rng):
        """many tokens, well-formed but for one edit or none"""
        words = [w for _, _, w in ref.tokenize(gen.large(rng, 10, ("$x", "$y")), 10)[1]]
        e = rng.randrange(8)
        i = rng.choice([0, len(words) - 1, rng.randrange(len(words)), rng.randrange(len(words))])
        if e == 0:
            del words[i]
        elif e == 1:
            words.insert(i + rng.randrange(2), rng.choice(MORE))
        elif e == 2:
            words[i] = rng.choice(MORE)
        elif e == 3:
            words = [rng.choice(["$x", "$y"]), "="] + words
        return words

    def one(self, rng, ctx, lines, toks, cfg, vars_, out):
        sep = rng.choice([" ", " ", "", "  "])
        text = sep.join(toks)
        if text.lstrip().startswith("/") or len(text) > (800 if "$" in text else 2500):
            return None
        try:
            exp = ref.answer(text, cfg, vars_, 50000)
        except (ref.TooBig, ref.Inexact):
            out.counts["outside domain"] += 1
            return None
        if len(text) > 800:
            calc.judge(calc.eval_oneshot(ctx.bin, text, ["-f"]), exp, text, ["-f"], "one-shot token sequence")
            out.counts["one-shot"] += 1
            out.ok(" ".join(toks))
            return None
        got = lines.ask(text)
        calc.judge(got, exp, text, ["--no-db", "-f"], "token sequence",
                   variables={k: str(v) for k, v in vars_.items()})
        out.counts["accepted" if exp[0] != "error" else "rejected (%s)" % exp[1]] += 1
        out.ok(" ".join(toks))
        if exp[0] == "value" and exp[2]:
            vars_[exp[2]] = exp[3]
            if abs(exp[3].numerator).bit_length() + exp[3].denominator.bit_length() > 200:
                calc.judge(lines.ask(exp[2] + "=2"), ("value", "2"), text, [], "reset")
                vars_[exp[2]] = Fraction(2)
        elif exp[0] == "error" and "=" in toks:
            for name in ("$x", "$y"):
                if name in vars_:
                    g = lines.ask(name)
                    if g != cfg.show(vars_[name]):
                        raise Violation(what="a rejected line changed a variable", line=text,
                                        variable=name, expected=cfg.show(vars_[name]), got=g)
        if rng.random() < 0.03:
            self.foreign(rng, ctx, text, cfg, out)
        if "$" not in text and rng.random() < 0.03:
            if rng.random() < 0.6:
                # any white space there is
                text = "".join(rng.choice(["", " "] if not sep else [" ", "\n", "\t", "\r\n", "\x0c", " \n\n"]) + w if i or rng.random() < 0.3
                               else w for i, w in enumerate(toks)) if sep else text + rng.choice(["\n", "\r\n", "\t", "\x0c"])
                exp = ref.answer(text, cfg, vars_, 50000)
                out.counts["other white space"] += 1
            got = calc.eval_oneshot(ctx.bin, text, ["-f"])
            calc.judge(got, exp, text, ["-f"], "one-shot token sequence")
            out.counts["one-shot"] += 1
        return text


CHECK = C08()
