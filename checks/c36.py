"""C36: an error message names a cause that is really there."""
import re

from vlib import calc, gen, model, ref
from vlib.core import Check, Violation

from checks.c08 import CHECK as C08
from checks.c09 import CHECK as C09, VARS

ZERO, ROOT, UNKNOWN, NOARGS, NUMBER, SYNTAX, COMMAND, UNAVAILABLE = (
    "division by zero", "root of a negative number", "unknown variable", "no arguments", "number", "syntax", "unknown command",
    "unavailable")
PATTERNS = [
    (UNAVAILABLE, r"unavailable"),
    (COMMAND, r"no such command"),
    (ZERO, r"divi\w+ by (0|zero)"),
    (ROOT, r"\broots?\b.*negative|negative.*\broots?\b|imaginary"),
    (UNKNOWN, r"unknown variable|undefined variable|no such variable"),
    (NOARGS, r"no arguments"),
    (NUMBER, r"parse number|invalid number"),
]
OPERANDS = ("num", "var", ")")
STARTS = ("num", "var", "(", "sqrt", "abs", "max", "min")
BINARY = ("+", "-", "*", "/", "%", "^")


def classify(msg):
    low = msg.lower()
    for k, p in PATTERNS:
        if re.search(p, low):
            return k
    return SYNTAX


def causes(node, variables):
    """-> (value or None, everything undefined in it)"""
    k = node[0]
    if k == "num":
        return node[1], set()
    if k == "var":
        if node[1] not in variables:
            return None, {(UNKNOWN, node[1])}
        return variables[node[1]], set()
    subs = node[2] if k == "call" else node[1:] if k != "bin" else node[2:]
    vals, found = [], set()
    for s in subs:
        v, f = causes(s, variables)
        vals.append(v)
        found |= f
    if any(v is None for v in vals):
        return None, found
    try:
        leaf = [("num", v) for v in vals]
        if k == "call":
            return ref.evaluate(("call", node[1], leaf), {}, 50000), found
        if k == "bin":
            return ref.evaluate(("bin", node[1], leaf[0], leaf[1]), {}, 50000), found
        return ref.evaluate((k, leaf[0]), {}, 50000), found
    except ref.Reject as r:
        c = ZERO if "zero" in r.why else ROOT if "root" in r.why else NOARGS
        return None, {(c, node[1] if k == "call" else None)}


class C36(Check):
    id = "C36"
    rule = ("lines with one or several errors (bad literals, malformed token sequences, undefined "
            "mathematics and unknown variables deep inside expressions, unknown commands, bad "
            "arguments) in sessions and one-shot; the message is put into a class (zero divisor, "
            "root of a negative, unknown variable, missing arguments, bad number, syntax, unknown "
            "command, unavailable) and has to name a cause that the reference grammar and an "
            "evaluation of all subexpressions find in the line, quoting the word, name or "
            "operator concerned as typed. Non-trivial: distinct lines.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def expression(self, rng):
        k = rng.random()
        if k < 0.3:
            core, _ = C09.undefined(rng, True)
            t = C09.surround(rng, core, True, rng.choice([0, 1, 2, 4]))
            if rng.random() < 0.3:
                core, _ = C09.undefined(rng, True)
                t = "%s%s(%s)" % (t, rng.choice("+-*/%^"), core)
            return t
        toks = C08.soup(rng)
        if k < 0.5:
            bad = rng.choice(["hello", "12x", "1.2.3", "..", ".", "_", "__", "9a", "1e5", "Max", "SQRT", "abs2", "2sqrt", "x", "0x10", "1'000", "#", "!",
                              "5!", "[1]", "{", "|", "&&", "1;2", "\"a\"", "a$b", "1.5.", "_._", "7_x", "Ff", "@home"])
            toks.insert(rng.randrange(len(toks) + 1), bad)
            if rng.random() < 0.2:
                toks.insert(rng.randrange(len(toks) + 1), rng.choice(["zzz", "3.3.3", "9z"]))
        return rng.choice([" ", " ", "", "  "]).join(toks)

    def command(self, rng):
        """-> (line, judge of the message)"""
        k = rng.random()
        if k < 0.3:
            n = rng.choice(["nosuch", "Help", "radixx", "rad", "", "histcap2", "/radix", "x", "purge", "RELOADVAR", "p1", "radix,", "h?"])
            return "/" + n + rng.choice(["", " 1", " $x"]), lambda m: n in m and classify(m) == COMMAND
        if k < 0.4:
            n = rng.choice(["nosuch", "Radix", "radixx", "rad", "x"])
            return "/help " + n, lambda m: n in m and classify(m) == COMMAND
        if k < 0.7:
            c, lo, hi, most = rng.choice([("radix", 2, 16, 1), ("r", 2, 16, 1), ("converttoradix", 2, 16, 1)])
            a = [rng.choice([0, 1, -1, 17, 255, 256, -300, 10 ** 6, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 5, 16, 2, 3]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]

            def judge(m):
                if "64-bit" in m:
                    return any(not -2 ** 63 <= x < 2 ** 63 for x in a)
                for w, f in (("less than", lambda x, n: x < n), ("greater than", lambda x, n: x > n)):
                    x = re.search(w + r" (\d+)", m)
                    if x:
                        return any(f(i, int(x.group(1))) for i in a) and int(x.group(1)) == (lo if w == "less than" else hi)
                if "too many" in m.lower():
                    return len(a) > most
                return classify(m) == SYNTAX
            if lo <= a[0] <= hi and len(a) <= most:
                a[0] = 17
            return "/%s %s" % (c, " ".join(map(str, a))), judge
        if k < 0.8:
            a = [rng.choice([0, 1, -1, 5, 100, 200, 255, 256, 300, -300, 10 ** 9, 2 ** 63 - 1, 2 ** 63, -2 ** 63, -10 ** 20]) for _ in range(rng.choice([1, 2, 2, 3]))]
            if len(a) < 3 and all(0 <= x <= 255 for x in a) and (len(a) == 1 or sum(a) <= 255):
                a[-1] = 256

            def judge(m):
                low = m.lower()
                if "64-bit" in m:
                    return any(not -2 ** 63 <= x < 2 ** 63 for x in a)
                if "too many" in low:
                    return len(a) > 2
                if re.search(r"\bsum\b", low):
                    return len(a) < 3 and all(0 <= x <= 255 for x in a) and sum(a) + (10 if len(a) == 1 else 0) > 255
                if re.search(r"\bextra\b", low):
                    return len(a) == 2 and not 0 <= a[1] <= 255
                if "precision" in low:
                    return not 0 <= a[0] <= 255
                return classify(m) == SYNTAX
            return "/precision " + " ".join(map(str, a)), judge
        if k < 0.9:
            c = rng.choice(["reloadvar", "purgevar"])
            bad = rng.choice(["x", "12x", "a1", "hello"])
            return "/%s %s%s" % (c, rng.choice(["", "$pos "]), bad), \
                lambda m: classify(m) == UNAVAILABLE or bad in m and classify(m) in (SYNTAX, NUMBER)
        c = rng.choice(["radix", "precision", "p", "converttoradix"])
        bad = rng.choice(["x", "1.2.3", "zz", "t5"])
        return "/%s %s" % (c, bad), lambda m: bad in m

    def histcap(self, rng, env):
        k = rng.randrange(3)
        if k == 0:
            a = [rng.choice([0, -1, -5, -2 ** 63])]

            def judge(m):
                x = re.search(r"\b(at least|minimum|less than|smaller than|below) (-?\d+)", m.lower())
                return x is not None and int(x.group(2)) == 1
        elif k == 1:
            a = [rng.choice([1, 5, 100, 0]) for _ in range(rng.choice([2, 3]))]

            def judge(m):
                return "too many" in m.lower()
        else:
            a = [rng.choice(["x", "1.2.3", "zz", "$pos", "9223372036854775808", "1.5", "5x"])]

            def judge(m):
                if a[0] == "9223372036854775808" and ("64-bit" in m or "large" in m):
                    return True
                return a[0] in m or a[0] == "1.5" and re.search(r"\b(decimal|integer|3/2)\b", m) is not None
        return "/histcap " + " ".join(map(str, a)), \
            lambda m: judge(m) or env is None and classify(m) == UNAVAILABLE

    def judge(self, text, msg, radix, variables, argv, out):
        """variables: None when there are none"""
        got = classify(msg)
        info = dict(line=text, message=msg[:300], argv=argv)

        def wrong(what):
            raise Violation(what=what, **info)
        if not calc.is_error_text(msg):
            wrong("an error was expected")
        if not msg.startswith("Error: "):
            wrong("the line is wrong, but something else is blamed")
        try:
            t = ref.tokenize(text, radix)
        except ref.Reject:
            words = [w for w in re.split(r"[\s+\-*/%^()=,]+", text) if w]
            bad = [w for w in words if w[0] != "$" and w not in ref.WORDS and ref.parse_literal(w, radix) is None]
            if got != NUMBER or not any("'%s'" % w in msg or '"%s"' % w in msg for w in bad):
                wrong("the message doesn't name a word that is no number")
            out.counts["cause: bad number"] += 1
            return
        if got == NUMBER:
            wrong("the message blames a number, but all are good")
        toks = t[1]
        try:
            var, tree = ref.parse(toks)
        except ref.Reject:
            if variables is None and got == UNAVAILABLE and "$" in text:
                return
            if got != SYNTAX:
                wrong("the message names another cause than the malformed line")
            self.syntax(toks, msg, wrong)
            out.counts["cause: syntax"] += 1
            return
        if variables is None and "$" in text:
            if got == UNAVAILABLE:
                out.counts["cause: unavailable"] += 1
                return
            variables = {}
        try:
            _, found = causes(tree, variables)
        except (ref.TooBig, ref.Inexact):
            return
        if not found:
            wrong("an error without a cause")
        mine = [c for c in found if c[0] == got]
        if not mine:
            info["causes"] = sorted(str(c) for c in found)
            wrong("the message names a cause that isn't there")
        if got == UNKNOWN and not any(re.search(re.escape(c[1]) + r"(?![^\s'\".,;:!?)\]])", msg) for c in mine):
            wrong("the message doesn't name an unknown variable of the line")
        if got == NOARGS and not any(c[1] in msg.lower() for c in mine):
            wrong("the message doesn't name the function without arguments")
        out.counts["cause: " + got] += 1
        if len(found) > 1:
            out.counts["lines with several causes"] += 1

    def syntax(self, toks, msg, wrong):
        """what a syntax message says must be so"""
        kinds = [k for k, _, _ in toks]
        low = msg.lower()
        depth, unopened = 0, False
        for k in kinds:
            depth += {"(": 1, ")": -1}.get(k, 0)
            if depth < 0:
                unopened, depth = True, 0
        if "open paren" in low and "mismatched" in low and not depth:
            wrong("every parenthesis is closed")
        if "close paren" in low and "mismatched" in low and not unopened:
            wrong("every closing parenthesis has been opened")
        if "empty paren" in low and not any(a == "(" and b == ")" for a, b in zip(kinds, kinds[1:])):
            wrong("there are no empty parentheses")
        if re.search(r"\bcomma\b", low) and "," not in kinds:
            wrong("there is no comma")
        if "missing an operator" in low and not any(a in OPERANDS and b in STARTS for a, b in zip(kinds, kinds[1:])):
            wrong("there are no consecutive operands")
        m = re.search(r"operator \((\S+)\)", low)
        if m and m.group(1) not in kinds:
            wrong("the operator named isn't there")
        m = re.search(r"variable '(\$[^']*)'", msg)
        if m and not any(k == "var" and w == m.group(1) for k, _, w in toks):
            wrong("the variable named isn't there")
        for f in ("max", "min"):
            if re.search(r"\b%s function" % f, low) and f not in kinds:
                wrong("the function named isn't there")
        if re.search(r"missing a required operand", low) and m is None and not set(kinds) & set(BINARY + ("sqrt", "abs", "=")):
            wrong("there is no operator")

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        radix = rng.choice([10, 10, 10, 10, 16, 2, 8])
        argv = ["--no-db"] + (["-r", str(radix)] if radix != 10 else [])
        store = {n: v for n, v in VARS.items()}
        env = None
        if rng.random() < 0.25:
            env = {"_B_UTIL_DATA_DIR": ctx.tmpdir()}
            argv = argv[1:]
        with calc.Lines(ctx.bin, argv, cheap=True, env=env) as lines:
            setup = model.Session(ref.Config(radix=radix))
            for name, v in VARS.items():
                t = "%s=%s" % (name, ref.fmt_fraction(v, radix))
                calc.judge(lines.ask(t), setup.submit(t), t, argv, "setup")
            for j in range(50):
                if rng.random() < 0.2:
                    t, f = self.histcap(rng, env) if rng.random() < 0.2 else self.command(rng)
                    got = lines.ask(t)
                    if not got.startswith("Error: ") or not calc.is_error_text(got) or not f(got):
                        raise Violation(what="the message doesn't name what is wrong with the command", line=t, message=got[:300], argv=argv)
                    out.counts["cause: commands"] += 1
                    out.ok(t)
                    continue
                t = self.expression(rng)
                if t.lstrip().startswith("/") or len(t) > 300:
                    continue
                if not gen.cheap(t, radix, store):
                    continue
                try:
                    exp = ref.answer(t, ref.Config(radix=radix), store, 50000)
                except (ref.TooBig, ref.Inexact):
                    continue
                if exp[0] != "error":
                    continue
                self.judge(t, lines.ask(t), radix, store, argv, out)
                out.ok(t)
                if rng.random() < 0.03:
                    opts = [x for x in argv if x != "--no-db"]
                    self.judge(t, calc.eval_oneshot(ctx.bin, t, opts), radix, None, opts, out)
                    out.counts["one-shot"] += 1
            if len(out.samples) < 3:
                out.sample({"line": t})


CHECK = C36()
