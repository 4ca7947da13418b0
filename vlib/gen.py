"""Generators of literals, expressions and noise."""
from fractions import Fraction

from . import ref

SPECIAL_INTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 27, 31, 32, 36, 60, 63,
                64, 81, 99, 100, 101, 127, 128, 144, 255, 256, 257, 999, 1000, 1001, 1023, 1024,
                4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999,
                1000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53,
                2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1,
                2 ** 127, 2 ** 128 - 1, 2 ** 128, 10 ** 18, 10 ** 19, 10 ** 38, 10 ** 40]


def integer(rng, maxdigits=60):
    k = rng.random()
    if k < 0.35:
        return rng.randrange(0, 20)
    if k < 0.6:
        return rng.choice(SPECIAL_INTS)
    if k < 0.75:
        return max(0, 2 ** rng.randrange(1, 200) + rng.choice([-1, 0, 1]))
    if k < 0.9:
        return rng.randrange(0, 10 ** rng.randrange(1, 12))
    return rng.randrange(0, 10 ** rng.randrange(1, maxdigits + 1))


def decorate(rng, digits, radix, under=0.1):
    """random case and underscores"""
    out = []
    for c in digits:
        if c.isalpha() and rng.random() < 0.5:
            c = c.upper()
        out.append(c)
        if rng.random() < under:
            out.append("_" * rng.randrange(1, 3))
    s = "".join(out)
    return s


def literal(rng, radix, maxdigits=60, frac=0.35, under=None):
    """-> text of a valid literal"""
    if under is None:
        under = 0.0 if rng.random() < 0.8 else 0.2
    k = rng.random()
    if k < 0.55:
        whole = ref.to_radix(integer(rng, maxdigits), radix)
    else:
        n = rng.choice([1, 1, 2, 3, 5, 9, 17, 33, maxdigits])
        whole = "".join(rng.choice(ref.DIGITS[:radix]) for _ in range(rng.randrange(1, n + 1)))
    text = decorate(rng, whole, radix, under)
    if rng.random() < frac:
        n = rng.choice([0, 1, 1, 2, 2, 3, 5, 9, 20, maxdigits])
        fr = "".join(rng.choice(ref.DIGITS[:radix] + "0") for _ in range(n))
        fr = fr if all(ref.DIGITS.find(c) < radix for c in fr) else "0"
        if not fr and rng.random() < 0.5:
            fr = "0"
        if rng.random() < 0.15 and fr:
            text = ""
        text = text + "." + decorate(rng, fr, radix, under)
    if under and rng.random() < 0.3 and not text.startswith("_"):
        text = "_" + text
    return text


def simple_num(rng, lo=0, hi=30):
    return rng.randrange(lo, hi)


# ---- expression trees (nodes of ref.py; numbers carry their text) -----------

def num(text, radix):
    v = ref.parse_literal(text, radix)
    assert v is not None, text
    return ("num", v, text)


def int_node(n, radix):
    return num(ref.to_radix(n, radix), radix)


def frac_node(rng, v, radix, mult=1):
    """A rational (written a/b, unreduced by mult) as a tree"""
    m = rng.choice([1, 1, 1, 2, 3, radix]) if mult is None else mult
    n = int_node(abs(v.numerator) * m, radix)
    if v.denominator * m != 1:
        n = ("bin", "/", n, int_node(v.denominator * m, radix))
    return ("neg", n) if v < 0 else n


def related(rng, v):
    """-> another rational that stands in some relation to v"""
    d = v.denominator
    n = rng.choice([1, 1, 2, 3, 5, 7, 10, rng.randrange(1, 100)])
    k = rng.randrange(14)
    if k == 0:
        w = v
    elif k == 1:
        w = -v
    elif k == 2:
        w = 1 / v if v else v
    elif k == 3:
        w = -1 / v if v else v
    elif k <= 6:        # the same denominator, or one that divides it
        w = Fraction(rng.choice([1, -1]) * rng.choice([1, 3, d - 1, d + 1, 2 * d + 1, rng.randrange(1, 1000)]), d)
    elif k == 7:        # a multiple of the denominator
        w = Fraction(integer(rng, 12), d * n)
    elif k == 8:        # neighbours
        w = v + Fraction(rng.choice([-1, 1]), d * n)
    elif k == 9:        # differ by an integer
        w = v + rng.choice([-1, 1]) * integer(rng, 12)
    elif k == 10:       # the other's multiple or part
        w = v * n
    elif k == 11:
        w = v / n
    elif k == 12:       # the parts shared crosswise
        w = Fraction(d, abs(v.numerator) + n)
    else:               # the integers around it
        w = Fraction(v.numerator // d + rng.choice([0, 1]))
    return -w if rng.random() < 0.15 else w


def related_pair(rng, radix, op):
    """Two related fractions combined by op"""
    k = rng.random()
    v = Fraction(integer(rng, 25), max(1, integer(rng, 20) if k < 0.5 else rng.randrange(1, 200)))
    if rng.random() < 0.3:
        v = -v
    w = related(rng, v)
    if w == 0 and op in "/%":
        w = Fraction(1, v.denominator)
    a, b = frac_node(rng, v, radix, None), frac_node(rng, w, radix, None)
    return ("bin", op, a, b) if rng.random() < 0.5 or (v == 0 and op in "/%") else ("bin", op, b, a)


def tree(rng, radix, size, maxdigits=40, ops="+-*/%^", frac=0.35, funcs=True,
         variables=(), roots=False):
    """A random tree with about `size` leaves."""
    if size <= 1:
        if variables and rng.random() < 0.4:
            return ("var", rng.choice(variables))
        return num(literal(rng, radix, maxdigits, frac), radix)
    k = rng.random()

    def sub(n):
        return tree(rng, radix, n, maxdigits, ops, frac, funcs, variables, roots)
    if k < 0.1:
        return ("neg", sub(size))
    if funcs and k < 0.14:
        return ("abs", sub(size))
    if funcs and k < 0.2:
        n = rng.choice([1, 1, 2, 2, 3, 4, 6])
        return ("call", rng.choice(["max", "min"]),
                [sub(max(1, size // n)) for _ in range(n)])
    op = rng.choice(ops)
    if op in "+-*/%" and size <= 4 and "/" in ops and rng.random() < 0.25:
        return related_pair(rng, radix, op)
    if op == "^":
        e = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 10, 16, 33])
        en = int_node(e, radix)
        if rng.random() < 0.3:
            en = ("neg", en)
        if rng.random() < 0.1:
            en = ("bin", "-", int_node(e + 2, radix), int_node(2, radix))
        return ("bin", "^", sub(size - 1), en)
    a = rng.randrange(1, size)
    return ("bin", op, sub(a), sub(size - a))


LEVEL = {"^": 4, "%": 3, "*": 2, "/": 2, "+": 1, "-": 1}


def level(n):
    return LEVEL[n[1]] if n[0] == "bin" else 5


def render(rng, n, space=None, paren=0.1, tabs=False):
    """Text of a tree with the parentheses it needs and some it doesn't."""
    if space is None:
        space = rng.choice([0.0, 0.0, 0.3, 1.0])
    ws = " \t" if tabs else " "

    def sp():
        if rng.random() < space:
            return rng.choice(ws) * rng.choice([1, 1, 1, 2, 3])
        return ""

    def wrap(s):
        return "(" + sp() + s + sp() + ")"

    def go(n, need):
        k = n[0]
        if k == "num":
            s = n[2] if len(n) > 2 else None
            assert s is not None
        elif k == "var":
            s = n[1]
        elif k == "neg":
            s = "-" + sp() + go(n[1], 5)
        elif k in ("abs", "sqrt"):
            inner = go(n[1], 5)
            gap = sp()
            if not gap and not inner.startswith(("(", "-")):
                gap = " "
            s = k + gap + inner
        elif k == "call":
            if len(n[2]) == 1 and rng.random() < 0.4:
                inner = go(n[2][0], 5)
                gap = sp()
                if not gap and not inner.startswith(("(", "-")):
                    gap = " "
                if inner.startswith("("):
                    # would be read as the argument list: the same thing
                    pass
                s = n[1] + gap + inner
            else:
                s = n[1] + sp() + "(" + sp() + (sp() + "," + sp()).join(
                    go(a, 1) for a in n[2]) + sp() + ")"
        else:
            lv = LEVEL[n[1]]
            s = go(n[2], lv) + sp() + n[1] + sp() + go(n[3], lv + 1)
        if level(n) < need or rng.random() < paren:
            s = wrap(s)
        return s
    return sp() + go(n, 1) + sp()


def depth(n):
    if n[0] in ("num", "var"):
        return 1
    if n[0] == "call":
        return 1 + max([depth(a) for a in n[2]] or [0])
    if n[0] == "bin":
        return 1 + max(depth(n[2]), depth(n[3]))
    return 1 + depth(n[1])


def ops_of(n, acc=None):
    acc = acc if acc is not None else []
    if n[0] == "bin":
        acc.append(n[1])
        ops_of(n[2], acc)
        ops_of(n[3], acc)
    elif n[0] == "call":
        acc.append(n[1])
        for a in n[2]:
            ops_of(a, acc)
    elif n[0] in ("neg", "abs", "sqrt"):
        acc.append(n[0])
        ops_of(n[1], acc)
    return acc


def rational(rng, big=False):
    """an interesting rational number"""
    k = rng.random()
    n = integer(rng, 60)
    if k < 0.2:
        d = 1
    elif k < 0.5:
        d = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 25, 32, 60, 64, 81, 100,
                        125, 243, 256, 1000, 1024, 3125, 4096, 10 ** 5, 10 ** 10])
    elif k < 0.7:
        r = rng.choice([2, 3, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16])
        d = r ** rng.randrange(0, 30)
    else:
        d = max(1, integer(rng, 40))
    v = Fraction(n, d)
    return -v if rng.random() < 0.4 else v


def config(rng, fractional=None):
    c = ref.Config()
    c.radix = rng.choice([10, 10, rng.randrange(2, 17)])
    if rng.random() < 0.4:
        c.convert = rng.randrange(2, 17)
    if rng.random() < 0.6:
        c.precision = rng.choice([0, 0, 1, 2, 3, 5, 8, 10, 17, 40, 64, 100, 128, 200, 254, 255,
                                  rng.randrange(0, 256)])
    if rng.random() < 0.2:
        c.extra = rng.choice([0, 1, 10, 50, 255])
    c.fractional = rng.random() < 0.3 if fractional is None else fractional
    c.commas = rng.random() < 0.3
    c.upper = rng.random() < 0.3
    return c


def value_text(rng, v, radix):
    """an expression for an exact rational value"""
    s = ref.to_radix(abs(v.numerator), radix)
    if v.denominator != 1:
        s += rng.choice(["/", " / "]) + ref.to_radix(v.denominator, radix)
    if v < 0:
        s = rng.choice(["-", "- ", "0-"]) + s if v.denominator == 1 or True else s
    return s


# ---- noise -------------------------------------------------------------------

TOKENS = ["0", "1", "2", "10", "0.5", ".5", "5.", "ff", "1_000", "$x", "$y", "$", "$unknown", "+", "-",
          "*", "/", "%", "^", "(", ")", "(", ")", ",", "max", "min", "abs", "sqrt", "=", "max(", "min(",
          "sqrt(", "abs(", "_", ".", "1.2.3", "g", "MAX", "@", "!", "\\", "'", '"', "#", "&", "|", "~"]
COMMANDS = ["help", "h", "reloadvar", "purgevar", "histcap", "fractional", "f", "radix", "r",
            "converttoradix", "upper", "commas", "comma", "precision", "p"]
ARGS = ["", "0", "1", "2", "10", "16", "17", "255", "256", "-1", "-0", "--1", "- 5", "5 5", "1 2 3", "0 0",
        "255 0", "255 1", "200 56", "100 155", "t", "f", "true", "false", "TRUE", "yes", "none", "None",
        "$x", "$x $y", "$x,$y", "$", "x", "2.0", "2.5", "1_6", "0x10", "99999999999999999999",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "/help", "help", "()",
        "1+1", "$x=5", ".", "_", "t f", "5 t", "h", "nosuch", "\x0b", "10 10 10"]


def noise_line(rng, unicode_ok=False):
    """-> an arbitrary printable line"""
    k = rng.random()
    if k < 0.2:
        n = rng.choice([1, 2, 5, 10, 20, 40])
        s = "".join(chr(rng.randrange(32, 127)) for _ in range(n))
        s = s.replace("^", "*")
    elif k < 0.5:
        n = rng.choice([1, 2, 3, 4, 6, 10, 20])
        s = rng.choice(["", " "]).join(rng.choice(TOKENS) for _ in range(n))
    elif k < 0.7:
        t = tree(rng, 10, rng.choice([1, 2, 4, 8]), 10, variables=("$x", "$y"))
        s = render(rng, t)
        for _ in range(rng.randrange(0, 4)):
            i = rng.randrange(len(s) + 1)
            if rng.random() < 0.5:
                s = s[:i] + s[i + 1:]
            else:
                s = s[:i] + rng.choice("()+-*/%,=.$_ 0159az") + s[i:]
    else:
        c = rng.choice(COMMANDS)
        if rng.random() < 0.1:
            c = rng.choice(["", "Help", "nosuch", "radix10", "/", "p5", "-", "$x"])
        s = "/" + c + rng.choice([" ", " ", "  ", ""]) + rng.choice(ARGS)
        if rng.random() < 0.1:
            s = "  " + s
        if rng.random() < 0.1:
            s += rng.choice(ARGS)
    if unicode_ok and rng.random() < 0.3:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(["\xe9", "\u20ac", "\u0660", "\U0001f600", "\t", "\n", "\r", "\x0b",
                                "\x0c", "\x01", "\x7f", "\xa0", "\u2212", "\u3000", "\ufeff",
                                "\u0301", "\xad"]) + s[i:]
    return s


def cheap(line, radix, variables=None, maxbits=40000):
    """Would evaluating the line certainly be quick?  (False: may be long)"""
    try:
        ref.answer(line, ref.Config(radix=radix), variables, maxbits)
        return True
    except (ref.TooBig, ref.Inexact):
        return False


# ---- lines whose form is large ------------------------------------------------
SIZES = (9, 12, 17, 20, 25, 33, 40, 50, 51, 65, 70, 80, 100, 101, 128, 129, 150, 200, 256, 257, 300)


def large(rng, radix=10, variables=(), most=300):
    """-> a well-formed line with many terms, arguments, levels, prefixes,
    blanks or digits (and a harmless value)"""
    n = rng.choice([x for x in SIZES if x <= most])

    def small():
        if variables and rng.random() < 0.3:
            return rng.choice(variables)
        return rng.choice(["1", "1", "0", "1.1", "10", "11", "0.1"]) if radix == 2 else str(rng.randrange(radix if radix < 10 else 10))

    def term():
        k = rng.random()
        if k < 0.8:
            return small()
        if k < 0.9:
            return "(%s%s%s)" % (small(), rng.choice("+-*"), small())
        return "%s(%s,%s)" % (rng.choice(["max", "min"]), small(), small())
    k = rng.randrange(10)
    if k == 0:              # levels of parentheses, with something on them
        t, busy = small(), rng.choice([0.1, 0.5, 1])
        for _ in range(n):
            if rng.random() > busy:
                t = "(%s)" % t
            elif rng.random() < 0.5:
                t = "(%s%s%s)" % (t, rng.choice("+-"), small())
            else:
                t = "(%s%s%s)" % (small(), rng.choice("+-"), t)
        return t
    if k == 1:              # levels of calls
        t = small()
        for _ in range(n):
            j = rng.randrange(4)
            t = ("abs(%s)" % t if j == 0 else "abs %s" % t if j == 1 else
                 "%s(%s,%s)" % (rng.choice(["max", "min"]), t, small()) if j == 2 else
                 "%s(%s, %s)" % (rng.choice(["max", "min"]), small(), t))
        return t
    if k == 2:              # a long sum
        return small() + "".join(rng.choice(["+", "-", " + ", "-"]) + term() for _ in range(n))
    if k == 3:              # all sorts of operators
        t = small()
        for _ in range(n):
            j = rng.random()
            t += ("+" + term() if j < 0.35 else "-" + term() if j < 0.7 else "*" + rng.choice(["1", "1", "10"]) if j < 0.85 else
                  "/" + rng.choice(["1", "1", "10"]) if j < 0.95 else "^1")
        return t
    if k == 4:              # many arguments, the extreme one anywhere
        args = [term() for _ in range(n)]
        args[rng.randrange(n)] = rng.choice(["-", ""]) + "1" * rng.choice([2, 3, 9])
        args[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(["-", ""]) + "1" * rng.choice([2, 3, 9])
        return "%s(%s)" % (rng.choice(["max", "min"]), ",".join(args))
    if k == 5:              # prefixes
        pre = rng.choice([["-"], ["-", "- "], ["-", "abs ", "max ", "min "], ["abs "]])
        return rng.choice(["", small() + "+", small() + "-"]) + "".join(rng.choice(pre) for _ in range(n)) + small()
    if k == 6:              # digits without a meaning
        w = rng.choice(["0", "_", "0_"]) * n
        return rng.choice(["%s1" % w, "1.1%s" % w, "1%s" % ("_" * n), "1.%s1" % ("0" * n), "%s.1" % w.replace("_", "0")])
    if k == 7:              # blanks
        return (" " * n).join(["", small(), rng.choice("+-*"), "(", small(), "-", "1", ")", ""])
    if k == 8:              # a long product and powers of one
        return "*".join(rng.choice(["1", "1", "10", "0.1", "(-1)", "1^1"]) for _ in range(n))
    # a right-hand chain of subtractions in parentheses next to each other
    return small() + "".join("%s(%s)" % (rng.choice("+-"), small()) for _ in range(n))
