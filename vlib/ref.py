"""Reference interpreter of the calculator's input language.

Written from the property statements (not from the Rust code's algorithms): a
precedence-climbing parser over the documented grammar, exact rational
evaluation with Python integers, and exact positional formatting.  It is the
oracle for the input/output properties and for the session models.
"""
from fractions import Fraction
import math

WS = " \t\n\x0c\r"
DIGITS = "0123456789abcdef"
SINGLE = set("+-*/%^()=,")
WORDS = ("sqrt", "abs", "max", "min")


class Reject(Exception):
    """Input that has to be answered with an error (any message)."""

    def __init__(self, why, stage="syntax"):
        super().__init__(why)
        self.why = why
        self.stage = stage


class TooBig(Exception):
    """Outside the domain the generators want to explore (cost)."""


class Inexact(Exception):
    """A root that is not an integer: decided by the interval oracle only."""


def parse_literal(word, radix):
    s = word.replace("_", "")
    whole, dot, frac = s.partition(".")
    digits = whole + frac
    if not digits:
        return None
    n = 0
    for c in digits.lower():
        d = DIGITS.find(c)
        if d < 0 or d >= radix:
            return None
        n = n * radix + d
    return Fraction(n, radix ** len(frac))


def tokenize(text, radix):
    """-> ('cmd', name, args) or ('toks', [(kind, value, text)])"""
    if any(ord(c) > 127 for c in text):
        raise Reject("non-ascii", "token")
    stripped = text.lstrip(WS + "\x0b")
    if stripped.startswith("/"):
        rest = stripped[1:]
        for i, c in enumerate(rest):
            if c in WS:
                return ("cmd", rest[:i], rest[i + 1:])
        return ("cmd", rest, "")
    toks = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c in WS:
            i += 1
            continue
        if c in SINGLE:
            toks.append((c, None, c))
            i += 1
            continue
        j = i
        while j < n and text[j] not in WS and text[j] not in SINGLE:
            j += 1
        word = text[i:j]
        i = j
        if word[0] == "$":
            toks.append(("var", word, word))
        elif word in WORDS:
            toks.append((word, None, word))
        else:
            v = parse_literal(word, radix)
            if v is None:
                raise Reject("bad number %r" % word, "token")
            toks.append(("num", v, word))
    return ("toks", toks)


class _P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def operand(self):
        k = self.peek()
        if k is None:
            raise Reject("operand missing at the end")
        tok = self.t[self.i]
        self.i += 1
        if k == "num":
            return ("num", tok[1])
        if k == "var":
            return ("var", tok[1])
        if k == "-":
            return ("neg", self.operand())
        if k in ("sqrt", "abs"):
            return (k, self.operand())
        if k == "(":
            e = self.expr()
            if self.peek() != ")":
                raise Reject("unbalanced or misplaced token in parentheses")
            self.i += 1
            return e
        if k in ("max", "min"):
            if self.peek() != "(":
                return ("call", k, [self.operand()])
            self.i += 1
            args = []
            if self.peek() == ")":
                self.i += 1
                return ("call", k, args)
            while True:
                args.append(self.expr())
                nk = self.peek()
                self.i += 1
                if nk == ")":
                    return ("call", k, args)
                if nk != ",":
                    raise Reject("bad argument list")
        raise Reject("operand expected, found %r" % k)

    LEVELS = {"^": 4, "%": 3, "*": 2, "/": 2, "+": 1, "-": 1}

    def expr(self, minlevel=1):
        left = self.operand()
        while True:
            k = self.peek()
            lv = self.LEVELS.get(k)
            if lv is None or lv < minlevel:
                return left
            self.i += 1
            right = self.expr(lv + 1)
            left = ("bin", k, left, right)


def parse(toks):
    """-> (assigned variable or None, tree or None for the empty input)"""
    if not toks:
        return (None, None)
    var = None
    if len(toks) >= 2 and toks[0][0] == "var" and toks[1][0] == "=":
        var = toks[0][1]
        toks = toks[2:]
    p = _P(toks)
    e = p.expr()
    if p.i != len(toks):
        raise Reject("trailing %r" % (p.peek(),))
    return (var, e)


def iroot(n, d):
    """floor of the d-th root of n >= 0"""
    if n < 2:
        return n
    x = 1 << -(-n.bit_length() // d)
    while True:
        y = ((d - 1) * x + n // x ** (d - 1)) // d
        if y >= x:
            return x
        x = y


def power(base, exp, maxbits=400000):
    """exact power, or Reject / Inexact / TooBig"""
    if exp < 0:
        if base == 0:
            raise Reject("zero to a negative power", "math")
        base = 1 / base
        exp = -exp
    n, d = exp.numerator, exp.denominator
    bits = max(base.numerator.bit_length(), base.denominator.bit_length())
    if base not in (0, 1, -1) and (n > 10 ** 7 or bits * n > maxbits):
        raise TooBig()
    r = base ** n if n < 10 ** 7 else (
        base if base in (0, 1) else (Fraction(1) if n % 2 == 0 else base))
    if d == 1:
        return Fraction(r)
    if r < 0 and d % 2 == 0:
        raise Reject("even root of a negative number", "math")
    if r.denominator == 1:
        m = iroot(abs(r.numerator), d) if d < 4000 else (0 if r == 0 else 1)
        if m ** d == abs(r.numerator):
            return Fraction(m if r >= 0 else -m)
    raise Inexact()


def evaluate(node, variables=None, maxbits=400000):
    """exact value of a tree.  `variables`: mapping name -> Fraction, or None
    when variables are unsupported (one-shot evaluation)."""
    def ev(n):
        k = n[0]
        if k == "num":
            return n[1]
        if k == "var":
            if variables is None or n[1] not in variables:
                raise Reject("unknown variable", "math")
            return variables[n[1]]
        if k == "neg":
            return -ev(n[1])
        if k == "abs":
            return abs(ev(n[1]))
        if k == "sqrt":
            return power(ev(n[1]), Fraction(1, 2), maxbits)
        if k == "call":
            vals = [ev(a) for a in n[2]]
            if not vals:
                raise Reject("no arguments", "math")
            return max(vals) if n[1] == "max" else min(vals)
        op = n[1]
        a = ev(n[2])
        b = ev(n[3])
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                raise Reject("division by zero", "math")
            r = a / b
        elif op == "%":
            if b == 0:
                raise Reject("modulus by zero", "math")
            q = a / b
            t = abs(q.numerator) // q.denominator
            r = a - b * (t if q >= 0 else -t)
        else:
            r = power(a, b, maxbits)
        if r.numerator.bit_length() + r.denominator.bit_length() > maxbits:
            raise TooBig()
        return r
    return ev(node)


def to_radix(n, radix):
    if n == 0:
        return "0"
    if radix == 16:
        return "%x" % n
    if radix == 10:
        return _dec(n)
    if radix == 2:
        return bin(n)[2:]
    if radix == 8:
        return oct(n)[2:]
    out = []
    # split to keep it subquadratic enough
    def rec(x, width):
        if width <= 40:
            ds = []
            while x:
                x, d = divmod(x, radix)
                ds.append(DIGITS[d])
            s = "".join(reversed(ds))
            return s.rjust(width, "0")
        h = width // 2
        hi, lo = divmod(x, radix ** h)
        return rec(hi, width - h) + rec(lo, h)
    w = int(n.bit_length() / math.log2(radix)) + 3
    s = rec(n, w).lstrip("0")
    return s


def _dec(n):
    import sys
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(0)
    return str(n)


def group(s):
    out = []
    while len(s) > 3:
        out.append(s[-3:])
        s = s[:-3]
    out.append(s)
    return ",".join(reversed(out))


def fmt_decimal(v, radix, precision, commas=False, upper=False):
    scale = radix ** precision
    x = abs(v) * scale
    fl, rem = divmod(x.numerator, x.denominator)
    exact = rem == 0
    if 2 * rem >= x.denominator and not exact:
        fl += 1
    ip, fp = divmod(fl, scale)
    s = to_radix(ip, radix)
    if upper:
        s = s.upper()
    if commas:
        s = group(s)
    if precision:
        f = to_radix(fp, radix).rjust(precision, "0")
        if upper:
            f = f.upper()
        if exact:
            f = f.rstrip("0")
        if f:
            s += "." + f
    return ("-" if v < 0 else "") + s


def fmt_fraction(v, radix, commas=False, upper=False):
    def one(n):
        s = to_radix(n, radix)
        if upper:
            s = s.upper()
        return group(s) if commas else s
    s = ("-" if v < 0 else "") + one(abs(v.numerator))
    if v.denominator != 1:
        s += "/" + one(v.denominator)
    return s


class Config:
    """Display/parse settings with the command-line defaults."""
    __slots__ = ("radix", "convert", "precision", "extra", "fractional",
                 "commas", "upper")

    def __init__(self, radix=10, convert=None, precision=5, extra=10,
                 fractional=False, commas=False, upper=False):
        self.radix = radix
        self.convert = convert
        self.precision = precision
        self.extra = extra
        self.fractional = fractional
        self.commas = commas
        self.upper = upper

    def copy(self):
        return Config(*[getattr(self, k) for k in self.__slots__])

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}

    @property
    def out(self):
        return self.convert if self.convert is not None else self.radix

    def options(self, rng=None):
        """command-line options that select this configuration"""
        a = []
        short = rng is not None and rng.random() < 0.5
        if self.radix != 10 or (rng and rng.random() < 0.2):
            a += ["-r", str(self.radix)] if short else ["--radix", str(self.radix)]
        if self.convert is not None:
            a += ["--convert-to-radix", str(self.convert)]
        if self.precision != 5 or (rng and rng.random() < 0.2):
            a += ["-p", str(self.precision)] if short else ["--precision=%d" % self.precision]
        if self.extra != 10 or (rng and rng.random() < 0.2):
            a += ["--extra-precision", str(self.extra)]
        if self.fractional:
            a += ["-f" if short else "--fractional"]
        if self.commas:
            a += ["-c" if short else "--commas"]
        if self.upper:
            a += ["-u" if short else "--upper"]
        return a

    def show(self, v):
        if self.fractional:
            return fmt_fraction(v, self.out, self.commas, self.upper)
        return fmt_decimal(v, self.out, self.precision, self.commas, self.upper)


def answer(text, cfg, variables=None, maxbits=400000):
    """Reference answer to an expression line.
    -> ('value', string, assigned name or None, value) | ('error', stage)
       | ('empty',)
    Raises TooBig / Inexact when outside the exact domain; returns
    ('cmd', ...) for commands."""
    try:
        t = tokenize(text, cfg.radix)
        if t[0] == "cmd":
            return t
        var, tree = parse(t[1])
        if tree is None:
            return ("empty",)
        v = evaluate(tree, variables, maxbits)
    except Reject as r:
        return ("error", r.stage)
    return ("value", cfg.show(v), var, v)
