"""C06: roots and fractional powers are accurate to the configured precision."""
from fractions import Fraction

from vlib import calc, gen, oneshot, ref
from vlib.core import Check, Inconclusive, Violation

CPU_LIMIT = 40        # CPU seconds; these roots normally take well below one


def parse_shown(s, radix):
    """-> (value, number of fractional digits) of a displayed number"""
    neg = s.startswith("-")
    body = s[1:] if neg else s
    if "/" in body:
        a, b = body.split("/")
        v = ref.parse_literal(a, radix) / ref.parse_literal(b, radix)
        return (-v if neg else v), None
    v = ref.parse_literal(body, radix)
    if v is None:
        raise Violation(what="unreadable number", shown=s)
    return (-v if neg else v), len(body.partition(".")[2])


def is_root_within(x, rad, d, bound):
    """|x - rad^(1/d)| <= bound, exactly"""
    if rad < 0:
        x, rad = -x, -rad
    lo = x - bound
    hi = x + bound
    if hi < 0 or hi ** d < rad:
        return False
    return lo <= 0 or lo ** d <= rad


def rational_root(rad, d):
    a = ref.iroot(abs(rad.numerator), d)
    b = ref.iroot(rad.denominator, d)
    if a ** d == abs(rad.numerator) and b ** d == rad.denominator:
        return Fraction(a if rad >= 0 else -a, b)
    return None


class C06(Check):
    id = "C06"
    rule = ("square roots and powers n/d (d 2-12, reduced) of radicands that are perfect powers, "
            "neighbours of perfect powers, rational powers, random rationals from 1e-40 to "
            "hundreds of digits and both signs, over radix 2-16, precision and extra precision "
            "0-255; the shown value x is checked exactly: (x-b)^d <= r <= (x+b)^d for the "
            "permitted error b, exactness for integer roots and trailing digits for irrational "
            "ones. Non-trivial: distinct (radicand, degree, radix, precision, extra, output).")
    assumptions = ("a root that needs more than %d CPU seconds (normally < 1) is not prompt"
                   % CPU_LIMIT,)
    case_timeout = 400

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def radicand(self, rng, d):
        k = rng.randrange(9)
        cap = {2: 60, 3: 40, 4: 30}.get(d, 12)
        m = rng.choice([rng.randrange(0, 12), rng.randrange(0, 1000), gen.integer(rng, cap)])
        m = min(m, 10 ** cap)
        if k == 0:
            return Fraction(m ** d)
        if k == 1:
            return Fraction(max(0, m ** d + rng.choice([1, -1])))
        if k == 2:
            return Fraction(max(1, m), rng.randrange(1, 60)) ** d if d <= 6 else Fraction(m + 1, 7)
        if k == 3:
            return Fraction(rng.randrange(1, 100), 10 ** rng.randrange(0, 41))
        if k == 4:
            return Fraction(rng.randrange(2, 200))
        if k == 5:
            return Fraction(rng.randrange(1, 10 ** 6), rng.randrange(1, 10 ** 6))
        if k == 6:
            return Fraction(rng.randrange(10 ** rng.choice([10, 30, 100, 200])))
        if k == 7:                   # around 1 and around powers, where guesses switch
            return max(Fraction(0), rng.choice([0, 1, 1, 2, 2 ** d, 3 ** d]) + Fraction(
                rng.choice([1, -1]), rng.choice([2, 3, 7, 100, 10 ** 6, 10 ** 20])))
        return Fraction(max(1, m) ** d) * Fraction(rng.randrange(1, 5), rng.randrange(1, 5))

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        for _ in range(6):
            self.one(rng, ctx, out)

    def one(self, rng, ctx, out):
        cfg = ref.Config()
        cfg.radix = rng.choice([10, 10, 10, rng.randrange(2, 17)])
        k = rng.random()
        if k < 0.5:
            cfg.precision, cfg.extra = rng.choice([0, 1, 2, 5, 5, 8, 15]), rng.choice([0, 1, 5, 10, 10])
        elif k < 0.85:
            cfg.precision, cfg.extra = rng.randrange(0, 50), rng.randrange(0, 30)
        d = rng.choice([2, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        heavy = False
        if k >= 0.95:
            heavy = True
            d = rng.choice([2, 2, 3])
            cfg.precision = rng.choice([100, 200, 255, 255, rng.randrange(256)])
            cfg.extra = rng.choice([0, 10, 56, 255])
        if rng.random() < 0.35:
            cfg.fractional = True
        elif rng.random() < 0.3:
            cfg.convert = rng.randrange(2, 17)
        n = rng.choice([1, 1, 1, 1, 2, 3, 5, -1, -2])
        while True:
            import math
            if math.gcd(abs(n), d) == 1:
                break
            n += 1
        base = self.radicand(rng, d)
        if abs(n) > 1 and base.numerator.bit_length() > 200:
            base = Fraction(base.numerator % (2 ** 150), base.denominator)
        if d % 2 and rng.random() < 0.4:
            base = -base
        if n < 0 and base == 0:
            n = 1
        rad = (base if n > 0 else 1 / base) ** abs(n)
        r = cfg.radix
        btext = gen.value_text(rng, base, r)
        form = rng.randrange(4)
        if n == 1 and d == 2 and form < 2:
            text = "sqrt(%s)" % btext if base.denominator != 1 or base < 0 or form else "sqrt " + btext
        else:
            etext = "%s%s/%s" % ("-" if n < 0 else "", ref.to_radix(abs(n), r), ref.to_radix(d, r))
            text = "(%s)^(%s)" % (btext, etext)
            e = Fraction(n, d)
            if form == 3 and n > 0 and (r ** 12) % d == 0:
                text = "(%s)^%s" % (btext, ref.fmt_decimal(e, r, 12))
        argv = cfg.options(rng)
        want = rational_root(rad, d)
        run = oneshot.ev(ctx.bin, text, argv, timeout=300, cpu=CPU_LIMIT)
        info = dict(line=text, argv=argv, degree=d)
        if run.timeout:
            raise Inconclusive("root timed out")
        if run.out_of_cpu:
            raise Violation(what="root did not finish within %d CPU seconds" % CPU_LIMIT, **info)
        got = calc.oneshot_text(run, text, argv)
        if calc.is_error_text(got):
            raise Violation(what="a root was refused", got=got, **info)
        if want is not None and want.denominator == 1:
            if got != cfg.show(want):
                raise Violation(what="an integer root is not exact", expected=cfg.show(want),
                                got=got, **info)
            kind = "integer"
        else:
            kind = "rational" if want is not None else "irrational"
            x, digits = parse_shown(got, cfg.out)
            ulp = Fraction(1, r ** (cfg.precision + cfg.extra))
            bound = ulp
            if not cfg.fractional:
                bound += Fraction(1, 2 * cfg.out ** cfg.precision)
            if not is_root_within(x, rad, d, bound):
                raise Violation(what="the root is off by more than permitted", got=got, **info)
            if not cfg.fractional and (got.startswith("-") != (rad < 0)):
                raise Violation(what="wrong sign", got=got, **info)
            if cfg.fractional and x == 0 and False:
                pass
            if kind == "irrational" and digits is not None and cfg.out == r \
                    and digits != cfg.precision:
                raise Violation(what="an irrational root looks exact", got=got,
                                digits_shown=digits, precision=cfg.precision, **info)
        out.counts[kind] += 1
        out.counts["degree %d" % d] += 1
        if heavy:
            out.counts["precision >= 100"] += 1
        out.ok((str(rad), d, r, cfg.precision, cfg.extra, cfg.out, cfg.fractional)
               if rad not in (0, 1) else None)
        if len(text) < 60 and len(got) < 80:
            out.sample({"line": text, "options": argv, "answer": got}, 1)


CHECK = C06()
