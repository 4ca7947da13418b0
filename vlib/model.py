"""Models of a session (settings, variables) and of the saved data."""
import re

from . import ref
from .calc import is_error_text
from .core import Violation

ALIASES = {"h": "help", "f": "fractional", "r": "radix", "comma": "commas", "p": "precision"}
NAMES = ("help", "reloadvar", "purgevar", "histcap", "fractional", "radix", "converttoradix",
         "upper", "commas", "precision")
BOOLS = {"t": True, "true": True, "f": False, "false": False}
I64 = 2 ** 63


class Store:
    """The saved data: bounded history and stored variables."""

    def __init__(self, cap=100):
        self.cap = cap
        self.hist = []            # (id, text), oldest first
        self.vars = {}            # name -> [value, id of the last mention]
        self.next = 1
        self.evicted_vars = 0
        self.evictions = 0

    def copy(self):
        s = Store(self.cap)
        s.hist = list(self.hist)
        s.vars = {k: list(v) for k, v in self.vars.items()}
        s.next = self.next
        s.evicted_vars, s.evictions = self.evicted_vars, self.evictions
        return s

    def add(self, text):
        i = self.next
        self.next += 1
        self.hist.append((i, text))
        self.shrink()
        return i

    def shrink(self):
        while len(self.hist) > self.cap:
            i, _ = self.hist.pop(0)
            self.evictions += 1
            for n in [n for n, v in self.vars.items() if v[1] == i]:
                del self.vars[n]
                self.evicted_vars += 1

    def set_cap(self, n):
        self.cap = n
        self.shrink()

    def touch(self, name, i):
        if name in self.vars:
            self.vars[name][1] = i

    def set(self, name, value, i):
        self.vars[name] = [value, i]

    def snapshot(self):
        """comparable content (mentions as positions in the history)"""
        pos = {i: k for k, (i, _) in enumerate(self.hist)}
        return {"cap": self.cap, "inputs": [t for _, t in self.hist],
                "vars": {n: (v[0], pos.get(v[1])) for n, v in self.vars.items()}}


class _Lookup:
    """What the variables of a session evaluate to; notes what was read."""

    def __init__(self, m):
        self.m = m
        self.read = []

    def __contains__(self, n):
        return n in self.m.vars or (self.m.store is not None and n in self.m.store.vars)

    def __getitem__(self, n):
        if n in self.m.vars:
            return self.m.vars[n]
        v = self.m.store.vars[n][0]
        self.read.append((n, v))
        return v


def parse_ints(args):
    """integers of an argument text, None when malformed"""
    try:
        t = ref.tokenize(args, 10)
    except ref.Reject:
        return None
    if t[0] == "cmd":
        return None
    out, neg = [], False
    for k, v, _ in t[1]:
        if k == "-":
            if neg:
                return None
            neg = True
        elif k == "num":
            if v.denominator != 1 or not -I64 <= v.numerator < I64:
                return None
            out.append(-v.numerator if neg else v.numerator)
            neg = False
        else:
            return None
    return None if neg else out


def parse_vars(args):
    try:
        t = ref.tokenize(args, 10)
    except ref.Reject:
        return None
    if t[0] == "cmd" or any(k != "var" for k, _, _ in t[1]):
        return None
    return [v for _, v, _ in t[1]]


class Session:
    """Predicts the answers of one session.  store: shared Store or None."""

    def __init__(self, cfg=None, store=None):
        self.cfg = cfg or ref.Config()
        self.store = store
        self.vars = {}
        self.ambiguous = set()
        self.last_id = None

    def dry(self, line):
        """Raises ref.TooBig / ref.Inexact if the answer is outside the exact
        domain; has no effect."""
        r = ref.answer(line, self.cfg, _Lookup(self))
        if r[0] == "value" and len(r[1]) > 15000:
            raise ref.TooBig()

    def submit(self, line, before_eval=None):
        """-> expected answer; changes the model"""
        i = self.last_id = self.store.add(line) if self.store is not None else None
        try:
            t = ref.tokenize(line, self.cfg.radix)
        except ref.Reject as r:
            return ("error", r.stage)
        if t[0] == "cmd":
            exp, touched = self.command(t[1], t[2])
            if self.store is not None:
                for n in touched:
                    self.store.touch(n, i)
            return exp
        names = [v for k, v, _ in t[1] if k == "var"]
        if self.store is not None:
            for n in names:
                self.store.touch(n, i)
        look = _Lookup(self)
        try:
            var, tree = ref.parse(t[1])
            if tree is None:
                return ("empty",)
            v = ref.evaluate(tree, look)
        except ref.Reject as r:
            if r.stage == "math" and self.store is not None:
                self.ambiguous |= {n for n in names if n not in self.vars and n in self.store.vars}
            return ("error", r.stage)
        for n, val in look.read:
            self.vars[n] = val
        if var is not None:
            self.vars[var] = v
            self.ambiguous.discard(var)
            if self.store is not None:
                self.store.set(var, v, i)
        return ("value", self.cfg.show(v), var, v)

    def command(self, name, args):
        """-> (expected answer, variables touched)"""
        c = self.cfg
        cmd = ALIASES.get(name, name)
        err = (("error", "command"), ())
        ok = (("ok",), ())
        if cmd not in NAMES:
            return err
        if cmd == "help":
            a = args.strip(ref.WS + "\x0b")
            if a and ALIASES.get(a, a) not in NAMES:
                return err
            return ("ok",), ()
        if cmd in ("reloadvar", "purgevar"):
            names = parse_vars(args)
            if names is None:
                return err
            if cmd == "purgevar":
                for n in names:
                    self.vars.pop(n, None)
                    self.ambiguous.discard(n)
                    if self.store is not None:
                        self.store.vars.pop(n, None)
                return ok
            if self.store is None:
                return err
            out = {}
            for n in names:
                if n in self.store.vars:
                    self.vars[n] = out[n] = self.store.vars[n][0]
                    self.ambiguous.discard(n)
                else:
                    out[n] = None
            return ("reload", out), names
        if cmd in ("fractional", "upper", "commas"):
            a = args.lower().strip()
            if not a:
                return ("bool", getattr(c, cmd)), ()
            if a not in BOOLS:
                return err
            setattr(c, cmd, BOOLS[a])
            return ok
        if cmd == "converttoradix" and args.lower().strip() == "none":
            c.convert = None
            return ok
        ints = parse_ints(args)
        if ints is None:
            return err
        if cmd in ("radix", "converttoradix"):
            attr = "radix" if cmd == "radix" else "convert"
            if not ints:
                v = getattr(c, attr)
                return (("none",) if v is None else ("ints", [v])), ()
            if len(ints) > 1 or not 2 <= ints[0] <= 16:
                return err
            setattr(c, attr, ints[0])
            return ok
        if cmd == "precision":
            if not ints:
                return ("ints", [c.precision, c.extra]), ()
            if len(ints) > 2:
                return err
            p = ints[0]
            e = ints[1] if len(ints) == 2 else c.extra
            if not 0 <= p <= 255 or not 0 <= e <= 255 or p + e > 255:
                return err
            c.precision, c.extra = p, e
            return ok
        # histcap
        if len(ints) > 1 or (ints and ints[0] < 1) or self.store is None:
            return err
        if not ints:
            return ("ints", [self.store.cap]), ()
        self.store.set_cap(ints[0])
        return ok


def matches(got, exp):
    k = exp[0]
    if k == "any":
        return True
    if k == "error":
        return is_error_text(got)
    if k == "value":
        return got == exp[1]
    if k == "empty":
        return got.strip() == ""
    if is_error_text(got):
        return False
    if k in ("ok", "reload"):
        return True
    if k == "ints":
        return [int(x) for x in re.findall(r"-?\d+", got)] == exp[1]
    low = got.lower()
    if k == "bool":
        words = set(re.findall(r"[a-z]+", low))
        yes, no = {"true", "on", "yes", "enabled"}, {"false", "off", "no", "disabled"}
        return bool(words & (yes if exp[1] else no)) and not words & (no if exp[1] else yes)
    if k == "none":
        return "none" in low and not re.search(r"\d", got)
    raise AssertionError(k)


def check(got, exp, line, recent, **more):
    if not matches(got, exp):
        raise Violation(what="wrong answer", line=line, expected=[str(x)[:3000] for x in exp],
                        got=got[:3000], recent=list(recent)[-12:], **more)
