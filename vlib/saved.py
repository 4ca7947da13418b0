"""Driving several real sessions on one data directory next to the model."""
from . import db, gen, model, ref
from .core import Inconclusive, Violation
from .session import Died, Session


class World:
    """A data directory, its model and running sessions."""

    def __init__(self, ctx, out, root=None, cap=100, preload=None, env=None):
        self.ctx, self.out = ctx, out
        self.root = root or ctx.tmpdir()
        self.store = model.Store(cap)
        self.env = dict(env or {})
        self.env["_B_UTIL_DATA_DIR"] = self.root
        self.preload = preload
        self.live = []
        self.recent = []
        self.count = 0

    def open(self, argv=()):
        try:
            s = Session(self.ctx.bin, list(argv), self.env, rows=50, cols=20000, preload=self.preload)
        except Died as d:
            raise Violation(what="a session did not start", status=d.session.status,
                            screen="\n".join(filter(None, ("".join(x).rstrip() for x in d.session.emu.main.lines)))[-600:],
                            recent=self.recent[-12:])
        self.count += 1
        p = Player(self, s, model.Session(ref.Config(), self.store), "s%d" % self.count)
        self.live.append(p)
        self.recent.append("%s: (start)" % p.name)
        return p

    def end(self):
        for p in self.live:
            p.s.kill()

    def dump(self, deep=False):
        d = db.Dump(self.root, deep)
        if d.problems:
            raise Violation(what="the saved data is not well formed", problems=d.problems[:5],
                            recent=self.recent[-12:])
        return d

    def compare(self, what=("cap", "inputs", "vars"), deep=False):
        d = self.dump(deep)
        real, want = d.snapshot(), self.store.snapshot()
        for k in ("cap", "inputs", "vars"):
            if k not in what:
                real[k] = want[k]
        diff = db.differences(real, want)
        if diff:
            raise Violation(what="the saved data differs from what was submitted", differences=diff[:6],
                            recent=self.recent[-12:])
        return d


class Player:
    def __init__(self, world, session, m, name):
        self.w, self.s, self.m, self.name = world, session, m, name

    def ask(self, line):
        """submit a line and check its answer; -> (expected, got)"""
        w = self.w
        self.m.dry(line)
        exp = self.m.submit(line)
        w.recent.append("%s: %s" % (self.name, line if len(line) < 200 else line[:200] + "..."))
        try:
            got = self.s.ask(line)
        except Died:
            raise Violation(what="the calculator ended on an input line", line=line, status=self.s.status,
                            recent=w.recent[-12:])
        model.check(got, exp, line, w.recent)
        return exp, got

    def settle(self, line):
        """a line that failed may or may not have brought the stored variables
        it names into the session: makes that certain before they are used"""
        for n in sorted(self.m.ambiguous):
            if n in line:
                self.ask(("/reloadvar " if n in self.w.store.vars else "/purgevar ") + n)

    def close(self, rng=None):
        """an orderly end, or now and then a kill while idle"""
        w = self.w
        w.live.remove(self)
        if rng is not None and rng.random() < 0.2:
            self.s.kill()
            w.recent.append("%s: (killed)" % self.name)
            return
        st = self.s.close(b"\x03" if rng is not None and rng.random() < 0.5 else b"\x04")
        w.recent.append("%s: (end)" % self.name)
        if st != 0:
            raise Violation(what="the session did not end properly", status=st, recent=w.recent[-12:])


def value_expr(rng, names=()):
    """an expression with an exact value, possibly of variables"""
    k = rng.random()
    if k < 0.25:
        n = gen.integer(rng, 60)
        s = str(n)
    elif k < 0.5:
        s = "%d/%d" % (gen.integer(rng, 40), 1 + gen.integer(rng, 40))
    elif k < 0.6:
        s = "%d^%d" % (rng.randrange(2, 40), rng.choice([0, 1, 5, 60, 150]))
        if rng.random() < 0.15:
            # thousands of digits
            s = rng.choice(["%s", "1/%s", "%s/3"]) % ("%d^%d" % (rng.randrange(2, 9), rng.choice([400, 1300, 2000, 3400])))
    elif k < 0.7:
        s = "1/%d^%d" % (rng.randrange(2, 12), rng.choice([1, 5, 60, 150]))
    elif k < 0.8:
        s = gen.literal(rng, 10, 30)
    elif k < 0.85:
        s = "0"
    else:
        s = "%d-%d" % (rng.randrange(100), rng.randrange(200))
    if rng.random() < 0.3:
        s = "-(%s)" % s
    if names and rng.random() < 0.5:
        op = rng.choice("+-*")
        n = rng.choice(list(names))
        s = rng.choice(["%s%s(%s)" % (n, op, s), "(%s)%s%s" % (s, op, n), n])
    return s


NAMES = ["$a", "$b", "$x", "$X", "$foo", "$Foo", "$a_b", "$_", "$n1", "$" + "long" * 10, "$", "$1", "$a.b", "$$", "$'", "$\"", "$@s", "$?1", "$:n", "$sqrt"]
