"""States the saved data may have when an input is interrupted."""
import copy
import itertools
import shutil

from . import db, model, ref
from .saved import NAMES, value_expr


def clone(m, store):
    c = model.Session(copy.copy(m.cfg), store)
    c.vars = dict(m.vars)
    c.ambiguous = set(m.ambiguous)
    return c


def reachable(m, line):
    """[stores]: before, after each single update of the input, after all of
    it; and what the session answers"""
    states = [m.store.copy()]
    st = m.store.copy()
    i = st.add(line)
    states.append(st.copy())
    full = clone(m, m.store.copy())
    exp = full.submit(line)
    try:
        t = ref.tokenize(line, m.cfg.radix)
    except ref.Reject:
        t = None
    names = []
    if t is not None and t[0] == "cmd":
        cmd = model.ALIASES.get(t[1], t[1])
        args = model.parse_vars(t[2]) or []
        if cmd == "purgevar":
            for k in range(1, len(set(args)) + 1):
                for sub in itertools.combinations(sorted(set(args)), k):
                    p = st.copy()
                    for n in sub:
                        p.vars.pop(n, None)
                    states.append(p)
        elif cmd == "reloadvar" and exp[0] != "error":
            names = args
    elif t is not None:
        names = [v for k, v, _ in t[1] if k == "var"]
    names = sorted({n for n in names if n in st.vars})
    for k in range(1, len(names) + 1):
        for sub in itertools.combinations(names, k):
            p = st.copy()
            for n in sub:
                p.touch(n, i)
            states.append(p)
    states.append(full.store)
    return states, exp, full


def match(states, snapshot):
    """indices of the states equal to a snapshot of the real data"""
    return [k for k, s in enumerate(states) if not db.differences(snapshot, s.snapshot())]


def base_lines(rng, long=False):
    """lines that prepare a data directory"""
    if long and rng.random() < 0.15:
        # many saved lines
        return ["/histcap 1000"] + [str(i) for i in range(rng.choice([40, 70, 140]))] + [op_line(rng, long) for _ in range(6)] + ["/histcap 500"]
    out = ["/histcap %d" % rng.choice([1, 2, 3, 5, 8, 20, 100])]
    for _ in range(rng.choice([0, 1, 4, 12, 30])):
        out.append(op_line(rng, long))
    return out


def op_line(rng, long=False):
    n, o = rng.choice(NAMES[:5]), rng.choice(NAMES[:5])
    k = rng.random()
    if k < 0.3:
        return "%s=%s" % (n, value_expr(rng, [o] if rng.random() < 0.3 else ()))
    if k < 0.4:
        return rng.choice([n, n + "+" + o, "max(%s,%s,1)" % (n, o), "%s=%s*2+%s" % (n, n, o)])
    if k < 0.5:
        return "/reloadvar %s" % " ".join(rng.sample(NAMES[:5], rng.choice([1, 2])))
    if k < 0.58:
        return "/purgevar %s" % " ".join(rng.sample(NAMES[:5], rng.choice([1, 2])))
    if k < 0.7:
        return "/histcap %d" % rng.choice([1, 2, 3, 5, 8, 20, 100, 200])
    if k < 0.8 and long:
        return "+".join(["1"] * rng.choice([100, 250, 350]))
    if k < 0.85:
        return "%s=%d^%d" % (n, rng.randrange(2, 99), rng.choice([100, 1000, 5000] if long else [100, 1000]))
    return rng.choice(["1+2", "", "hello", "7*6", "((", "1/0", "/radix"])


def copytree(src, dst):
    shutil.copytree(src, dst, dirs_exist_ok=True)
