"""Reading, checking and writing the saved-data file from outside."""
import os
import sqlite3
from fractions import Fraction

NAME = "saved_data.sqlite"
FRONT, BACK = 1, 2
VERSION, MINVERSION, MAXHIST = 1, 2, 3


def path(root):
    return os.path.join(root, "bcalc", NAME)


def connect(root, timeout=20):
    c = sqlite3.connect(path(root), timeout=timeout, isolation_level=None)
    c.text_factory = lambda b: b.decode("utf8", "surrogateescape")
    return c


def add_line(root, line):
    """another session submits a line (of any length)"""
    c = connect(root)
    try:
        c.execute("PRAGMA foreign_keys = ON")
        c.execute("BEGIN IMMEDIATE")
        front = c.execute("SELECT value FROM input_history_tags WHERE key=?", (FRONT,)).fetchone()[0]
        i = c.execute("INSERT INTO input_history (input, next, prev) VALUES (?, NULL, ?)", (line, front)).lastrowid
        c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (i, FRONT))
        if front is None:
            c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (i, BACK))
        else:
            c.execute("UPDATE input_history SET next=? WHERE id=?", (i, front))
        cap = c.execute("SELECT value FROM meta_int WHERE key=?", (MAXHIST,)).fetchone()[0]
        while c.execute("SELECT COUNT(*) FROM input_history").fetchone()[0] > cap:
            back = c.execute("SELECT value FROM input_history_tags WHERE key=?", (BACK,)).fetchone()[0]
            new = c.execute("SELECT next FROM input_history WHERE id=?", (back,)).fetchone()[0]
            c.execute("UPDATE input_history SET prev=NULL WHERE id=?", (new,))
            c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (new, BACK))
            c.execute("DELETE FROM input_history WHERE id=?", (back,))
        c.execute("COMMIT")
    finally:
        c.close()


def add_lines(root, lines):
    """another session has submitted these lines, which fit in the capacity"""
    c = connect(root)
    try:
        c.execute("BEGIN IMMEDIATE")
        tag = dict(c.execute("SELECT key, value FROM input_history_tags"))
        front, back = tag.get(FRONT), tag.get(BACK)
        for line in lines:
            i = c.execute("INSERT INTO input_history (input, next, prev) VALUES (?, NULL, ?)", (line, front)).lastrowid
            if front is None:
                back = i
            else:
                c.execute("UPDATE input_history SET next=? WHERE id=?", (i, front))
            front = i
        c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (front, FRONT))
        c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (back, BACK))
        c.execute("COMMIT")
    finally:
        c.close()


def renumber(root, rng):
    """gives the stored inputs other ids, which mean nothing but identity"""
    c = connect(root)
    try:
        c.execute("PRAGMA foreign_keys = OFF")
        c.execute("BEGIN")
        old = [r[0] for r in c.execute("SELECT id FROM input_history")]
        k = rng.randrange(4)
        if k == 0:
            new = rng.sample(range(1, 3 * len(old) + 2), len(old))
        elif k == 1:
            new = sorted(rng.sample(range(1, 10 ** 12), len(old)), reverse=True)
        elif k == 2:
            new = [rng.randrange(1, 2 ** 62) for _ in old]
            if new:
                new[rng.randrange(len(new))] = 2 ** 63 - 1
        else:
            new = [rng.choice([2 ** 31, 2 ** 32, 2 ** 53]) - 3 + i for i in range(len(old))]
            rng.shuffle(new)
        if len(set(new)) < len(old):
            c.execute("ROLLBACK")
            return False
        to = dict(zip(old, new))
        rows = c.execute("SELECT id, input, next, prev FROM input_history").fetchall()
        c.execute("DELETE FROM input_history")
        for i, t, n, q in rows:
            c.execute("INSERT INTO input_history VALUES (?, ?, ?, ?)", (to[i], t, to.get(n), to.get(q)))
        for k, v in c.execute("SELECT key, value FROM input_history_tags").fetchall():
            c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (to.get(v), k))
        for n, v in c.execute("SELECT name, last_used_by FROM variable_history").fetchall():
            c.execute("UPDATE variable_history SET last_used_by=? WHERE name=?", (to[v], n))
        c.execute("COMMIT")
        return True
    finally:
        c.close()


class Dump:
    """Content of the saved data and what is wrong with its structure."""

    def __init__(self, root, deep=False):
        c = connect(root)
        try:
            c.execute("BEGIN")
            self.meta = dict(c.execute("SELECT key, value FROM meta_int"))
            self.rows = {r[0]: r for r in c.execute("SELECT id, input, next, prev FROM input_history")}
            self.tags = dict(c.execute("SELECT key, value FROM input_history_tags"))
            self.vars = {r[0]: r[1:] for r in c.execute(
                "SELECT name, numer, denom, last_used_by FROM variable_history")}
            nvars = c.execute("SELECT COUNT(*) FROM variable_history").fetchone()[0]
            self.integrity = [r[0] for r in c.execute("PRAGMA integrity_check")] if deep else ["ok"]
            self.fk = list(c.execute("PRAGMA foreign_key_check"))
            c.execute("ROLLBACK")
        finally:
            c.close()
        self.problems = []
        p = self.problems
        if self.integrity != ["ok"]:
            p.append("integrity check: %s" % self.integrity[:3])
        if self.fk:
            p.append("dangling references: %s" % self.fk[:3])
        if nvars != len(self.vars):
            p.append("a variable is stored twice")
        self.cap = self.meta.get(MAXHIST)
        if not isinstance(self.cap, int) or self.cap < 1:
            p.append("capacity %r" % (self.cap,))
        elif len(self.rows) > self.cap:
            p.append("%d inputs exceed the capacity %d" % (len(self.rows), self.cap))
        if set(self.tags) != {FRONT, BACK}:
            p.append("end markers %r" % (self.tags,))
        self.order = []
        front, back = self.tags.get(FRONT), self.tags.get(BACK)
        if not self.rows:
            if front is not None or back is not None:
                p.append("end markers of an empty list: %r" % (self.tags,))
        elif front not in self.rows or back not in self.rows:
            p.append("end markers point nowhere: %r" % (self.tags,))
        else:
            seen, i, prev = set(), back, None
            while i is not None:
                if i not in self.rows or i in seen:
                    p.append("broken or circular chain at %r" % (i,))
                    break
                seen.add(i)
                self.order.append(i)
                if self.rows[i][3] != prev:
                    p.append("backward link of %r is %r instead of %r" % (i, self.rows[i][3], prev))
                prev, i = i, self.rows[i][2]
            if not p:
                if self.order[-1] != front:
                    p.append("the chain ends at %r, not at the newest" % self.order[-1])
                if len(self.order) != len(self.rows):
                    p.append("%d of %d inputs are in the chain" % (len(self.order), len(self.rows)))
        for n, v in self.vars.items():
            if v[2] not in self.rows:
                p.append("variable %s belongs to no stored input" % n)
        self.inputs = [self.rows[i][1] for i in self.order if i in self.rows]

    def value(self, name):
        return Fraction(int(self.vars[name][0]), int(self.vars[name][1]))

    def snapshot(self):
        pos = {i: k for k, i in enumerate(self.order)}
        return {"cap": self.cap, "inputs": list(self.inputs),
                "vars": {n: (self.value(n), pos.get(v[2])) for n, v in self.vars.items()}}


def differences(real, want):
    """between two snapshots"""
    out = []
    if real["cap"] != want["cap"]:
        out.append("capacity is %r instead of %r" % (real["cap"], want["cap"]))
    if real["inputs"] != want["inputs"]:
        a, b = real["inputs"], want["inputs"]
        out.append("stored inputs differ: %d instead of %d; newest %r instead of %r; oldest %r instead of %r"
                   % (len(a), len(b), a[-3:], b[-3:], a[:2], b[:2]))
    rv, wv = real["vars"], want["vars"]
    for n in sorted(set(rv) | set(wv)):
        if n not in rv:
            out.append("variable %s is missing" % n)
        elif n not in wv:
            out.append("variable %s should be gone" % n)
        elif rv[n][0] != wv[n][0]:
            out.append("variable %s is %s instead of %s" % (n, str(rv[n][0])[:80], str(wv[n][0])[:80]))
        elif rv[n][1] != wv[n][1]:
            out.append("variable %s belongs to input %r instead of %r" % (n, rv[n][1], wv[n][1]))
    return out
