"""Another build of the same saved-data version, written from the documented
format (the comments in saved_data.rs) with the statements of the first build."""
import re
import sqlite3
from fractions import Fraction

from . import db, model, ref
from .core import Violation

TABLES = [
    "CREATE TABLE IF NOT EXISTS meta_int(key INTEGER PRIMARY KEY ASC, value INTEGER NOT NULL);",
    "CREATE TABLE IF NOT EXISTS input_history(id INTEGER PRIMARY KEY ASC, input TEXT NOT NULL, "
    "next REFERENCES input_history(id), prev REFERENCES input_history(id));",
    "CREATE TABLE IF NOT EXISTS input_history_tags(key INTEGER PRIMARY KEY ASC, value REFERENCES input_history(id));",
    "CREATE TABLE IF NOT EXISTS variable_history(name TEXT PRIMARY KEY ON CONFLICT REPLACE, numer TEXT NOT NULL, "
    "denom TEXT NOT NULL, last_used_by NOT NULL REFERENCES input_history(id) ON DELETE CASCADE);",
]
NUM = re.compile(r"[+-]?[0-9]+\Z")


class Misread(Exception):
    """the other build would report an error"""


def integer(x):
    if not isinstance(x, int):
        raise Misread("%r where an integer belongs" % (x,))
    return x


def maybe(x):
    return None if x is None else integer(x)


def text(x):
    if not isinstance(x, str):
        raise Misread("%r where a text belongs" % (x,))
    return x


class Peer:
    """One session of the other build; the model decides what it does."""

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.m = model.Session(ref.Config(), world.store)
        world.recent.append("%s: (start)" % name)
        self.c = sqlite3.connect(db.path(world.root), timeout=10, isolation_level=None)
        self.guard(self.start)

    def guard(self, f, *a):
        try:
            return f(*a)
        except (Misread, sqlite3.Error) as e:
            try:
                self.c.execute("ROLLBACK")
            except sqlite3.Error:
                pass
            raise Violation(what="another build of the same version cannot use the saved data", error="%s: %s" % (type(e).__name__, e),
                            recent=self.w.recent[-12:])

    def start(self):
        c = self.c
        c.execute("PRAGMA foreign_keys = ON")
        c.execute("BEGIN IMMEDIATE")
        c.execute(TABLES[0])
        c.execute("INSERT OR IGNORE INTO meta_int (key, value) VALUES (2, 1)")
        if integer(self.one("SELECT value FROM meta_int WHERE key=2")) > 1:
            raise Misread("the data declares a newer version")
        c.execute("INSERT OR IGNORE INTO meta_int (key, value) VALUES (1, 1)")
        c.execute("INSERT OR IGNORE INTO meta_int (key, value) VALUES (3, 100)")
        c.execute(TABLES[1])
        c.execute(TABLES[2])
        c.execute("INSERT OR IGNORE INTO input_history_tags (key, value) VALUES (1, NULL)")
        c.execute("INSERT OR IGNORE INTO input_history_tags (key, value) VALUES (2, NULL)")
        self.position = maybe(self.one("SELECT value FROM input_history_tags WHERE key=1"))
        c.execute(TABLES[3])
        c.execute("COMMIT")

    def one(self, q, *a):
        r = self.c.execute(q, a).fetchone()
        if r is None:
            raise Misread("nothing found: %s %r" % (q, a))
        return r[0]

    # ---- the history -----------------------------------------------------------
    def walk(self):
        """all lines, newest first, the way Up finds them"""
        out, i = [], self.position
        while i is not None:
            r = self.c.execute("SELECT input, prev FROM input_history WHERE id=?", (i,)).fetchone()
            if r is None:
                break
            out.append(text(r[0]))
            i = maybe(r[1])
            if len(out) > 10 ** 5:
                raise Misread("endless list")
        return out

    def add(self, line):
        c = self.c
        c.execute("BEGIN IMMEDIATE")
        front = maybe(self.one("SELECT value FROM input_history_tags WHERE key=1"))
        i = c.execute("INSERT INTO input_history (input, next, prev) VALUES (?, NULL, ?)", (line, front)).lastrowid
        c.execute("UPDATE input_history_tags SET value=? WHERE key=1", (i,))
        if front is not None:
            c.execute("UPDATE input_history SET next=? WHERE id=?", (i, front))
        else:
            c.execute("UPDATE input_history_tags SET value=? WHERE key=2", (i,))
        self.enforce()
        c.execute("COMMIT")
        return i

    def enforce(self):
        c = self.c
        cap = integer(self.one("SELECT value FROM meta_int WHERE key=3"))
        if cap < 1:
            raise Misread("capacity %r" % cap)
        while self.one("SELECT COUNT(*) FROM input_history") > cap:
            back = integer(self.one("SELECT value FROM input_history_tags WHERE key=2"))
            new = integer(self.one("SELECT next FROM input_history WHERE id=?", back))
            c.execute("UPDATE input_history SET prev=NULL WHERE id=?", (new,))
            c.execute("UPDATE input_history_tags SET value=? WHERE key=2", (new,))
            c.execute("DELETE FROM input_history WHERE id=?", (back,))

    # ---- variables -----------------------------------------------------------------
    def value(self, name):
        r = self.c.execute("SELECT numer, denom FROM variable_history WHERE name=?", (name,)).fetchone()
        if r is None:
            return None
        n, d = text(r[0]), text(r[1])
        if not NUM.match(n) or not NUM.match(d):
            raise Misread("%r / %r is no fraction in radix 10" % (n[:60], d[:60]))
        if int(d) == 0:
            raise Misread("a denominator of zero")
        return Fraction(int(n), int(d))

    def submit(self, line):
        """what the other build does on this line (inside the exact domain)"""
        m, store = self.m, self.w.store
        m.dry(line)
        self.w.recent.append("%s: %s" % (self.name, line[:200]))
        return self.guard(self._submit, line)

    def _submit(self, line):
        m, c = self.m, self.c
        exp = m.submit(line)
        i = self.add(line)
        try:
            t = ref.tokenize(line, 10)
        except ref.Reject:
            return exp
        if t[0] == "cmd":
            args = t[2]
            if t[1] == "histcap" and exp == ("ok",):
                c.execute("BEGIN IMMEDIATE")
                c.execute("INSERT OR REPLACE INTO meta_int (key, value) VALUES (3, ?)", (model.parse_ints(args)[0],))
                self.enforce()
                c.execute("COMMIT")
            elif t[1] == "purgevar" and exp[0] != "error":
                for n in model.parse_vars(args):
                    c.execute("DELETE FROM variable_history WHERE name=?", (n,))
            elif t[1] == "reloadvar" and exp[0] != "error":
                for n in model.parse_vars(args):
                    self.value(n)
                    c.execute("UPDATE variable_history SET last_used_by=? WHERE name=?", (i, n))
            return exp
        for k, n, _ in t[1]:
            if k == "var":
                self.value(n)
                c.execute("UPDATE variable_history SET last_used_by=? WHERE name=?", (i, n))
        if exp[0] == "value" and exp[2] is not None:
            c.execute("INSERT INTO variable_history (name, numer, denom, last_used_by) VALUES (?, ?, ?, ?)",
                      (exp[2], str(exp[3].numerator), str(exp[3].denominator), i))
        return exp

    def compare(self):
        """everything it reads, against the model"""
        def look():
            store = self.w.store
            self.position = maybe(self.one("SELECT value FROM input_history_tags WHERE key=1"))
            got, want = self.walk(), [t for _, t in reversed(store.hist)]
            if got != want:
                raise Misread("it reads %d lines instead of %d; newest %r instead of %r" % (len(got), len(want), got[:3], want[:3]))
            cap = integer(self.one("SELECT value FROM meta_int WHERE key=3"))
            if cap != store.cap:
                raise Misread("it reads capacity %r instead of %r" % (cap, store.cap))
            if integer(self.one("SELECT value FROM meta_int WHERE key=2")) > 1:
                raise Misread("the data declares a newer version")
            for n in sorted(set(store.vars) | {r[0] for r in self.c.execute("SELECT name FROM variable_history")}):
                v = self.value(n)
                want = store.vars[n][0] if n in store.vars else None
                if v != want:
                    raise Misread("it reads %s = %s instead of %s" % (n, str(v)[:80], str(want)[:80]))
        self.guard(look)

    def close(self):
        self.c.close()
        self.w.recent.append("%s: (end)" % self.name)
