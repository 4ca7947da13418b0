"""C24: existing saved data stays usable; unusable data is refused, not misread."""
import glob
import hashlib
import json
import os
import shutil
from fractions import Fraction

from vlib import calc, db, editor, faults, gen, model, ref
from vlib.core import VERIF, Check, Inconclusive, Violation
from vlib.saved import NAMES
from vlib.session import Died, KEYS, Session

FIX = os.path.join(VERIF, "fixtures")
BAD_NUM = ["", "abc", "1.5", " 1", "1 ", "0x10", "--1", "1e5", "1/2", "\u0661", "-", "1,000", "12345678901234567890x", "NaN", b"\xff\xfe", b"12"]
BAD_DEN = BAD_NUM + ["0", "-0", "00", "0000000"]
BAD_CAP = [0, -1, -2 ** 63, "abc", "", 1.5, b"\x01\x02", "10 ", 1e300]


def digest(d):
    return {os.path.relpath(os.path.join(b, n), d): hashlib.sha1(open(os.path.join(b, n), "rb").read()).hexdigest()
            for b, _, fs in os.walk(d) for n in fs}


class C24(Check):
    id = "C24"
    rule = ("data directories holding files written by the original build (committed fixtures) "
            "and synthesised ones with gaps, huge values and odd text, opened and used by the "
            "current build: lines (by Up), values and capacity are compared with what the file "
            "holds; damaged numerators, denominators and capacities must be reported as errors "
            "while everything else keeps working; newer versions and files that are no "
            "database must be refused and stay byte for byte as they were. Non-trivial: "
            "distinct file contents used or refused.")
    confirm = 2

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        root = ctx.tmpdir()
        os.mkdir(os.path.join(root, "bcalc"))
        kind = ("golden", "golden", "synthetic", "synthetic", "number", "number", "number", "capacity", "refuse", "refuse")[case["n"] % 10]
        fixtures = sorted(glob.glob(os.path.join(FIX, "golden*.json")))
        if not fixtures:
            raise Inconclusive("fixtures missing")
        f = rng.choice(fixtures)
        shutil.copy(f[:-5] + ".sqlite", db.path(root))
        os.chmod(db.path(root), 0o644)
        g = json.load(open(f))
        st = model.Store(g["cap"])
        for t in g["inputs"]:
            st.add(t)
        ids = [i for i, _ in st.hist]
        for n, (v, p) in g["vars"].items():
            st.vars[n] = [Fraction(v), ids[p]]
        self.env = {"_B_UTIL_DATA_DIR": root}
        if kind != "golden" or rng.random() < 0.2:
            self.synthesise(rng, root, st)
        out.counts["files: " + kind] += 1
        getattr(self, {"golden": "use", "synthetic": "use"}.get(kind, kind))(ctx, rng, root, st, out, case)

    def synthesise(self, rng, root, st):
        """rewrite lines, ids, values and capacity within what this version
        of the format allows"""
        c = db.connect(root)
        c.execute("BEGIN")
        c.execute("DELETE FROM variable_history")
        c.execute("UPDATE input_history_tags SET value=NULL")
        c.execute("UPDATE input_history SET next=NULL, prev=NULL")
        c.execute("DELETE FROM input_history")
        st.hist, st.vars = [], {}
        n = rng.choice([0, 1, 2, 5, 30])
        ids, i = [], rng.choice([1, 7, 2 ** 31 - 3, 2 ** 32 + 5, 10 ** 15])
        for _ in range(n):
            ids.append(i)
            i += rng.choice([1, 1, 2, 17])
        texts = []
        for k, i in enumerate(ids):
            t = rng.choice(["", "1+2", "$x=4", "hello", "a'b", "%s", "x" * 500, gen.noise_line(rng), "7*%d" % k])
            t = "".join(ch for ch in t if 32 <= ord(ch) < 127)
            texts.append(t)
            c.execute("INSERT INTO input_history (id, input, next, prev) VALUES (?, ?, NULL, ?)", (i, t, ids[k - 1] if k else None))
            if k:
                c.execute("UPDATE input_history SET next=? WHERE id=?", (i, ids[k - 1]))
            st.hist.append((i, t))
        if n:
            st.next = ids[-1] + 1
            c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (ids[-1], db.FRONT))
            c.execute("UPDATE input_history_tags SET value=? WHERE key=?", (ids[0], db.BACK))
            for name in rng.sample(NAMES, rng.choice([1, 3, 6])):
                v = rng.choice([Fraction(rng.randrange(-99, 99), rng.randrange(1, 99)), Fraction(rng.randrange(-10 ** 300, 10 ** 300), rng.randrange(1, 10 ** 200)),
                                Fraction(0), Fraction(2 ** 64), Fraction(-1, 2 ** 64)])
                i = rng.choice(ids)
                st.vars[name] = [v, i]
                mult = rng.choice([1, 1, 1, 6])         # a fraction needn't be in lowest terms
                c.execute("INSERT INTO variable_history VALUES (?, ?, ?, ?)", (name, str(v.numerator * mult), str(v.denominator * mult), i))
        st.cap = rng.choice([max(1, n), n + 1, 100, 2 ** 40, 2 ** 63 - 1])
        c.execute("UPDATE meta_int SET value=? WHERE key=?", (st.cap, db.MAXHIST))
        if rng.random() < 0.3:
            # written by a later but compatible version
            c.execute("UPDATE meta_int SET value=? WHERE key=?", (rng.choice([2, 3, 1000]), db.VERSION))
            for more in rng.sample(["INSERT INTO meta_int VALUES (%d, %d)" % (rng.choice([4, 5, 100, -1]), rng.choice([0, 1, -7, 2 ** 40])),
                                    "CREATE TABLE notes (id INTEGER PRIMARY KEY, t TEXT)",
                                    "ALTER TABLE input_history ADD COLUMN entered INTEGER",
                                    "ALTER TABLE variable_history ADD COLUMN unit TEXT DEFAULT 'm'",
                                    "CREATE INDEX used ON variable_history (last_used_by)",
                                    "PRAGMA user_version = 2"], rng.choice([0, 1, 2, 3])):
                c.execute(more)
        c.execute("COMMIT")
        c.close()

    def start(self, ctx, argv=()):
        try:
            return Session(ctx.bin, list(argv), self.env, rows=50, cols=20000)
        except Died as d:
            raise Violation(what="existing saved data is refused", status=d.session.status,
                            screen="\n".join(filter(None, ("".join(x).rstrip() for x in d.session.emu.main.lines)))[-500:])

    def ask(self, s, m, line, recent):
        exp = m.submit(line)
        try:
            got = s.ask(line)
        except Died:
            raise Violation(what="the calculator ended", input=line, status=s.status, recent=recent[-10:])
        recent.append("%s -> %s" % (line[:100], got[:60]))
        model.check(got, exp, line, recent)
        return got

    def walk(self, s, texts, out, upto=12):
        """the stored lines appear with Up, newest first; ends on an empty line"""
        seen = 0
        h = 0
        for t in list(reversed(texts))[:upto]:
            s.send(KEYS["up"])
            s.settle()
            mark = s.emu.dsr_marks[-1][1]
            shown = s.emu.s.abs_text(mark)
            if shown != ("# " + t).rstrip():
                raise Violation(what="a stored line is not shown unaltered", stored=t, shown=shown)
            h += 1
            seen += 1
        s.send_keys([KEYS["down"]] * (h + 2))
        s.settle()
        out.counts["stored lines read"] += seen

    def use(self, ctx, rng, root, st, out, case):
        recent = []
        d0 = db.Dump(root)
        before, meta = d0.snapshot(), d0.meta
        s = self.start(ctx)
        try:
            d = db.Dump(root, deep=True)
            if {k: d.meta.get(k) for k in meta} != meta:
                raise Violation(what="opening the saved data changed what it declares", before=meta, after=d.meta)
            if d.problems or db.differences(d.snapshot(), before):
                raise Violation(what="opening the saved data changed it", problems=d.problems[:3], differences=db.differences(d.snapshot(), before))
            self.walk(s, [t for _, t in st.hist], out)
            m = model.Session(ref.Config(), st)
            names = sorted(st.vars)
            self.ask(s, m, "/histcap", recent)
            for n in names:
                if n not in st.vars:
                    continue                    # evicted meanwhile
                v = st.vars[n][0]
                if rng.random() < 0.3:
                    self.ask(s, m, "/reloadvar " + n, recent)
                line = "(%s-(%d/%d))*10^60+7" % (n, v.numerator, v.denominator)
                try:
                    m.dry(line)
                except (ref.TooBig, ref.Inexact):
                    continue
                self.ask(s, m, line, recent)
                out.counts["stored values read"] += 1
                out.ok(repr((n, v)))
            for line in ("$new=1/7", "1+2", "$new*7"):
                self.ask(s, m, line, recent)
            d = db.Dump(root, deep=True)
            diff = db.differences(d.snapshot(), st.snapshot())
            if d.problems or diff:
                raise Violation(what="existing saved data isn't continued properly", problems=d.problems[:3], differences=diff[:4], recent=recent[-10:])
            if case["n"] < 4:
                out.sample({"steps": recent[:10]})
            out.ok(repr(before))
            s.close()
        except Died:
            raise Violation(what="the calculator ended", status=s.status, recent=recent[-10:])
        finally:
            s.kill()

    def number(self, ctx, rng, root, st, out, case):
        """damaged numerators and denominators"""
        if not st.vars:
            return
        c = db.connect(root)
        bad = {}
        for n in rng.sample(sorted(st.vars), rng.randrange(1, min(2, len(st.vars)) + 1)):
            if rng.random() < 0.5:
                col, v = "numer", rng.choice(BAD_NUM)
            else:
                col, v = "denom", rng.choice(BAD_DEN)
            c.execute("UPDATE variable_history SET %s=? WHERE name=?" % col, (v, n))
            bad[n] = (col, v)
        c.close()
        recent = ["damaged: %r" % bad]
        s = self.start(ctx)
        m = model.Session(ref.Config(), st)
        try:
            self.walk(s, [t for _, t in st.hist], out, 3)
            for _ in range(15):
                n = rng.choice(sorted(bad)) if rng.random() < 0.6 else rng.choice(sorted(st.vars) or ["$x"])
                k = rng.random()
                if n in bad and n in st.vars and n not in m.vars:
                    if k < 0.6:
                        line = rng.choice([n, n + "+1", "1-" + n, "/reloadvar " + n, "$q=" + n, "max(1,%s)" % n, "%s*0" % n])
                        i = st.add(line)
                        if not line.startswith("/"):
                            st.touch(n, i)
                            st.touch("$q", i)
                        gone = n not in st.vars
                        try:
                            got = s.ask(line)
                        except Died:
                            raise Violation(what="the calculator ended on a damaged value", input=line, damaged=repr(bad), status=s.status)
                        recent.append("%s -> %s" % (line, got[:80]))
                        if not calc.is_error_text(got) and not (gone and line.startswith("/")):
                            raise Violation(what="a damaged value was used instead of being reported", input=line, got=got, damaged=repr(bad))
                        out.counts["damaged values reported"] += 1
                        out.ok(repr((bad[n], line.replace(n, "$"))))
                    elif k < 0.8:
                        self.ask(s, m, "%s=%d" % (n, rng.randrange(99)), recent)
                        del bad[n]
                    else:
                        self.ask(s, m, "/purgevar " + n, recent)
                        del bad[n]
                elif n not in bad:
                    v = st.vars[n][0] if n in st.vars else None
                    line = n if v is None else "(%s-(%d/%d))*10^40+3" % (n, v.numerator, v.denominator)
                    if len(line) < 3000 and rng.random() < 0.7:
                        self.ask(s, m, line, recent)
                    else:
                        self.ask(s, m, "5*5", recent)
                    out.counts["other values read beside damaged ones"] += 1
                    out.ok()
                if not bad:
                    break
            for n in list(bad):
                if n in st.vars:
                    self.ask(s, m, "/purgevar " + n, recent)
            d = db.Dump(root)
            diff = db.differences(d.snapshot(), st.snapshot())
            if d.problems or diff:
                raise Violation(what="saved data beside a damaged value isn't kept", problems=d.problems[:3], differences=diff[:4], recent=recent)
            if s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status, recent=recent)
        except Died:
            raise Violation(what="the calculator ended", status=s.status, recent=recent)
        finally:
            s.kill()

    def capacity(self, ctx, rng, root, st, out, case):
        bad = rng.choice(BAD_CAP)
        c = db.connect(root)
        c.execute("UPDATE meta_int SET value=? WHERE key=?", (bad, db.MAXHIST))
        stored = c.execute("SELECT value FROM meta_int WHERE key=?", (db.MAXHIST,)).fetchone()[0]
        inputs = [r[0] for r in c.execute("SELECT input FROM input_history ORDER BY id")]
        vars_ = sorted(c.execute("SELECT * FROM variable_history"))
        c.close()
        if isinstance(stored, int) and stored >= 1:
            return                              # turned into a valid one by the column's type
        recent = ["capacity %r" % (bad,)]
        try:
            s = Session(ctx.bin, [], self.env, rows=50, cols=20000)
        except Died as d:
            text = "\n".join("".join(x) for x in d.session.emu.main.lines)
            if d.session.status == 0 or d.session.status < 0 or d.session.status == 101 or "rror" not in text:
                raise Violation(what="a damaged capacity isn't reported", status=d.session.status, screen=text[-400:], capacity=repr(bad))
            out.counts["damaged capacities refused at the start"] += 1
            out.ok(repr(bad))
            return
        try:
            self.walk(s, [t for _, t in st.hist], out, 3)
            for line in rng.sample(["/histcap", "1+2", "$x=3", "/reloadvar $x", "7", "/histcap -1"], 4):
                got = s.ask(line)
                recent.append("%s -> %s" % (line, got[:80]))
                if line == "/histcap" and not calc.is_error_text(got):
                    raise Violation(what="a damaged capacity isn't reported", got=got, capacity=repr(bad))
                if calc.is_error_text(got):
                    out.counts["damaged capacities reported"] += 1
                out.ok(repr((bad, line)))
            s.close()
        except Died:
            raise Violation(what="the calculator ended on a damaged capacity", status=s.status, recent=recent)
        finally:
            s.kill()
        # nothing is lost: repaired, everything is as before
        c = db.connect(root)
        kept = [r[0] for r in c.execute("SELECT input FROM input_history ORDER BY id")]
        if kept[:len(inputs)] != inputs:
            raise Violation(what="lines were lost because of a damaged capacity", before=inputs[:5], after=kept[:5], capacity=repr(bad))
        now = sorted(c.execute("SELECT * FROM variable_history"))
        if [v[:3] for v in now if v[0] != "$x"] != [v[:3] for v in vars_ if v[0] != "$x"]:
            raise Violation(what="variables were lost because of a damaged capacity", capacity=repr(bad))
        c.execute("UPDATE meta_int SET value=? WHERE key=?", (10 ** 6, db.MAXHIST))
        c.close()
        d = db.Dump(root, deep=True)
        if d.problems:
            raise Violation(what="the saved data was damaged", problems=d.problems[:3], capacity=repr(bad))
        s = self.start(ctx)
        got = s.ask("8*8")
        s.close()
        if got != "64":
            raise Violation(what="the data isn't usable after the capacity was repaired", got=got)

    def refuse(self, ctx, rng, root, st, out, case):
        what = rng.choice(["newer", "newer", "newer", "text", "file", "truncated", "empty table"])
        if what in ("newer", "text", "empty table"):
            c = db.connect(root)
            if what == "newer":
                v = rng.choice([2, 3, 10, 2 ** 31, 2 ** 32 + 1, 2 ** 63 - 1])
                c.execute("UPDATE meta_int SET value=? WHERE key=?", (v, db.MINVERSION))
                k = rng.random()
                if k < 0.3:
                    # a format this version can't know
                    c.execute("PRAGMA foreign_keys = OFF")
                    c.execute("DROP TABLE " + rng.choice(["variable_history", "input_history_tags"]))
                elif k < 0.5:
                    c.execute("DELETE FROM meta_int WHERE key=?", (rng.choice([db.VERSION, db.MAXHIST]),))
                elif k < 0.6:
                    c.execute("UPDATE meta_int SET value=? WHERE key=?", (v, db.VERSION))
            elif what == "text":
                v = rng.choice(["new", "1.x", 1.5, b"\x01"])
                c.execute("UPDATE meta_int SET value=? WHERE key=?", (v, db.MINVERSION))
            else:
                v = 5
                for t in ("variable_history", "input_history_tags", "input_history"):
                    c.execute("DROP TABLE IF EXISTS " + t)
                c.execute("UPDATE meta_int SET value=? WHERE key=?", (v, db.MINVERSION))
            c.close()
        else:
            p = db.path(root)
            b = open(p, "rb").read()
            v = what
            if what == "file":
                b = rng.choice([b"this is no database\n" * 100, b"x" * 5000, os.urandom(0) + b"\x00" * 9000 + b"z", b[:16].replace(b"3", b"4") + b[16:]])
            else:
                b = b[:rng.choice([50, 99])]
            with open(p, "wb") as f:
                f.write(b)
        before = digest(root)
        argv = ["-a"] if rng.random() < 0.3 else []
        s = Session(ctx.bin, argv, self.env, rows=50, cols=200, start=False)
        try:
            try:
                s.wait_prompt()
                raise Violation(what="unusable saved data is not refused", case=what, value=repr(v))
            except Died:
                pass
            text = "\n".join("".join(x).rstrip() for x in s.emu.main.lines if x)
            if s.status in (0, 101) or s.status < 0 or "rror" not in text or "panicked" in text:
                raise Violation(what="unusable saved data isn't refused with an error", status=s.status, screen=text[-500:], case=what, value=repr(v))
            now = digest(root)
            if now != before:
                raise Violation(what="unusable saved data was changed", case=what, value=repr(v), files=sorted(now))
            out.counts["refused: " + what] += 1
            out.ok(repr((what, v, len(before))))
        finally:
            s.kill()


CHECK = C24()
