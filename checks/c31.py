"""C31: type-ahead and pasted lines take effect completely and in order."""
import time

from checks.c15 import cells
from vlib import db, editor, gen, model, ref
from vlib.core import Check, Violation
from vlib.session import Died, KEYS, Session

FAST = ["1+2", "", "hello", "2^64", "7*6", "(1/3)*3", "1/0", "$a=5", "$a*2", "((", "max(1,2,3)", "/radix", "/nosuch", "0.5+0.25",
        "1 2", "$b = $a/7", "100%7", "sqrt 16", "/precision", "abs(-4)"]
SLOW = ["0*7^%d", "7^%d-7^%d", "0^1+0*3^%d", "0*(1/7)^%d"]


class C31(Check):
    id = "C31"
    rule = ("key sequences for 2-20 lines (typing, editing, history keys, Enter, commands, lines "
            "that take up to half a second to compute) are sent in pieces of random size and timing without "
            "waiting for the calculator, in windows from 7 to 3000 columns (some change their height meanwhile), to a terminal that answers promptly or with delay; "
            "every submitted line, every answer, the unfinished last line and its cursor, the "
            "effect of an exit key typed ahead and the saved history have to be those of the "
            "keys typed one at a time. Non-trivial: distinct (keys, pieces).")
    confirm = 3

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def script(self, rng, h, m, n):
        """-> keys [(bytes)], [(line, expected answer)]"""
        keys, lines = [], []

        def press(name, q=None):
            h.press(name)
            keys.append(KEYS[name] if q is None else q)
        for _ in range(n):
            k = rng.random()
            if k < 0.15 and h.own:
                for _ in range(rng.randrange(1, 4)):
                    press(rng.choice(["up", "up", "down"]))
            elif k < 0.4:
                big = rng.choice([2000, 20000, 60000, 120000])
                for ch in rng.choice(SLOW).replace("%d", str(big)):
                    press(ch, ch.encode())
            else:
                few = "+".join(["1"] * rng.randrange(20, 26 if h.cols < 60 else 260)) if rng.random() < h.long else None
                for ch in few or rng.choice(FAST):
                    press(ch, ch.encode())
            if rng.random() < 0.4:
                # corrections
                for _ in range(rng.randrange(1, 8)):
                    name, q = editor.random_key(rng, h.line)
                    if name == "ignored":
                        q = rng.choice([b"\x07", b"\t", b"\x1b[5~", b"\x1b[2~"])
                    press(name, q)
            line = h.line.text
            if not self.fine(line, m):
                # turn it into something harmless
                press("home")
                press(")", b")")
                line = h.line.text
            exp = m.submit(line)
            keys.append(b"\r")
            h.enter()
            lines.append((line, exp))
        return keys, lines

    def wrap(self, line, cols):
        w = cols - 2
        return [(("# " if i == 0 else "  ") + line[i:i + w]).rstrip() for i in range(0, max(1, len(line)), w)]

    def fine(self, line, m):
        if line.lstrip().startswith("/") and line.strip() not in ("/radix", "/precision", "/nosuch"):
            return False
        try:
            r = ref.answer(line, m.cfg, m.vars)
        except (ref.TooBig, ref.Inexact):
            return False
        return r[0] != "value" or len(r[1]) < 300

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        use_db = rng.random() < 0.4
        argv = ([] if use_db else ["--no-db"]) + (["-a"] if rng.random() < 0.35 else [])
        root = ctx.tmpdir() if use_db else None
        cols = 3000 if rng.random() < 0.5 else rng.choice([8, 9, 10, 12, 15, 20, 30, 40, 80, 120, rng.randrange(7, 60)])
        s = Session(ctx.bin, argv, {"_B_UTIL_DATA_DIR": root} if use_db else {}, rows=60, cols=cols)
        store = model.Store() if use_db else None
        h = editor.History(store)
        h.cols, h.long = cols, 0.2 if case["n"] % 8 == 3 else 0
        m = model.Session(ref.Config(), store)
        style = rng.choice(["paste", "pieces", "keys", "bursts"])
        lag = rng.choice([0, 0, 0.002, 0.03])
        n = rng.choice([2, 3, 5, 8, 12, 20])
        keys, lines = self.script(rng, h, m, n)
        # an unfinished line, perhaps an exit key
        for _ in range(rng.choice([0, 3, 10])):
            name, q = editor.random_key(rng, h.line)
            if name != "ignored":
                h.press(name)
                keys.append(q)
        leave = rng.random() < 0.3
        if leave:
            keys.append(rng.choice([KEYS["c-d"], KEYS["c-c"], KEYS["c-z"]]))
            # typed too late
            keys += [b"9", b"\r"][:rng.choice([0, 1, 2])]
        info = dict(argv=argv, columns=cols, keys=[k.decode("latin1") for k in keys], lines=[t for t, _ in lines], style=style)
        pieces = []
        resizes = "-a" not in argv and rng.random() < 0.3
        info["resizes"] = resizes
        try:
            i = 0
            while i < len(keys):
                size = {"paste": 200, "pieces": rng.choice([1, 3, 10, 40]), "keys": 1, "bursts": rng.choice([1, 1, 100])}[style]
                block = b""
                while i < len(keys) and (not block or len(block) + len(keys[i]) <= size):
                    block += keys[i]
                    i += 1
                pieces.append(len(block))
                end = time.monotonic() + 60
                while s.pending_input() > 400 and s.alive() and time.monotonic() < end:
                    # what the terminal driver holds is limited
                    if not s.pump(0.002) and s.pending_input() > 400:
                        s.nudge()
                if lag:
                    time.sleep(lag * rng.random())
                if not s.alive():
                    break
                if resizes and rng.random() < 0.25:
                    s.resize_now(rng.choice([59, 60, 61, 64, 70]))
                    out.counts["resizes among the keys"] += 1
                s.inbuf += block
                s.pump(0)
                if style != "paste" and rng.random() < 0.3:
                    s.pump(rng.choice([0, 0.0005, 0.003, 0.01]))
            if leave:
                s.wait_for(lambda: not s.alive(), 60, dead_ok=True)
                while s.pump(0.02):
                    pass
                if s.alive() or s.status != 0:
                    raise Violation(what="an exit key typed ahead didn't end the session properly", status=s.status, **info)
            else:
                s.wait_for(lambda: s.emu.dsr >= n + 1, 60)
                s.settle()
        except Died:
            s.kill()
            raise Violation(what="the calculator ended", status=s.status, **info)
        except BaseException:
            s.kill()
            raise
        try:
            marks = [r for _, r, _ in s.emu.dsr_marks]
            sc = s.emu.alt if "-a" in argv else s.emu.main
            if len(marks) != n + 1:
                raise Violation(what="%d lines were submitted instead of %d" % (len(marks) - 1, n), **info)
            for k, (line, exp) in enumerate(lines):
                want = self.wrap(line, cols)
                first = marks[k] + len(want)
                shown = [sc.abs_text(r).rstrip() for r in range(marks[k], min(first, marks[k + 1]))]
                if shown != want:
                    raise Violation(what="another line than the one typed was submitted", number=k + 1, typed=line, shown=shown, **info)
                got = ""
                for r in range(first, marks[k + 1]):
                    if r in sc.wrapped:
                        got += cells(sc, r)
                    else:
                        got = got.rstrip() + ("\n" if r > first else "") + cells(sc, r)
                got = got.rstrip()
                if not model.matches(got, exp):
                    raise Violation(what="wrong answer to a line typed ahead", number=k + 1, line=line, got=got[:300],
                                    expected=[str(x)[:300] for x in exp[:2]], **info)
            short = len(h.line.text) + 4 <= cols
            shown = sc.abs_text(marks[n]).rstrip()
            off = 0
            if short and shown.startswith("<") and "-a" not in argv:
                # (only its end is in view)
                off = max(0, len(h.line.text.rstrip()) - len(shown[2:]))
                shown = "# " + h.line.text[:off] + shown[2:]
            if short and shown.rstrip() != ("# " + h.line.text).rstrip():
                raise Violation(what="the unfinished line isn't what was typed", typed=h.line.text, shown=shown, **info)
            if not leave and short:
                if sc.c != 2 + h.line.cur - off:
                    raise Violation(what="the cursor isn't where the keys put it", column=sc.c, expected=2 + h.line.cur - off, **info)
            if use_db:
                d = db.Dump(root)
                if d.inputs != [t for _, t in store.hist]:
                    raise Violation(what="the saved history isn't what was typed", saved=d.inputs[-20:], expected=[t for _, t in store.hist][-20:], **info)
                out.counts["saved histories compared"] += 1
            out.ok(repr((keys, pieces)), n=n)
            out.counts["lines typed ahead"] += n
            out.counts["slow lines"] += sum(1 for t, _ in lines if "000" in t)
            out.counts["exit keys typed ahead"] += leave
            if case["n"] < 4:
                out.sample({"style": style, "pieces": pieces[:20], "lines": [t for t, _ in lines][:8]})
            if not leave and s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status, **info)
        finally:
            s.kill()


CHECK = C31()
