"""C15: the inline prompt shows the cursor and the true text around it."""
from vlib import editor, gen, model, ref
from vlib.core import Check, Violation
from vlib.session import Died, KEYS, Session


def cells(sc, n, width=None):
    """characters of an absolute row, padded to the window"""
    if n < sc.base:
        t = sc.scrolled[n]
    else:
        t = "".join(sc.lines[n - sc.base])
    return t.ljust(width or sc.cols)


class C15(Check):
    id = "C15"
    rule = ("inline sessions in windows of 5-520 columns: after every key (typing, editing, "
            "long moves, history navigation, resizes) the emulator's rows are checked: the "
            "visible part is a contiguous part of the model's line around the cursor, markers "
            "and terminal cursor agree with it, nothing else is on the row or below, rows above "
            "are untouched; after Enter the wrapped line, the answer and the new prompt. "
            "Non-trivial: distinct (width, line, cursor, display) states.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def look(self, s, mark, h, above, info):
        sc = s.emu.s
        L, cur = h.line.text, h.line.cur
        row = cells(sc, mark)
        bad = None
        part = None
        opener = row[:2]
        if sc.base + sc.r != mark:
            bad = "the terminal cursor is not on the prompt's row"
        elif opener not in ("# ", "< "):
            bad = "the row doesn't start with a marker"
        else:
            off = cur - (sc.c - 2)
            body = row[2:].rstrip(" ")
            if sc.c < 2 or off < 0:
                bad = "the terminal cursor is left of the text"
            elif (off == 0) != (opener == "# "):
                bad = "wrong marker for a part starting at %d" % off
            elif L[off:].rstrip(" ") == body and len(L) - off + 2 <= sc.cols and sc.c < sc.cols:
                part = (off, None)
            elif body.endswith(" >") or body == ">":
                w = len(body) - 2
                if w < 1 or L[off:off + w] != body[:-2] or off + w >= len(L):
                    bad = "the row isn't the part of the line around the cursor followed by ' >'"
                elif len(L) - off + 2 <= sc.cols - 2:
                    bad = "the row hides the end of the line although it would fit"
                elif not off <= cur < off + w:
                    bad = "the cursor isn't in the visible part"
                else:
                    part = (off, w)
            else:
                bad = "the row isn't the part of the line around the cursor"
        if bad is None:
            for n in range(mark + 1, sc.base + sc.rows):
                if cells(sc, n).strip():
                    bad = "something is left over below the prompt"
        if bad is None and above is not None:
            for n, t in above.items():
                if cells(sc, n).rstrip() != t:
                    bad = "a row above the prompt was changed"
        if bad:
            raise Violation(what=bad, row=row.rstrip(), terminal_cursor=sc.c, window=[sc.rows, sc.cols],
                            line=L, cursor=cur, **info)
        return part

    def above(self, s, mark):
        sc = s.emu.s
        return {n: cells(sc, n).rstrip() for n in range(max(0, mark - 30), mark)}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cols = rng.choice([5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 30, 40, 80, 200, rng.randrange(5, 201)])
        wide = rng.random() < 0.12
        if wide:
            cols = rng.choice([201, 250, 254, 255, 256, 257, 258, 259, 260, 300, 400, 511, 512, 513, rng.randrange(201, 521)])
        most = 520 if wide else 200
        rows = rng.choice([4, 8, 24, 24, 50])
        s = Session(ctx.bin, ["--no-db"], {}, rows=rows, cols=cols)
        h = editor.History()
        m = model.Session()
        recent = []
        try:
            s.settle()
            mark = s.emu.dsr_marks[-1][1]
            above = self.above(s, mark)
            for j in range(5):
                # ---- edit ----
                nkeys = rng.choice([5, 15, 30, 60])
                burst = rng.random() < 0.5
                if burst:
                    n = rng.choice([s.cols - 5, s.cols - 4, s.cols - 3, s.cols - 2, s.cols, 2 * s.cols, 3 * s.cols + 1])
                    seq = []
                    for _ in range(max(0, min(n, 3 * most // 2))):
                        ch = rng.choice("0123456789+()- >#<ab")
                        h.press(ch)
                        seq.append(ch.encode())
                    s.send_keys(seq)
                    recent.append("typed %d" % len(seq))
                    s.settle()
                    out.ok(repr((s.cols, h.line.text, h.line.cur, self.look(s, mark, h, above, dict(recent=recent[-8:])))))
                for _ in range(nkeys):
                    k = rng.random()
                    if k < 0.09:
                        s.settle()
                        nc = rng.choice([5, 6, 8, 10, 20, 80, max(5, s.cols - 1), s.cols + 1, rng.randrange(5, most + 1),
                                         min(most, max(5, len(h.line.text) + rng.randrange(0, 12))),
                                         min(most, s.cols + rng.randrange(1, 30))])
                        nr = rng.choice([s.rows, s.rows, 4, 10, 24])
                        s.resize(nr, nc)
                        recent.append("resize %dx%d" % (nr, nc))
                        above = None
                        out.counts["resizes"] += 1
                    else:
                        if k < 0.16:
                            name = rng.choice(["up", "up", "down"])
                            q = KEYS[name]
                        else:
                            name, q = editor.random_key(rng, h.line)
                        h.press(name)
                        s.send(q)
                        recent.append(name if name != "ignored" else "ignored %r" % q)
                        s.settle()
                    part = self.look(s, mark, h, above, dict(recent=recent[-8:]))
                    if part[1] is not None:
                        out.counts["displays cut on the right"] += 1
                    if part[0]:
                        out.counts["displays scrolled to the left"] += 1
                    out.counts["displays"] += 1
                    out.ok(repr((s.cols, h.line.text, h.line.cur, part)))
                # ---- Enter ----
                if rng.random() < 0.6:
                    # something with an answer worth looking at
                    n = len(h.line.text)
                    h.press("end")
                    for _ in range(n):
                        h.press("backspace")
                    s.send_keys([KEYS["end"]] + [KEYS["backspace"]] * n)
                    t = rng.choice(["1+2", "2^200", "1/3", "3^150", "7", "hello", "", "(((1)))+(2*3)", "/radix",
                                    "99999999999999999999*99999999999999999999", "/nosuch " + "x" * rng.randrange(100)])
                    if rng.random() < 0.4:
                        t += " " * rng.choice([1, 3]) + "+" + "+".join(rng.choice(["1", "20", "333"])
                                                                     for _ in range(rng.choice([3, 10, 40])))
                    for ch in t:
                        h.press(ch)
                    s.send_keys([ch.encode() for ch in t])
                    s.settle()
                    self.look(s, mark, h, above, dict(recent=recent[-8:]))
                L = h.line.text
                if not gen.cheap(L, m.cfg.radix) or L.lstrip().startswith(("/r ", "/p", "/f", "/c", "/u", "/h")):
                    s.send_keys([KEYS["home"], b")"])
                    h.press("home")
                    h.press(")")
                    L = h.line.text
                    s.settle()
                exp = m.submit(L)
                s.send(b"\r")
                h.enter()
                s.wait_prompt(20)
                s.settle()
                mark = self.entered(s, mark, L, exp, recent)
                out.ok(repr((s.cols, "enter", L)))
                out.counts["submissions checked"] += 1
                above = self.above(s, mark)
                recent.append("enter %r" % L)
            if case["n"] < 4:
                out.sample({"cols": cols, "steps": recent[:25]})
            s.close()
        except Died:
            raise Violation(what="the calculator ended", status=s.status, recent=recent[-8:],
                            window=[s.rows, s.cols])
        finally:
            s.kill()

    def entered(self, s, mark, L, exp, recent):
        sc = s.emu.s
        new = s.emu.dsr_marks[-1][1]
        w = sc.cols - 2
        want = []
        for i in range(0, max(1, len(L)), w):
            want.append((("# " if i == 0 else "  ") + L[i:i + w]).rstrip())
        got = [cells(sc, n).rstrip() for n in range(mark, min(mark + len(want), new))]
        info = dict(line=L, window=[sc.rows, sc.cols], recent=recent[-6:])
        if got != want:
            raise Violation(what="the submitted line isn't shown completely", expected=want, shown=got, **info)
        rows, text = range(mark + len(want), new), ""
        for n in rows:
            t = cells(sc, n)
            if n in sc.wrapped:
                text += t
            else:
                text = text.rstrip() + ("\n" if n > rows[0] else "") + t
        text = text.rstrip()
        ok = model.matches(text, exp)
        if not ok and exp[0] == "value":
            ok = text == exp[1]
        if not rows or not ok:
            raise Violation(what="the answer isn't shown below the line", expected=[str(x) for x in exp[:2]],
                            shown=text, rows=len(rows), **info)
        row = cells(sc, new).rstrip()
        if row != "#" or sc.base + sc.r != new or sc.c != 2 or any(
                cells(sc, n).strip() for n in range(new + 1, sc.base + sc.rows)):
            raise Violation(what="no clean prompt below the answer", row=row, cursor=[sc.r, sc.c], **info)
        return new


CHECK = C15()
