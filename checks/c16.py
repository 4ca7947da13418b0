"""C16: alternate-screen sessions show the wrapped line, cursor and answers."""
import copy

from checks.c15 import cells
from vlib import editor, gen, model, oneshot
from vlib.core import Check, Violation
from vlib.session import Died, KEYS, Session


HELP = tuple("/help " + n for n in ("radix", "precision", "upper", "commas", "fractional", "converttoradix", "help"))


class C16(Check):
    helps = {}
    id = "C16"
    rule = ("alternate-screen sessions in windows of 2-40 rows and 3-520 columns, from an empty "
            "to a full window: after every key (typing, editing, history navigation, resizes) the "
            "emulator's screen is compared with the wrapped line, the cursor position, blank "
            "rows below and unchanged rows above; after Enter the line, the answer and the next "
            "prompt, including scrolling. Non-trivial: distinct (window, line, cursor, row) "
            "states.")
    assumptions = ("lines longer than the whole window are not part of the workload",)

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def fits(self, s, line, slack=0):
        w = s.cols - 2
        return max(len(line.text) - 1, line.cur, 0) // w + 1 <= s.rows - slack

    def look(self, s, mark, h, above, info):
        sc = s.emu.s
        L, cur = h.line.text, h.line.cur
        w = sc.cols - 2
        want = []
        for i in range(0, max(1, len(L)), w):
            want.append((("# " if i == 0 else "  ") + L[i:i + w]).rstrip())
        got = [cells(sc, n).rstrip() for n in range(mark, sc.base + sc.rows)]
        info = dict(line=L, cursor=cur, window=[sc.rows, sc.cols], first_row=mark - sc.base, **info)
        if mark < sc.base:
            raise Violation(what="the beginning of the line isn't visible", **info)
        while got and not got[-1] and len(got) > len(want):
            got.pop()
        while want and not want[-1] and len(want) > len(got):
            want.pop()
        if got != want:
            raise Violation(what="the window doesn't show the wrapped line", expected=want, shown=got, **info)
        at = (sc.base + sc.r - mark, sc.c)
        if at != (cur // w, 2 + cur % w):
            raise Violation(what="the terminal cursor isn't where the next edit applies", at=at,
                            expected=(cur // w, 2 + cur % w), **info)
        for n, t in above.items():
            if cells(sc, n).rstrip() != t:
                raise Violation(what="a row above the line was changed", row=n - sc.base, now=cells(sc, n).rstrip(),
                                before=t, **info)

    def above(self, s, mark):
        sc = s.emu.s
        return {n: cells(sc, n).rstrip() for n in range(max(0, mark - 40), mark)}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        rows = rng.choice([2, 3, 4, 5, 6, 8, 10, 24, 40])
        cols = rng.choice([3, 4, 5, 6, 7, 8, 10, 12, 17, 20, 40, 80, 120])
        wide = rng.random() < 0.12
        if wide:
            rows = rng.choice([2, 3, 4, 6, 24])
            cols = rng.choice([201, 250, 254, 255, 256, 257, 258, 259, 260, 300, 400, 511, 512, 513, rng.randrange(121, 521)])
        most = 520 if wide else 200
        s = Session(ctx.bin, ["--no-db", "-a"], {}, rows=rows, cols=cols)
        h = editor.History()
        m = model.Session()
        recent = []
        try:
            s.settle()
            if not s.emu.in_alt:
                raise Violation(what="the alternate screen was not entered")
            mark = s.emu.dsr_marks[-1][1]
            above = self.above(s, mark)

            def press(name, q):
                h2 = copy.deepcopy(h)
                h2.press(name)
                if not self.fits(s, h2.line):
                    return False
                h.press(name)
                recent.append(name if name != "ignored" else "ignored %r" % q)
                return True

            def resize():
                """other window sizes in which the line still begins and ends on the screen"""
                sc = s.emu.s
                first = mark - sc.base
                lo = max(sc.r + 2, first + 1)   # the cursor's row and what is above stay
                nr = rng.choice([s.rows, s.rows + rng.randrange(1, 12), lo, lo + 1, rng.randrange(lo, lo + 30), 24])
                nc = rng.choice([s.cols, s.cols, s.cols - 1, s.cols + 1, 2 * s.cols, s.cols // 2, rng.randrange(3, most * 3 // 5 + 1),
                                 80, 3 + len(h.line.text) // 2])
                nr, nc = max(nr, lo), max(3, min(nc, most))
                if lo > s.rows or first < 0:
                    return None
                w = nc - 2
                if max(len(h.line.text) - 1, h.line.cur, 0) // w + 1 > nr:
                    return None
                s.settle()
                kept = {n: t[:nc].rstrip() if n >= sc.base else t for n, t in self.above(s, mark).items()}
                s.resize(nr, nc)
                recent.append("resize %dx%d" % (nr, nc))
                out.counts["resizes"] += 1
                return kept
            for j in range(8):
                rows, cols = s.rows, s.cols
                if rng.random() < 0.5:
                    n = rng.choice([cols - 3, cols - 2, cols - 1, 2 * (cols - 2), 2 * cols, (cols - 2) * (rows - 1),
                                    (cols - 2) * rows - 1, (cols - 2) * (rows // 2)])
                    seq = []
                    for _ in range(max(0, min(n, 2 * most))):
                        ch = rng.choice("0123456789+()- #<ab")
                        if press(ch, ch.encode()):
                            seq.append(ch.encode())
                    s.send_keys(seq)
                    s.settle()
                    self.look(s, mark, h, above, dict(recent=recent[-8:]))
                for _ in range(rng.choice([2, 6, 15, 25])):
                    if rng.random() < 0.1:
                        kept = resize()
                        if kept is None:
                            continue
                        above = kept
                        s.settle()
                        self.look(s, mark, h, above, dict(recent=recent[-8:]))
                        out.ok(repr((s.rows, s.cols, h.line.text, h.line.cur, mark - s.emu.s.base, "resized")))
                        continue
                    if rng.random() < 0.12:
                        name = rng.choice(["up", "up", "down"])
                        q = KEYS[name]
                    else:
                        name, q = editor.random_key(rng, h.line)
                    if not press(name, q):
                        continue
                    s.send(q)
                    s.settle()
                    self.look(s, mark, h, above, dict(recent=recent[-8:]))
                    out.counts["displays"] += 1
                    if len(h.line.text) > s.cols - 2:
                        out.counts["wrapped displays"] += 1
                    if mark - s.emu.s.base >= s.rows - 2:
                        out.counts["displays at the bottom"] += 1
                    out.ok(repr((s.rows, s.cols, h.line.text, h.line.cur, mark - s.emu.s.base)))
                if rng.random() < 0.6 or not gen.cheap(h.line.text, m.cfg.radix):
                    n = len(h.line.text)
                    seq = [KEYS["end"]] + [KEYS["backspace"]] * n
                    h.press("end")
                    for _ in range(n):
                        h.press("backspace")
                    t = rng.choice(["1+2", "2^200", "1/3", "3^150", "7", "hello", "", "(1)+2", "2^1000",
                                    "/radix", "/precision", "/nosuch", "1/0", "$x", "9^99"])
                    if rng.random() < 0.12:
                        t = rng.choice(HELP)
                    elif rng.random() < 0.3:
                        t += "+" + "+".join(rng.choice(["1", "20", "333"]) for _ in range(rng.choice([3, 10, 40])))
                    for ch in t:
                        if press(ch, ch.encode()):
                            seq.append(ch.encode())
                    s.send_keys(seq)
                    s.settle()
                    self.look(s, mark, h, above, dict(recent=recent[-8:]))
                L = h.line.text
                if not gen.cheap(L, m.cfg.radix) or (L.lstrip().startswith("/") and L not in ("/radix", "/precision", "/nosuch") + HELP):
                    if len(L) > (s.cols - 2) * s.rows - 2:
                        s.send_keys([KEYS["end"], KEYS["backspace"]])
                        h.press("end")
                        h.press("backspace")
                    s.send_keys([KEYS["home"], b")"])
                    h.press("home")
                    h.press(")")
                    L = h.line.text
                    s.settle()
                # where the cursor is when Enter is pressed must not matter
                if rng.random() < 0.5:
                    k = rng.choice(["home", "left", "c-left", "end"])
                    if press(k, KEYS[k]):
                        s.send(KEYS[k])
                        s.settle()
                exp = m.submit(L)
                if L.startswith("/help "):
                    exp = ("value", self.help(ctx, L))
                    out.counts["answers of several lines"] += 1
                s.send(b"\r")
                h.enter()
                s.wait_prompt(20)
                s.settle()
                mark = self.entered(s, mark, L, exp, above, recent)
                out.counts["submissions checked"] += 1
                out.ok(repr((s.rows, s.cols, "enter", L, mark - s.emu.s.base)))
                above = self.above(s, mark)
                recent.append("enter %r" % L)
            if case["n"] < 4:
                out.sample({"window": [rows, cols], "steps": recent[:25]})
            s.close()
        except Died:
            raise Violation(what="the calculator ended", status=s.status, recent=recent[-8:], window=[rows, cols])
        finally:
            s.kill()

    def help(self, ctx, line):
        if line not in self.helps:
            r = oneshot.run(ctx.bin, ["--input=" + line])
            self.helps[line] = "\n".join(x.rstrip() for x in r.out.split("\n")).rstrip()
        return self.helps[line]

    def entered(self, s, mark, L, exp, above, recent):
        sc = s.emu.s
        new = s.emu.dsr_marks[-1][1]
        w = sc.cols - 2
        want = []
        for i in range(0, max(1, len(L)), w):
            want.append((("# " if i == 0 else "  ") + L[i:i + w]).rstrip())
        got = [cells(sc, n).rstrip() for n in range(mark, min(mark + len(want), new))]
        info = dict(line=L, window=[sc.rows, sc.cols], recent=recent[-6:])
        if got != want:
            raise Violation(what="the submitted line isn't shown completely", expected=want, shown=got, **info)
        rows, text = range(mark + len(want), new), ""
        for n in rows:
            t = cells(sc, n)
            if n in sc.wrapped:
                text += t
            else:
                text = text.rstrip(" ") + ("\n" if n > rows[0] else "") + t
        text = text.rstrip()
        if not rows or not model.matches(text, exp):
            raise Violation(what="the answer isn't shown below the line", expected=[str(x) for x in exp[:2]],
                            shown=text, rows=len(rows), **info)
        for n, t in above.items():
            if cells(sc, n).rstrip() != t:
                raise Violation(what="a row above the line was changed", now=cells(sc, n).rstrip(), before=t, **info)
        row = cells(sc, new).rstrip()
        if row != "#" or sc.base + sc.r != new or sc.c != 2 or any(
                cells(sc, n).strip() for n in range(new + 1, sc.base + sc.rows)):
            raise Violation(what="no clean prompt below the answer", row=row, cursor=[sc.r, sc.c], **info)
        return new


CHECK = C16()
