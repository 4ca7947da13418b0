"""C14: Up/Down walk the history without ever altering it."""
from vlib import db, editor, gen, model
from vlib.core import Check, Violation
from vlib.session import Died, KEYS, Session

TEXTS = ["", "1", "1+2", "3*4", "  7 ", "sqrt 16", "/radix", "(1+2)*3", "hello", "$x", "max(1,2)", "0.5", "12345678901234567890",
         "1/0", "/help", "/nosuch", "a b c", "((", "1 + 1 + 1 + 1 + 1 + 1 + 1", "\"q'q\"", "100%7", "é"]


class C14(Check):
    id = "C14"
    rule = ("histories over several sessions (inline and alternate screen, with and without "
            "database, small capacities, other sessions writing meanwhile) of typing, editing, "
            "Up/Down runs and Enter; the submitted line, the displayed line and cursor at "
            "random moments, and the stored inputs are compared with a model of composed line, "
            "session history and stored history. Non-trivial: submissions after navigation.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def keys(self, rng, h, deep=False):
        out = []

        def press(name, q=None):
            h.press(name)
            out.append((name, q if q is not None else KEYS[name]))

        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            k = rng.random()
            if k < 0.5:
                d = rng.choice(["up", "up", "up", "down", "down"])
                for _ in range(rng.choice([1, 1, 1, 2, 3, 6, 15] if not deep else [1, 5, 40, 60, 99, 100, 130, 260])):
                    press(d)
            elif k < 0.75:
                for ch in rng.choice(TEXTS)[:rng.choice([2, 5, 40])]:
                    if ord(ch) < 127:
                        press(ch, ch.encode())
            else:
                for _ in range(rng.choice([1, 2, 5])):
                    press(rng.choice(["backspace", "delete", "left", "right", "home", "end", "c-left", "s-right"]))
        return out

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        use_db = rng.random() < 0.7
        root = ctx.tmpdir() if use_db else None
        store = model.Store() if use_db else None
        env = {"_B_UTIL_DATA_DIR": root} if use_db else {}
        recent = []
        stamp = [0]
        # now and then a long stored history and long walks through it
        deep = use_db and rng.random() < 0.08
        if deep:
            b = Session(ctx.bin, [], env, rows=50, cols=3000)
            try:
                n = rng.choice([101, 128, 150, 300, 1000])
                b.submit("/histcap %d" % n)
                b.close()
            finally:
                b.kill()
            store.set_cap(n)
            store.add("/histcap %d" % n)
            for i in range(rng.choice([99, 100, 101, 127, 129, 140, 260, 300])):
                t = "%d+%s" % (i, rng.choice(["1", "2", "x"]))
                db.add_line(root, t)
                store.add(t)
        for sess in range(rng.choice([1, 2, 3, 3]) if use_db else 1):
            argv = ["-a"] if rng.random() < 0.3 else []
            if use_db and (sess or deep) and rng.random() < 0.3 and db.renumber(root, rng):
                # the ids of saved lines only identify them
                recent.append("(ids renumbered)")
                out.counts["renumbered"] += 1
            s = Session(ctx.bin, argv, env, rows=50, cols=3000)
            other = None
            h = editor.History(store)
            m = model.Session(store=store)
            try:
                if rng.random() < 0.03:
                    # a session of many lines
                    deep = True
                    for i in range(rng.choice([99, 101, 129, 260])):
                        t = "%d-2" % i
                        s.submit(t)
                        for c in t:
                            h.press(c)
                        h.enter()
                        m.submit(t)
                if use_db and rng.random() < 0.3:
                    other = Session(ctx.bin, [], env, rows=50, cols=3000)
                for j in range(rng.choice([3, 10, 20])):
                    if other is not None and rng.random() < 0.3:
                        t = "100+%d" % stamp[0]
                        stamp[0] += 1
                        other.submit(t)
                        store.add(t)
                        recent.append("(other session) " + t)
                    if use_db and rng.random() < (0.06 if not deep else 0.02):
                        # a capacity change, typed as any other line
                        n = rng.choice([1, 2, 3, 5, 8, 100])
                        text = "/histcap %d" % n
                        keys = [(c, c.encode()) for c in text]
                        h.press("end")
                        while h.line.text:
                            h.press("backspace")
                            keys.insert(0, ("backspace", KEYS["backspace"]))
                        keys.insert(0, ("end", KEYS["end"]))
                        for c in text:
                            h.press(c)
                    else:
                        snap = None
                        keys = self.keys(rng, h, deep)
                        t = h.line.text.strip()
                        if t.startswith("/") and t not in ("/help", "/radix", "/nosuch"):
                            # keep settings and capacity as they are
                            keys.append(("home", KEYS["home"]))
                            h.press("home")
                            keys.append(("1", b"1"))
                            h.press("1")
                        if not gen.cheap(h.line.text, 10):
                            keys.append(("home", KEYS["home"]))
                            keys.append((")", b")"))
                            h.press("home")
                            h.press(")")
                    info = dict(keys=[n for n, _ in keys], argv=argv, recent=recent[-10:])
                    mark = s.emu.dsr_marks[-1][1]
                    if rng.random() < 0.25:
                        s.send_keys([q for _, q in keys])
                        s.settle()
                        sc = s.emu.s
                        want = ("# " + h.line.text)
                        if sc.abs_text(mark) != want.rstrip(" ") or sc.c != 2 + h.line.cur:
                            raise Violation(what="wrong line or cursor displayed while navigating",
                                            expected=[want, 2 + h.line.cur], shown=[sc.abs_text(mark), sc.c], **info)
                        out.counts["displays checked"] += 1
                        s.send(b"\r")
                    else:
                        s.send_keys([q for _, q in keys] + [b"\r"])
                    s.wait_prompt(20)
                    shown = s.emu.s.abs_text(mark)
                    if shown != ("# " + h.line.text).rstrip(" "):
                        raise Violation(what="another line than expected was submitted", expected=h.line.text,
                                        shown=shown, **info)
                    text = h.enter()
                    m.submit(text)
                    recent.append(text)
                    nav = any(n in ("up", "down") for n in info["keys"])
                    out.ok(repr((info["keys"], text, len(h.own), len(h.old))) if nav else None)
                    if nav:
                        out.counts["submissions after navigation"] += 1
                    if use_db and rng.random() < 0.3:
                        d = db.Dump(root)
                        if d.inputs != [t for _, t in store.hist]:
                            raise Violation(what="stored history differs", expected=[t for _, t in store.hist][-6:],
                                            stored=d.inputs[-6:], **info)
                        out.counts["stored histories compared"] += 1
                if use_db and rng.random() < 0.2 and sess == 0:
                    s.kill()
                else:
                    s.close()
                recent.append("--- next session")
            except Died:
                raise Violation(what="the calculator ended", argv=argv, status=s.status, recent=recent[-10:])
            finally:
                s.kill()
                if other is not None:
                    other.kill()
        if case["n"] < 3:
            out.sample({"lines": recent[:12]})


CHECK = C14()
