"""C13: editing keys change the input line exactly as specified."""
from vlib import db, editor, gen, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.session import Died, Session


class C13(Check):
    id = "C13"
    rule = ("streams of printable characters, editing keys (several encodings), Control+N and "
            "keys to be ignored (Control/Alt combinations, function keys, non-ASCII), on lines "
            "from empty to hundreds of characters, in inline and alternate-screen sessions; the "
            "submitted line is read from the terminal and, in half of the sessions, exactly "
            "from the database, and compared with a line-editor model. Non-trivial: distinct "
            "key streams of at least 3 keys.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def stream(self, rng, most):
        """-> [(name, bytes)], final text; no line of more than `most` characters"""
        line = editor.Line()
        keys = []

        def press(name, q):
            line.press(name)
            keys.append((name, q))

        mode = rng.random()
        if mode < 0.06:
            # a very long line, with some editing at its ends and inside
            n = rng.choice([250, 254, 255, 256, 300, 500, 511, 512, 513, 700, 900, 1023, 1024, 1025, 1500, 1990, 2500])
            for i in range(min(n, most - 40)):
                ch = rng.choice("0123456789+-*().  ")
                press(ch, ch.encode())
                if rng.random() < 0.004:
                    k = rng.choice(["home", "end", "left", "backspace", "delete", "c-left"])
                    press(k, editor.KEYS[k])
            for _ in range(rng.choice([0, 3, 8])):
                press(*editor.random_key(rng, line))
        elif mode < 0.09:
            # a key that is held
            n = rng.choice([35, 66, 130, 260, 400])
            for i in range(min(n + rng.choice([-10, 0, 3, 40]), most - 40)):
                ch = rng.choice("0123456789+")
                press(ch, ch.encode())
            for _ in range(rng.choice([1, 2])):
                k = rng.choice(["backspace", "backspace", "left", "right", "delete", "delete", "c-left"])
                if k in ("delete", "right"):
                    press("home", editor.KEYS["home"])
                for _ in range(n - rng.choice([0, 1, 5, 20])):
                    press(k, editor.KEYS[k])
            for _ in range(rng.choice([0, 3, 8])):
                press(*editor.random_key(rng, line))
        elif mode < 0.13:
            # deeply nested parentheses
            n = rng.choice([16, 33, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 450])
            text = "(" * n + rng.choice(["", "1", "2)(3"]) + ")" * (n + rng.choice([0, 0, 0, -1, 1]))
            if rng.random() < 0.4:
                i = rng.randrange(len(text))
                text = text[:i] + rng.choice(["()", "(", ")", "7", "(8)"]) + text[i:]
            for ch in text[:most - 40]:
                press(ch, ch.encode())
            for _ in range(rng.choice([1, 2, 4])):
                for k in rng.choice([["home"], ["end"], ["home", "right"], ["end", "left"], ["home"] + ["s-right"] * rng.randrange(25),
                                     ["left"] * rng.randrange(10), ["c-left"] * rng.randrange(10)]):
                    press(k, editor.KEYS[k])
                press("c-n", editor.KEYS["c-n"])
                if rng.random() < 0.7:
                    press("9", b"9")
        elif mode < 0.25:
            # parentheses and Control+N
            for _ in range(rng.choice([2, 4, 10, 30])):
                ch = rng.choice("(())1")
                press(ch, ch.encode())
            for _ in range(rng.choice([2, 5, 12])):
                n = rng.choice(["c-n", "c-n", "left", "left", "right", "home", "end", "c-left"])
                press(n, editor.KEYS[n])
                if rng.random() < 0.6:
                    ch = rng.choice("a(b)")
                    press(ch, ch.encode())
        elif mode < 0.5:
            # long line first
            n = rng.choice([14, 15, 16, 17, 29, 30, 31, 45, 80, 200])
            for _ in range(n):
                ch = rng.choice("0123456789+-*()")
                press(ch, ch.encode())
            for _ in range(rng.choice([3, 8, 20])):
                press(*editor.random_key(rng, line))
        else:
            for _ in range(rng.choice([1, 3, 6, 12, 30, 60])):
                press(*editor.random_key(rng, line))
        return keys, line.text

    def stored_only(self, root, text, keys, i, s, argv, out):
        """what was submitted, by what is shown last and stored (rows of another size may be in between)"""
        names = [n if n != "ignored" else "ignored %r" % q for n, q in keys]
        lines = [s.emu.s.abs_text(n) for n in range(max(0, s.emu.dsr_marks[-1][1] - 60), s.emu.dsr_marks[-1][1])]
        if ("# " + text).rstrip(" ") not in lines:
            raise Violation(what="the submitted line is not what the keys spell", expected="# " + text, shown=lines[-4:],
                            keys=names, resized_before_key=i, argv=argv)
        if root:
            d = db.Dump(root)
            if (d.inputs[-1] if d.inputs else None) != text:
                raise Violation(what="the stored line is not what the keys spell", expected=text, stored=d.inputs[-1:],
                                keys=names, resized_before_key=i, argv=argv)
        out.ok(repr((keys, i)))

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        argv, env = [], {}
        root = None
        if rng.random() < 0.5:
            root = ctx.tmpdir()
            env["_B_UTIL_DATA_DIR"] = root
        else:
            argv.append("--no-db")
        alt = rng.random() < 0.3
        if alt:
            argv.append("-a")
        rows, cols = rng.choice([(50, 2000), (40, 1000), (60, 3000)])
        s = Session(ctx.bin, argv, env, rows=rows, cols=cols)
        sent = []
        try:
            for j in range(20):
                keys, text = self.stream(rng, cols)
                if not gen.cheap(text, 10) or text.lstrip().startswith("/"):
                    continue
                mark = s.emu.dsr_marks[-1]
                if not alt and rng.random() < 0.12:
                    # the window is very small for a while
                    i = rng.randrange(len(keys) + 1)
                    s.send_keys([q for _, q in keys[:i]])
                    s.settle()
                    for size in [(rng.choice([1, 2, 5, 24]), rng.choice([5, 6, 10, 20, 80])) for _ in range(rng.choice([1, 1, 2]))] + [(rows, cols)]:
                        s.resize(*size)
                    out.counts["lines edited in a window that was resized"] += 1
                    s.send_keys([q for _, q in keys[i:]] + [b"\r"])
                    s.wait_prompt(20)
                    sent.append(text)
                    self.stored_only(root, text, keys, i, s, argv, out)
                    continue
                s.send_keys([q for _, q in keys] + [b"\r"])
                s.wait_prompt(20)
                sent.append(text)
                shown = s.emu.s.abs_text(mark[1])
                info = dict(keys=[n if n != "ignored" else "ignored %r" % q for n, q in keys], argv=argv)
                # (very long answers may have scrolled the alternate screen: still in the scroll-back)
                if shown != ("# " + text).rstrip(" "):
                    raise Violation(what="the submitted line is not what the keys spell", expected="# " + text,
                                    shown=shown, **info)
                if root:
                    d = db.Dump(root)
                    got = d.inputs[-1] if d.inputs else None
                    if got != text:
                        raise Violation(what="the stored line is not what the keys spell", expected=text,
                                        stored=got, **info)
                    out.counts["stored lines"] += 1
                names = [n for n, _ in keys]
                for n in names:
                    out.counts["key " + (n if len(n) > 1 else "character")] += 1
                out.ok(repr(keys) if len(keys) > 2 else None)
                if j == 0 and case["n"] < 4:
                    out.sample({"keys": names[:40], "line": text})
            s.close()
        except Died:
            raise Violation(what="the calculator ended while keys were typed", lines=sent[-2:],
                            keys=[repr(q) for _, q in keys][-60:], argv=argv, status=s.status)
        finally:
            s.kill()


CHECK = C13()
