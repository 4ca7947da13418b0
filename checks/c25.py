"""C25: the terminal is restored on every way out."""
import errno
import os
import random
import termios
import time

from vlib import db, editor, gen, model, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import FAIL, OPEN, READ, SYNC, WRITE, Shim
from vlib.session import Died, KEYS, Session

EXITS = [b"\x03", b"\x04", b"\x1a", b"\x03", b"\x04", b"\x1a", b"\x1b[99;5u", b"\x1b[100;5u", b"\x1b[122;5u"]
FIELDS = ("input", "output", "control", "local", "ispeed", "ospeed", "characters")


def odd_modes(rng):
    """terminal modes a user may have, before the calculator starts"""
    k = rng.random()
    if k < 0.5:
        return None

    def change(fd):
        m = termios.tcgetattr(fd)
        for flags, i in ((termios.IXON | termios.ICRNL | termios.INLCR | termios.IGNCR | termios.ISTRIP | termios.IUTF8 if hasattr(termios, "IUTF8")
                          else termios.IXON, 0),):
            m[0] ^= rng.randrange(2 ** 12) & flags
        m[1] ^= rng.choice([0, termios.OPOST, termios.ONLCR])
        m[3] ^= rng.choice([0, termios.ECHO, termios.ICANON, termios.ISIG, termios.ECHO | termios.ICANON, termios.IEXTEN, termios.ECHOE])
        m[6][termios.VMIN] = bytes([rng.choice([0, 1, 4])])
        m[6][termios.VTIME] = bytes([rng.choice([0, 1, 5])])
        m[6][termios.VEOF] = bytes([rng.choice([4, 5])])
        termios.tcsetattr(fd, termios.TCSANOW, m)
    return change


class C25(Check):
    id = "C25"
    rule = ("inline and alternate-screen sessions on terminals with ordinary and odd modes, "
            "ended in every way: the three exit keys (also in the extended encoding) while "
            "editing, navigating, scrolled, after resizing, typed ahead behind an expression; "
            "errors at the start (data directory or file unusable, newer version, storage "
            "faults, too narrow a window, no answer about the cursor) and later (window "
            "narrowed, paste event, history unreadable); wrong options; one-shot runs. "
            "Terminal modes before and after, alternate-screen and private-mode switches, exit "
            "status and stored lines are compared. Non-trivial: distinct ways out.")
    shim = True
    confirm = 2

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        kind = case["n"] % 8
        if kind < 4:
            self.keys(ctx, rng, out, case)
        elif kind < 6:
            self.start_errors(ctx, rng, out)
        elif kind == 6:
            self.later_errors(ctx, rng, out)
        else:
            self.no_session(ctx, rng, out)

    def ended(self, s, want_zero, info, out, alt):
        """wait for the end; check everything visible from outside"""
        s.wait_for(lambda: not s.alive(), 25, dead_ok=True)
        while s.pump(0.01):
            pass
        after = termios.tcgetattr(s.slave)
        info = dict(info, status=s.status)
        if after != s.modes0:
            diff = [(FIELDS[i], a, b) for i, (a, b) in enumerate(zip(s.modes0, after)) if a != b]
            raise Violation(what="the terminal modes are not restored", differences=repr(diff)[:800], **info)
        if s.status is None or s.status < 0 or s.status == 101 or (s.status == 0) != want_zero:
            raise Violation(what="wrong exit status", expected="zero" if want_zero else "nonzero", **info)
        e = s.emu
        if e.alt_entered != e.alt_left or e.in_alt:
            raise Violation(what="the alternate screen was not left as often as entered", entered=e.alt_entered, left=e.alt_left, **info)
        if e.alt_entered and not alt:
            raise Violation(what="the alternate screen was entered without being asked for", **info)
        if alt == "must" and not e.alt_entered:
            raise Violation(what="the alternate screen was not entered", **info)
        left = {m: v for m, v in e.modes.items() if v != (m in (7, 25))}
        if left:
            raise Violation(what="private terminal modes are left changed", modes=left, **info)
        out.counts["terminals found restored"] += 1

    def keys(self, ctx, rng, out, case):
        use_db = rng.random() < 0.5
        root = ctx.tmpdir() if use_db else None
        env = {"_B_UTIL_DATA_DIR": root} if use_db else {}
        alt = rng.random() < 0.5
        argv = (["-a"] if alt else []) + ([] if use_db else ["--no-db"])
        store = model.Store() if use_db else None
        cols, rows = rng.choice([20, 80, 300]), rng.choice([10, 24, 50])
        s = Session(ctx.bin, argv, env, rows=rows, cols=cols, modes=odd_modes(rng))
        h = editor.History(store)
        m = model.Session(store=store)
        steps = []
        try:
            if termios.tcgetattr(s.slave)[3] & (termios.ICANON | termios.ECHO):
                raise Inconclusive("not in raw mode")
            for _ in range(rng.choice([0, 0, 1, 3])):
                line = rng.choice(["1+2", "2^100", "hello", "", "$x=5", "1/3", "/help", "/radix"])
                for c in line:
                    h.press(c)
                s.send(line.encode() + b"\r")
                s.wait_prompt(20)
                h.enter()
                m.submit(line)
                steps.append(line)
            for _ in range(rng.choice([0, 0, 3, 10, 40])):
                if rng.random() < 0.2:
                    name = rng.choice(["up", "down"])
                    q = KEYS[name]
                else:
                    name, q = editor.random_key(rng, h.line)
                h.press(name)
                s.send(q)
                steps.append(name)
            if rng.random() < 0.25:
                s.resize(rng.choice([10, 30]), rng.choice([8, 40, 100]))
                steps.append("resize")
            ahead = None
            if rng.random() < 0.3:
                # typed ahead: the calculation comes first
                ahead = rng.choice(["1+1", "2^3000", "1/7", "3^5000+1"])
                seq = [KEYS["end"]] + [KEYS["backspace"]] * len(h.line.text) + [c.encode() for c in ahead] + [b"\r"]
                s.send_keys(seq)
                if store is not None:
                    store.add(ahead)
                steps.append("%s, typed ahead" % ahead)
            key = rng.choice(EXITS)
            s.send(key)
            info = dict(argv=argv, exit_key=repr(key), steps=steps[-15:])
            try:
                s.wait_for(lambda: not s.alive(), 25, dead_ok=True)
            except Inconclusive:
                if s.alive() and s.idle():
                    raise Violation(what="an exit key does not end the session", **info)
                raise
            self.ended(s, True, info, out, "must" if alt else False)
            if store is not None:
                d = db.Dump(root)
                if d.problems or d.inputs != [t for _, t in store.hist]:
                    raise Violation(what="ending the session changed the stored lines", stored=d.inputs[-4:],
                                    expected=[t for _, t in store.hist][-4:], **info)
                out.counts["stored lines compared"] += 1
            out.counts["ended by key"] += 1
            out.ok(repr((argv, key, steps)))
            if case["n"] < 3:
                out.sample(info)
        except Died:
            raise Violation(what="the session ended too early", argv=argv, status=s.status, steps=steps[-10:])
        finally:
            s.kill()

    def start_errors(self, ctx, rng, out):
        root = ctx.tmpdir()
        alt = rng.random() < 0.5
        argv = ["-a"] if alt else []
        env = {"_B_UTIL_DATA_DIR": root}
        kw = dict(rows=rng.choice([5, 24]), cols=80, modes=odd_modes(rng))
        what = rng.choice(["no parent", "parent is a file", "directory is a file", "file is a directory", "no database", "newer", "fault", "fault",
                           "fault", "narrow", "narrow", "silent terminal" if rng.random() < 0.15 else "newer", "not unicode"])
        shim = None
        if what == "no parent":
            env["_B_UTIL_DATA_DIR"] = os.path.join(root, "a", "b")
        elif what == "parent is a file":
            open(os.path.join(root, "f"), "w").close()
            env["_B_UTIL_DATA_DIR"] = os.path.join(root, "f")
        elif what == "directory is a file":
            open(os.path.join(root, "bcalc"), "w").close()
        elif what == "file is a directory":
            os.makedirs(db.path(root))
        elif what == "no database":
            os.mkdir(os.path.join(root, "bcalc"))
            with open(db.path(root), "wb") as f:
                f.write(b"no database at all " * 300)
        elif what in ("newer", "fault"):
            p = Session(ctx.bin, [], env, rows=50, cols=200)
            p.submit("1+2")
            p.close()
            if what == "newer":
                c = db.connect(root)
                c.execute("UPDATE meta_int SET value=7 WHERE key=?", (db.MINVERSION,))
                c.close()
            else:
                shim = Shim(ctx, root)
                mask = rng.choice([READ, OPEN, READ | WRITE | SYNC | OPEN, WRITE])
                at = rng.choice([1, 1, 2, 3])
                if mask == WRITE:
                    c = db.connect(root)
                    c.execute("DELETE FROM meta_int WHERE key=?", (db.VERSION,))
                    c.close()
                shim.arm(FAIL, at=at, mask=mask, err=rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC]), persist=1)
                env.update(shim.env)
                kw["preload"] = ctx.shim
        elif what == "narrow":
            kw["cols"] = rng.choice([1, 2]) if alt else rng.choice([1, 2, 3, 4])
            if rng.random() < 0.5:
                argv.append("--no-db")
        elif what == "not unicode":
            env["_B_UTIL_DATA_DIR"] = root + "/\udcff\udcfe"
        if what == "silent terminal":
            kw["answer_dsr"] = False
            argv.append("--no-db")
        info = dict(what_is_wrong=what, argv=argv)
        s = Session(ctx.bin, argv, env, start=False, **kw)
        try:
            try:
                s.wait_for(lambda: s.emu.dsr >= 1 and what not in ("narrow", "silent terminal"), 20)
                hit = shim.hits if shim else 1
                if shim and not hit:
                    out.counts["faults that did not hit"] += 1
                    s.send(b"\x04")
                    self.ended(s, True, info, out, "must" if alt else False)
                    return
                if shim:
                    # the storage layer coped with it
                    out.counts["faults hidden by the storage layer"] += 1
                    s.send(b"\x04")
                    self.ended(s, True, info, out, "must" if alt else False)
                    return
                raise Violation(what="the session started although it can't work", **info)
            except Died:
                pass
            self.ended(s, False, info, out, alt)
            text = "\n".join("".join(x).rstrip() for x in s.emu.main.lines if x)
            if what != "narrow" and "rror" not in text:
                raise Violation(what="no error is shown after the terminal was restored", screen=text[-300:], **info)
            out.counts["failed at the start: " + what] += 1
            out.ok(repr((what, argv, kw["cols"], kw["rows"])))
        finally:
            s.kill()
            if shim:
                shim.close()

    def later_errors(self, ctx, rng, out):
        root = ctx.tmpdir()
        alt = rng.random() < 0.5
        what = rng.choice(["paste", "narrowed", "narrowed", "history unreadable"])
        argv = ["-a"] if alt else []
        env = {"_B_UTIL_DATA_DIR": root}
        shim = None
        kw = dict(rows=24, cols=80, modes=odd_modes(rng))
        if what == "history unreadable":
            p = Session(ctx.bin, [], env, rows=50, cols=2000)
            for i in range(30):
                p.submit("1" + "+1" * 300)
            p.close()
            shim = Shim(ctx, root)
            env.update(shim.env)
            kw["preload"] = ctx.shim
        else:
            argv.append("--no-db")
        s = Session(ctx.bin, argv, env, **kw)
        info = dict(what_happens=what, argv=argv)
        try:
            for _ in range(rng.choice([0, 1, 3])):
                s.send(b"12+3\r" if rng.random() < 0.5 else b"7*6\r")
                s.wait_prompt(20)
            s.send(rng.choice([b"", b"1+2", b"((12" * 10]))
            s.settle()
            if what == "paste":
                s.send(b"\x1b[200~1+2\x1b[201~")
            elif what == "narrowed":
                cols = rng.choice([1, 2]) if alt else rng.choice([1, 2, 3, 4])
                import fcntl
                import struct
                fcntl.ioctl(s.fd, termios.TIOCSWINSZ, struct.pack("HHHH", 24, cols, 0, 0))
                info["cols"] = cols
            else:
                shim.arm(FAIL, at=1, mask=READ, err=errno.EIO, persist=1)
                for _ in range(20):
                    s.send(KEYS["up"])
                    s.settle()
                    if not s.alive():
                        break
                if s.alive():
                    # not an error here: end it normally
                    s.send(b"\x04")
                    self.ended(s, True, info, out, "must" if alt else False)
                    out.counts["history faults survived"] += 1
                    return
            try:
                s.wait_for(lambda: not s.alive(), 5, dead_ok=True)
            except Inconclusive:
                # survived: it's up to the calculator; then it must end normally
                s.resize(24, 80)
                s.send(b"\x04")
                self.ended(s, True, info, out, "must" if alt else False)
                out.counts["survived: " + what] += 1
                return
            self.ended(s, False, info, out, "must" if alt else False)
            out.counts["failed later: " + what] += 1
            out.ok(repr((what, argv, info.get("cols"))))
        except Died:
            self.ended(s, False, info, out, "must" if alt else False)
        finally:
            s.kill()
            if shim:
                shim.close()

    def no_session(self, ctx, rng, out):
        """one-shot runs and wrong options leave the terminal alone"""
        for argv, zero in rng.sample([(["-i", "1+2"], True), (["--input", "1/0"], True), (["-a", "-i", "2^9"], True), (["--help"], True), (["--version"], True),
                                      (["--radix", "1"], False), (["--nosuch"], False), (["-p", "999"], False), (["-i", "((", "-a"], True),
                                      (["--convert-to-radix", "17"], False), (["extra", "more"], False)], 3):
            if argv == ["--version"]:
                argv, zero = ["--help"], True
            s = Session(ctx.bin, argv, {}, rows=24, cols=80, start=False, modes=odd_modes(rng))
            info = dict(argv=argv)
            try:
                self.ended(s, zero, info, out, False)
                if s.emu.dsr:
                    raise Violation(what="a session was started", **info)
                out.counts["runs without a session"] += 1
                out.ok(repr(argv))
            finally:
                s.kill()


CHECK = C25()
