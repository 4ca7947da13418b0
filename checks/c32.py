"""C32: one-shot evaluation can be used in scripts."""
import fcntl
import os
import pty
import resource
import select
import signal
import struct
import subprocess
import tempfile
import termios
import time

from vlib import calc, gen, model, oneshot, ref
from vlib.core import Check, Inconclusive, Violation

ENV = {"TERM": ["dumb", "", "xterm-256color", "vt100", "nosuchterm", "screen"], "LANG": ["C", "de_DE.UTF-8", "C.UTF-8", "xx"],
       "LC_ALL": ["C", "tr_TR.UTF-8", "POSIX"], "COLUMNS": ["5", "0", "x", "20"], "LINES": ["1", "3"], "NO_COLOR": ["1"],
       "CLICOLOR_FORCE": ["1"], "FORCE_COLOR": ["1"], "RUST_BACKTRACE": ["1", "full"], "RUST_LOG": ["trace"], "RADIX": ["16"],
       "PRECISION": ["1"], "BCALC_RADIX": ["2"], "BCALC_PRECISION": ["0"], "INPUT": ["9"], "TZ": ["Asia/Tokyo"], "HOME": ["/", ""],
       "PAGER": ["less"], "_B_UTIL_DATA_DIR": ["/nonexistent/x", "", "relative"]}


class C32(Check):
    id = "C32"
    rule = ("one-shot runs with valid, malformed and command inputs, with standard input, output "
            "and error each a pipe (also a small one that refuses to wait), a file, a terminal, closed or full, in varied environments: the bytes written "
            "to each, the unread input, the terminals' modes and the exit status are compared "
            "with the answer. Non-trivial: distinct (input, surroundings).")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        for _ in range(10):
            self.one(rng, ctx, out, case)

    def input(self, rng):
        """-> settings, input, expected"""
        while True:
            cfg = gen.config(rng)
            k = rng.random()
            if k < 0.6:
                t = gen.render(rng, gen.tree(rng, cfg.radix, rng.choice([1, 2, 4]), 20))
            elif k < 0.7:
                t = rng.choice(["", " ", "/radix", "/help", "/help radix", "/precision", "/commas t", "/nosuch", "/radix 99", "/histcap"])
            elif k < 0.78:
                # a long answer
                t = ref.to_radix(7, cfg.radix) + "^" + ref.to_radix(rng.choice([1000, 20000, 60000]), cfg.radix)
                if cfg.radix < 8:
                    continue
            else:
                t = gen.noise_line(rng, unicode_ok=True)
            if "\0" in t or "$" in t:
                continue
            try:
                m = model.Session(cfg.copy())
                if t in ("/help", "/help radix"):
                    return cfg, t, ("ok",)
                if t.lstrip(ref.WS + "\x0b").startswith("/") and t not in ("/radix", "/precision", "/commas t", "/nosuch", "/radix 99"):
                    return cfg, t, ("any",)
                return cfg, t, m.submit(t)
            except (ref.TooBig, ref.Inexact):
                continue

    def one(self, rng, ctx, out, case):
        cfg, text, exp = self.input(rng)
        argv = cfg.options(rng) + ["--input=" + text]
        if rng.random() < 0.2:
            argv.append("-a")
        env = dict(oneshot.BASE_ENV)
        for k in rng.sample(sorted(ENV), rng.randrange(0, 6)):
            env[k] = rng.choice(ENV[k])
        if rng.random() < 0.05:
            env = {}
        d = ctx.tmpdir()
        kin = rng.choice(["null", "pipe", "pipe", "tty", "file", "closed"])
        kout = rng.choice(["pipe", "pipe", "file", "tty", "full", "append", "broken", "small"])
        kerr = rng.choice(["pipe", "pipe", "file", "tty", "same"])
        if kout in ("full", "broken", "small"):
            kerr = "pipe"
        info = dict(argv=argv, stdin=kin, stdout=kout, stderr=kerr, env=env)
        close, tty = [], None
        try:
            if "tty" in (kin, kout, kerr):
                tty = os.openpty()
                close += tty
                a = termios.tcgetattr(tty[1])
                fcntl.ioctl(tty[1], termios.TIOCSWINSZ, struct.pack("HHHH", rng.choice([2, 24]), rng.choice([1, 4, 10, 80]), 0, 0))
                modes = a
                os.set_blocking(tty[0], False)
            left = None
            if kin == "null":
                fin = os.open("/dev/null", os.O_RDONLY)
            elif kin == "pipe":
                left, w = os.pipe()
                os.write(w, b"1+1\n2+2\n")
                os.close(w)
                fin = left
            elif kin == "tty":
                os.write(tty[0], b"5+5\n")
                fin = os.dup(tty[1])
            elif kin == "file":
                p = os.path.join(d, "in")
                open(p, "wb").write(b"3+3\n" * 50)
                fin = os.open(p, os.O_RDONLY)
            else:
                fin = os.open("/dev/null", os.O_RDONLY)
            close.append(fin)
            fo = os.path.join(d, "out")
            sink = {}

            def make(kind, name):
                if kind in ("pipe", "broken", "small"):
                    r, w = os.pipe()
                    if kind == "small":
                        # takes a page, then refuses until it is read
                        fcntl.fcntl(w, 1031, 4096)
                        os.set_blocking(w, False)
                    if kind == "broken":
                        os.close(r)
                    else:
                        sink[name] = r
                        close.append(r)
                    return w
                if kind == "tty":
                    return os.dup(tty[1])
                if kind == "full":
                    return os.open("/dev/full", os.O_WRONLY)
                p = os.path.join(d, name)
                flags = os.O_WRONLY | os.O_CREAT
                if kind == "append":
                    open(p, "wb").write(b"before\n")
                    flags |= os.O_APPEND
                return os.open(p, flags)
            fout = make(kout, "out")
            ferr = os.dup(fout) if kerr == "same" else make(kerr, "err")

            def child():
                if tty is not None and rng.random() < 0.5:
                    os.setsid()
                    fcntl.ioctl(tty[1], termios.TIOCSCTTY, 0)
                if kin == "closed":
                    os.close(0)
            p = subprocess.Popen([ctx.bin] + argv, stdin=fin, stdout=fout, stderr=ferr, env=env, cwd=d, preexec_fn=child)
            os.close(fout)
            os.close(ferr)
            got = {"out": b"", "err": b"", "tty": b""}
            fds = {sink[k]: k for k in sink}
            if tty:
                fds[tty[0]] = "tty"
            end = time.monotonic() + 60
            done = False
            if kout == "small":
                try:
                    p.wait(rng.choice([0.01, 0.3]))
                except subprocess.TimeoutExpired:
                    pass
            while True:
                r, _, _ = select.select(list(fds), [], [], 0.0 if done else 0.02) if fds else ([], [], [])
                moved = False
                for f in r:
                    try:
                        b = os.read(f, 65536)
                    except OSError:
                        b = b""
                    if b:
                        moved = True
                        got[fds[f]] += b
                    elif fds[f] != "tty":
                        del fds[f]
                if done and not moved:
                    break
                if not done:
                    if not fds:
                        time.sleep(0.002)
                    done = p.poll() is not None
                if time.monotonic() > end:
                    p.kill()
                    p.wait()
                    raise Inconclusive("one-shot run timed out")
            rc = p.returncode
            for name, kind in (("out", kout), ("err", kerr)):
                if kind in ("file", "append"):
                    got[name] = open(os.path.join(d, name), "rb").read()
            if kout == "append":
                if not got["out"].startswith(b"before\n"):
                    raise Violation(what="the output file was truncated", got=got["out"][:200], **info)
                got["out"] = got["out"][7:]
            if kin == "tty" and got["tty"].startswith(b"5+5\r\n"):
                got["tty"] = got["tty"][5:]           # the terminal's own echo
            self.judge(rng, text, exp, cfg, kin, kout, kerr, got, rc, info)
            if kin == "pipe" and os.read(left, 100) != b"1+1\n2+2\n":
                raise Violation(what="standard input was read", **info)
            if kin == "file" and os.lseek(fin, 0, os.SEEK_CUR) != 0:
                raise Violation(what="standard input was read", **info)
            if tty is not None and termios.tcgetattr(tty[1]) != modes:
                raise Violation(what="the terminal's modes were changed", **info)
            if kin == "tty":
                os.set_blocking(tty[1], False)
                try:
                    b = os.read(tty[1], 100)
                except OSError:
                    b = b""
                if b != b"5+5\n":
                    raise Violation(what="standard input was read", left=b, **info)
            extra = set(os.listdir(d)) - {"in", "out", "err"}
            if extra:
                raise Violation(what="files were created", files=sorted(extra), **info)
            out.counts["stdin %s" % kin] += 1
            out.counts["stdout %s" % kout] += 1
            out.counts["answers"] += exp[0] == "value"
            out.ok(repr((text, kin, kout, kerr, sorted(env.items()))))
            if case["n"] < 3:
                out.sample(dict(info, status=rc, output={k: v.decode("utf8", "replace")[:80] for k, v in got.items() if v}))
        finally:
            for f in set(close):
                try:
                    os.close(f)
                except OSError:
                    pass

    def judge(self, rng, text, exp, cfg, kin, kout, kerr, got, rc, info):
        """got: bytes by sink; the terminal's \\r\\n count as \\n"""
        info = dict(info, status=rc, got={k: v[:400].decode("utf8", "replace") for k, v in got.items()})
        if rc < 0 or (rc == 101 and kout not in ("full", "broken", "small")):
            raise Violation(what="one-shot evaluation crashed", **info)
        o = got["tty" if kout == "tty" else "out"]
        e = o if kerr == "same" else got["tty" if kerr == "tty" else "err"]
        together = kerr == "same" or (kout == kerr == "tty")
        for b in (o, e):
            if b"\x1b" in b and "\x1b" not in text:
                raise Violation(what="escape sequences were written", **info)
        o, e = (x.decode("utf8", "replace").replace("\r\n", "\n") for x in (o, e))
        if exp[0] == "any":
            return
        if kout in ("full", "broken"):
            if exp[0] == "value" and rc == 0:
                raise Violation(what="success although the answer could not be written", **info)
            return
        if kout == "small" and rc != 0 and exp[0] == "value" and len(exp[1]) >= 4096:
            return                  # it said that it couldn't write everything
        if exp[0] == "error":
            if not calc.is_error_text(e) or not e.endswith("\n") or (o and not together):
                raise Violation(what="an error isn't reported on standard error alone", **info)
            return
        if rc != 0:
            raise Violation(what="a nonzero status for an answer", **info)
        if e and not together:
            raise Violation(what="something was written to standard error besides the answer", **info)
        if exp[0] == "value":
            if o != exp[1] + "\n":
                raise Violation(what="standard output isn't exactly the answer", expected=exp[1][:400], **info)
        elif exp[0] == "empty":
            if o != "\n":
                raise Violation(what="standard output isn't exactly an empty answer", **info)
        elif not model.matches(o.rstrip("\n"), exp) or not o.endswith("\n"):
            raise Violation(what="standard output isn't the command's answer", expected=[str(x) for x in exp], **info)


CHECK = C32()
