"""C07: every input line gets an answer: no panic, crash or silent exit."""
import os

from vlib import calc, gen, oneshot, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.session import KEYS, Died, Session

# inputs of the known findings (see known_findings.txt)
KNOWN_INPUTS = {
    "nested-parentheses-20000": "(" * 20000 + "1" + ")" * 20000,
    "negations-50000": "-" * 50000 + "1",
    "sum-of-50000-terms": "1" + "+1" * 50000,
    "nested-calls-20000": "max(" * 20000 + "1" + ")" * 20000,
}
EXITS = (0x03, 0x04, 0x1A)


class C07(Check):
    id = "C07"
    rule = ("one-shot runs of arbitrary lines (random ASCII, control and non-ASCII characters, "
            "token soups, edited expressions, commands with odd arguments, long and deep lines) "
            "under random option combinations including boundary and out-of-range values; "
            "interactive sessions (with and without database, inline and alternate screen) fed "
            "with such lines, lines with answers of up to 72000 digits and with random key/byte streams including broken escape sequences. "
            "Watched: exit status, signals, panic messages, presence of an answer, and a correct "
            "evaluation afterwards. Non-trivial: distinct lines/key streams.")
    assumptions = ("expressions nested or chained beyond the depth of the generators (300 levels, "
                   "600 terms) are only covered by the listed findings",
                   "bracketed paste is not part of the key streams")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i, "kind": ["oneshot", "lines", "keys", "oneshot", "lines"][i % 5]}

    def options(self, rng):
        """random options, sometimes ones that have to be refused"""
        o = []
        bad = False

        def num(lo, hi):
            return rng.choice([lo, hi, rng.randrange(lo, hi + 1)])
        if rng.random() < 0.5:
            v = num(2, 16) if rng.random() < 0.9 else rng.choice([-1, 0, 1, 17, 255, 256, 1000])
            bad |= not 2 <= v <= 16
            o += ["--radix=%d" % v]
        if rng.random() < 0.4:
            v = num(2, 16) if rng.random() < 0.85 else rng.choice([-1, 0, 1, 17, 255, 256])
            bad |= not 2 <= v <= 16
            o += ["--convert-to-radix=%d" % v]
        if rng.random() < 0.5:
            v = num(0, 255) if rng.random() < 0.93 else rng.choice([-1, 256, 65536])
            bad |= not 0 <= v <= 255
            o += ["--precision=%d" % v]
        if rng.random() < 0.4:
            v = num(0, 255) if rng.random() < 0.93 else rng.choice([-1, 256, 65536])
            bad |= not 0 <= v <= 255
            o += ["--extra-precision=%d" % v]
        for f in ("-f", "-c", "-u", "--no-db", "-a"):
            if rng.random() < 0.25:
                o.append(f)
        return o, bad

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        getattr(self, case["kind"])(rng, ctx, out)

    # ---- one-shot ----------------------------------------------------------
    def long_line(self, rng, radix):
        k = rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 7])
        n = rng.choice([50, 150, 300])
        one = "1"
        if k == 0:
            return "(" * n + one + ")" * n
        if k == 1:
            return "-" * n + one
        if k == 2:
            return one + rng.choice(["+1", "-1", "*1", " + 10", "%10", "/1"]) * (2 * n)
        if k == 3:
            return "max(" * n + one + ")" * (n - rng.choice([0, 0, 1]))
        if k == 4:
            return "".join(rng.choice(ref.DIGITS[:radix]) for _ in range(20000))
        if k == 5:
            return "abs " * n + one
        if k == 6:
            # much text that means little: nothing may look at all of it again for each character
            fill = rng.choice([" ", "\t", "_", ",", "0", "\n"]) * rng.choice([40000, 80000, 110000])
            return rng.choice([fill + "1", "1+" + fill + "1", "1" + fill + "1", "1" + fill])
        return rng.choice(["$", "_", " ", ".", "@", ",", ")", "="]) * 5000

    def oneshot(self, rng, ctx, out):
        for j in range(30):
            opts, bad = self.options(rng)
            radix = 10
            for o in opts:
                if o.startswith("--radix="):
                    radix = int(o[8:])
            if rng.random() < 0.06:
                line = self.long_line(rng, radix if 2 <= radix <= 16 else 10)
            elif rng.random() < 0.1:
                line = self.roots(rng)
            else:
                line = gen.noise_line(rng, True)
            if rng.random() < 0.08:
                line = self.edge(rng)
            line = line.replace("\0", "")
            cheap = bad or len(line) > 1000 or gen.cheap(line, radix)
            run = oneshot.ev(ctx.bin, line, opts, timeout=100, cpu=40)
            info = dict(line=line if len(line) < 3000 else line[:200] + "...(%d)" % len(line), argv=opts,
                        run=run.as_dict())
            if run.timeout or run.out_of_cpu:
                if cheap and run.out_of_cpu:
                    raise Violation(what="no answer within 40 CPU seconds", **info)
                out.incon("expensive evaluation")
                continue
            if run.crashed:
                raise Violation(what="the calculator crashed", **info)
            if bad:
                if run.rc != 2 or run.out:
                    raise Violation(what="out-of-range option accepted", **info)
                out.counts["refused options"] += 1
            elif run.value is None and not run.is_error:
                raise Violation(what="neither a result nor an error message", **info)
            else:
                out.counts["one-shot value" if run.value is not None else "one-shot error"] += 1
            out.ok((line, tuple(opts)))
            if j == 0 and len(line) < 80:
                out.sample({"line": line, "options": opts, "stdout": run.out[:80],
                            "stderr": run.err[:80]}, 1)

    def roots(self, rng):
        return rng.choice(["sqrt %s", "(%s)^(1/2)", "(%s)^(1/3)", "sqrt(%s)", "%s^.5", "(%s)^-(1/2)"]) % (
            rng.choice(["2", "0", "1", "0.5", "0.0001", "-1", "-8", "3", "99", "1/3", "100", "0.1", "-0.001",
                        "1.0001", "123456789"]))

    def edge(self, rng):
        return rng.choice(["", " ", "\t", "0", "-", "--", "=", "$", "/", "//", "/ ", "$x=", "$x==1", "=1",
                           "()", "(", ")", ",", "max", "max(", "max()", "max(,)", "max(1,)", "max(,1)",
                           "1/0", "1%0", "0^-1", "0^0", "sqrt", "sqrt()", "sqrt -1", "sqrt 0", "0^(1/2)",
                           "0^(-1/2)", "abs", "abs()", "1^(1/0)", "0%0", "0/0", "-0", "0*-1", "5%-0",
                           "1e5", "1 2", "1(2)", "(1)(2)", "2$x", "$x$y", "$x $y", "-$x", "/h /h",
                           "(-8)^(1/3)", "(-1)^(1/2)", "0.5^0.5", "1^99999999999999999999999",
                           "(-1)^99999999999999999999999", "0^99999999999999999999999", ".", "_", "._",
                           "..", "1..", "/radix", "/radix 99", "/p 255 255", "/histcap 0", "/help nosuch"])

    # ---- lines in sessions ---------------------------------------------------
    def start(self, rng, ctx, **kw):
        argv = []
        env = {}
        if rng.random() < 0.5:
            d = ctx.tmpdir()
            env["_B_UTIL_DATA_DIR"] = d
        elif rng.random() < 0.5:
            argv.append("--no-db")
        if rng.random() < 0.3:
            argv.append("-a")
        if rng.random() < 0.3:
            argv += ["--radix", str(rng.randrange(2, 17))]
        rows, cols = rng.choice([(50, 20000), (24, 80), (5, 20), (1, 10), (2, 5), (60, 200), (10, 5000)])
        return Session(ctx.bin, argv, env, rows=rows, cols=cols, **kw), argv, (rows, cols)

    def lines(self, rng, ctx, out):
        s, argv, size = self.start(rng, ctx)
        sent = []
        try:
            radix = 10
            # the size is known to the session, so wrapping is no problem here:
            # only the appearance of the next prompt counts
            for j in range(40):
                line = gen.noise_line(rng)
                if rng.random() < 0.05:
                    line = rng.choice(["(" * 100 + "1" + ")" * 100, "1" + "+1" * 100, "9" * 300])
                elif rng.random() < 0.015:
                    # a very long answer
                    line = rng.choice(["16^%d", "2^%d*4", "7^%d", "3^-%d"]) % rng.choice([2000, 20000, 60000])
                    s.send(b"/radix 10\r")
                    s.wait_prompt(20)
                    line = line.replace("3^-", "1/3^")
                    sent.append(line)
                    s.send(line.encode() + b"\r")
                    s.wait_prompt(60)
                    out.ok(line)
                    out.counts["very long answers"] += 1
                    continue
                if not gen.cheap(line, 10) or not gen.cheap(line, 16):
                    continue
                sent.append(line)
                s.send(line.encode() + b"\r")
                s.wait_prompt(20)
                out.ok(line)
                out.counts["session lines"] += 1
            self.sanity(s, sent, argv, size, out)
            if rng.random() < 0.02:
                out.sample({"session lines": sent[:6], "argv": argv, "size": size}, 1)
            s.close()
        except Died as d:
            raise Violation(what="a line ended the session", lines=sent[-5:], argv=argv, size=size,
                            status=s.status, screen=self.tail(s))
        finally:
            s.kill()

    def tail(self, s):
        sc = s.emu.main
        return ([t for t in (sc.scrolled + [sc.text(i) for i in range(sc.rows)]) if t])[-6:]

    def sanity(self, s, sent, argv, size, out):
        for line in ("/radix 10", "/converttoradix none", "/fractional f", "/commas f", "/precision 5"):
            s.send(line.encode() + b"\r")
            s.wait_prompt(20)
        s.send(b"12*3+6\r")
        s.wait_prompt(20)
        s.settle()
        sc = s.emu.s
        row = s.emu.dsr_marks[-1][1] - 1
        got = sc.abs_text(row) if row >= 0 else None
        if got is not None and sc.rows > 1 and got != "42":
            raise Violation(what="wrong evaluation afterwards", expected="42", got=got, lines=sent[-10:],
                            argv=argv, size=size)
        out.counts["evaluations afterwards"] += 1

    # ---- key streams ---------------------------------------------------------
    def chunk(self, rng):
        k = rng.random()
        if k < 0.3:
            return KEYS[rng.choice([x for x in KEYS if x not in ("enter", "c-c", "c-d", "c-z")])]
        if k < 0.5:
            return bytes([rng.randrange(32, 127)])
        if k < 0.6:
            return rng.choice([b"(", b")", b"((", b"))"]) + rng.choice([b"", b"\x0e", b"\x1b[D\x0e"])
        if k < 0.68:
            b = rng.randrange(256)
            if b in EXITS or b in (13, 0x1B):
                b = 65
            return bytes([b]) + b"  "
        if k < 0.76:
            return rng.choice(["\xe9", "\u20ac", "\U0001f600", "\u0301", "\u3000"]).encode()
        if k < 0.9:
            # function keys, modifiers, mouse, focus, alt combinations, key releases
            return rng.choice([b"\x1b[5~", b"\x1b[6~", b"\x1b[2~", b"\x1bOP", b"\x1bOQ", b"\x1b[15~",
                               b"\x1b[24~", b"\x1b[I", b"\x1b[O", b"\x1b[Z", b"\x1ba", b"\x1bz",
                               b"\x1b[1;3A", b"\x1b[1;5A", b"\x1b[1;2B", b"\x1b[1;6D", b"\x1b[1;5H",
                               b"\x1b[1;5F", b"\x1b[3;5~", b"\x1b[<0;5;5M", b"\x1b[<0;5;5m",
                               b"\x1b[M !!", b"\x1b[97;5u", b"\x1b[97;2u", b"\x1b[57442u", b"\x1b[1~",
                               b"\x1b[4~", b"\x1b[7~", b"\x1b[8~", b"\x1bOH", b"\x1bOF", b"\x1b[E",
                               b"\x1b[97;5:3u", b"\x1b[109;5u", b"\x1b[110;5u"])
        # broken sequences, closed by bytes that end any of them
        n = rng.randrange(0, 4)
        body = bytes(rng.choice(b"0123456789;:<?") for _ in range(n))
        return b"\x1b[" + body + rng.choice([b"x", b"q", b"~", b"Z"]) + b"xx"

    def enter(self, s):
        """Enter, after ending any sequence still being collected"""
        s.settle(20)
        before = s.emu.dsr
        s.send(b"ucmM~x")
        s.settle(20)
        if s.emu.dsr == before:
            s.send(b"\r")
            s.wait_for(lambda: s.emu.dsr > before, 20)
        s.settle(20)
        s.prompts = s.emu.dsr

    def keys(self, rng, ctx, out):
        s, argv, size = self.start(rng, ctx)
        sent = []
        try:
            for j in range(12):
                n = rng.choice([1, 3, 10, 30])
                data = b"".join(self.chunk(rng) for _ in range(n))
                if b"200~" in data or b"R" in data:
                    continue
                sent.append(data)
                if rng.random() < 0.2:
                    rows, cols = rng.choice([(50, 300), (24, 80), (5, 20), (2, 5), (3, 7)])
                    s.resize(rows, cols)
                s.send(data)
                s.settle(30)
                if rng.random() < 0.6:
                    self.enter(s)
                out.ok(data)
                out.counts["key bursts"] += 1
            self.enter(s)
            self.sanity(s, [repr(x) for x in sent], argv, size, out)
            s.close()
        except Died:
            raise Violation(what="key presses ended the session", keys=[repr(x) for x in sent[-4:]],
                            argv=argv, size=size, status=s.status, screen=self.tail(s))
        finally:
            s.kill()

    def known_finding(self, ctx, key):
        if key not in KNOWN_INPUTS:
            return False
        r = oneshot.ev(ctx.bin, KNOWN_INPUTS[key], [], timeout=60)
        return r.rc in (-6, -11) and not r.timeout


CHECK = C07()
