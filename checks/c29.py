"""C29: command-line options select exactly the documented settings."""
import os
import re
import termios

from checks.c23 import tree
from vlib import calc, gen, model, oneshot, ref
from vlib.core import Check, Violation
from vlib.session import Died, Session

VALUED = {"radix": "r", "convert-to-radix": None, "precision": "p", "extra-precision": None}
FLAGS = {"fractional": "f", "commas": "c", "upper": "u"}
LONG = sorted(VALUED) + sorted(FLAGS) + ["input", "alternate-screen", "no-db", "help", "version"]
QUERIES = ("/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper")


class C29(Check):
    id = "C29"
    rule = ("random sets of options in every order and spelling (long, short, joined, separate, "
            "short flags combined): the answers of one-shot runs and the settings told by an "
            "interactive session, its screen and its use of saved data, are compared with the "
            "documented meaning and defaults; unusable command lines (values out of range, of "
            "the wrong kind or missing, unknown options, stray arguments) added to usable ones "
            "have to be refused with a message, a nonzero status and no effect on terminal or "
            "files. Non-trivial: distinct command lines.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    # ---- spelling ----
    def valued(self, rng, name, value):
        short = VALUED.get(name) if name != "input" else "i"
        forms = [["--%s" % name, value], ["--%s=%s" % (name, value)]]
        if value.startswith("-") or not value:
            forms = forms[1:]
        elif short:
            forms += [["-" + short, value], ["-%s%s" % (short, value)], ["-%s=%s" % (short, value)]]
            if value.startswith("="):
                forms = forms[:3]
        return rng.choice(forms)

    def settings(self, rng):
        """-> Config, list of groups of arguments that select it"""
        cfg = ref.Config()
        groups, flags = [], []
        edge = lambda *a: rng.choice(a)
        if rng.random() < 0.6:
            cfg.radix = edge(2, 16, 10, rng.randrange(2, 17))
            groups.append(self.valued(rng, "radix", str(cfg.radix)))
        if rng.random() < 0.4:
            cfg.convert = edge(2, 16, 10, rng.randrange(2, 17))
            groups.append(self.valued(rng, "convert-to-radix", str(cfg.convert)))
        if rng.random() < 0.6:
            cfg.precision = edge(0, 1, 5, 255, 128, rng.randrange(256))
            groups.append(self.valued(rng, "precision", str(cfg.precision)))
        if rng.random() < 0.4:
            cfg.extra = edge(0, 1, 10, 255, rng.randrange(256))
            groups.append(self.valued(rng, "extra-precision", str(cfg.extra)))
        for name, short in FLAGS.items():
            if rng.random() < 0.4:
                setattr(cfg, name, True)
                if rng.random() < 0.6:
                    flags.append(short)
                else:
                    groups.append(["--" + name])
        return cfg, groups, flags

    def join(self, rng, groups, flags):
        """short flags alone or combined, everything shuffled"""
        flags = list(flags)
        rng.shuffle(flags)
        groups = [list(g) for g in groups]
        while flags:
            n = rng.randrange(1, len(flags) + 1)
            g, flags = flags[:n], flags[n:]
            word = "-" + "".join(g)
            shorts = [x for x in groups if re.match(r"-[rp]", x[0]) and not x[0].startswith("--")]
            if shorts and rng.random() < 0.3:
                # flags before a short option that takes a value
                x = rng.choice(shorts)
                x[0] = word + x[0][1:]
            else:
                groups.append([word])
        rng.shuffle(groups)
        return sum(groups, [])

    def probe(self, rng, cfg):
        """an expression whose answer shows the settings"""
        while True:
            k = rng.random()
            if k < 0.6:
                v = gen.rational(rng)
                t = gen.value_text(rng, v, cfg.radix)
            else:
                t = gen.render(rng, gen.tree(rng, cfg.radix, rng.choice([1, 2, 3]), 15, ops="+-*/"))
            try:
                exp = ref.answer(t, cfg)
            except (ref.TooBig, ref.Inexact):
                continue
            if "\t" not in t and len(t) < 1000:
                return t, exp

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        kind = case["n"] % 4
        if kind == 0:
            for _ in range(12):
                self.oneshot(rng, ctx, out, case)
        elif kind == 1:
            self.session(rng, ctx, out, case)
        elif kind == 2:
            for _ in range(12):
                self.refused(rng, ctx, out, case)
        else:
            self.refused_session(rng, ctx, out, case)
            if rng.random() < 0.3:
                self.informs(rng, ctx, out)

    def oneshot(self, rng, ctx, out, case):
        cfg, groups, flags = self.settings(rng)
        t, exp = self.probe(rng, cfg)
        groups.append(self.valued(rng, "input", t))
        if rng.random() < 0.1:
            groups.append(["--no-db"])
        if rng.random() < 0.1:
            flags.append("a")
        argv = self.join(rng, groups, flags)
        r = oneshot.run(ctx.bin, argv)
        if exp[0] == "value":
            good = r.rc == 0 and r.out == exp[1] + "\n" and not r.err
        else:
            good = not r.out.strip() and calc.is_error_text(r.err) and not r.crashed
        if not good:
            raise Violation(what="the options don't have the documented effect", argv=argv, settings=cfg.as_dict(),
                            expected=[str(x) for x in exp[:2]], got=r.as_dict())
        out.counts["one-shot command lines"] += 1
        out.ok(repr(argv))

    def session(self, rng, ctx, out, case):
        cfg, groups, flags = self.settings(rng)
        root = ctx.tmpdir()
        alt, nodb = rng.random() < 0.4, rng.random() < 0.4
        if alt:
            if rng.random() < 0.5:
                flags.append("a")
            else:
                groups.append(["--alternate-screen"])
        if nodb:
            groups.append(["--no-db"])
        argv = self.join(rng, groups, flags)
        info = dict(argv=argv, settings=cfg.as_dict())
        m = model.Session(cfg, None if nodb else model.Store())
        recent = []
        try:
            s = Session(ctx.bin, argv, {"_B_UTIL_DATA_DIR": root}, rows=50, cols=20000)
        except Died as d:
            raise Violation(what="a usable command line was refused", status=d.session.status, **info)
        try:
            if s.emu.in_alt != alt:
                raise Violation(what="the alternate screen is used without the option" if s.emu.in_alt else
                                "the alternate screen isn't used with the option", **info)
            if bool(os.listdir(root)) == nodb:
                raise Violation(what="saved data is%s used" % ("" if nodb else " not"), files=os.listdir(root), **info)
            lines = list(QUERIES) + ["/histcap"]
            rng.shuffle(lines)
            for _ in range(4):
                lines.insert(rng.randrange(len(lines) + 1), self.probe(rng, cfg)[0])
            for line in lines:
                if line == "/precision" and rng.random() < 0.5:
                    line = "/p"
                exp = m.submit(line)
                got = s.ask(line)
                recent.append((line, got[:80]))
                model.check(got, exp, line, recent, **info)
                out.ok(repr((argv, line)))
            out.counts["sessions"] += 1
            if case["n"] < 8:
                out.sample({"argv": argv, "answers": recent[:6]})
            if s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status, **info)
        except Died:
            raise Violation(what="the calculator ended", status=s.status, **info)
        finally:
            s.kill()

    # ---- refused command lines ----
    def bad(self, rng):
        """-> arguments that make every command line unusable"""
        k = rng.randrange(9)
        junk = ["x", "1.5", "ten", "0x10", "1e1", "$x", "--5", "1 0", " 10", "10 ", "5,5", "none", "NaN", "99999999999999999999",
                "-99999999999999999999", "1_0", "a", "/", "\u0665", "1\n", "5-", "18446744073709551626", "4294967306", "65546"]
        if k <= 1:
            v = rng.choice(["0", "1", "17", "-1", "-10", "18", "255", "256", "258", "266", "1000"] + junk + [""])
            return self.valued(rng, rng.choice(["radix", "convert-to-radix"]), v)
        if k <= 3:
            v = rng.choice(["256", "-1", "257", "300", "511", "1000", "65536", "65541", "-5", "261"] + junk + [""])
            return self.valued(rng, rng.choice(["precision", "extra-precision"]), v)
        if k == 4:
            return [rng.choice(["--nosuch", "-x", "-z", "--radixes", "--precision-extra", "--db", "--Radix", "-F", "-R", "-P", "-q",
                                "--fraction-al", "--no-database", "--convert", "-1", "-5+3", "--history", "-d", "-s", "--=5"])] \
                if rng.random() < 0.85 else ["--" + "".join(rng.choice("bdgjklmoqstvwxyz") for _ in range(rng.choice([3, 8])))]
        if k == 5:
            return [rng.choice(["1+1", "7", "help", "/help", "16", "$x", "true", "", "radix", "r", "=", " "])]
        if k == 6:
            return [rng.choice(["--fractional=true", "--commas=1", "--upper=false", "--no-db=1", "--alternate-screen=x",
                                "--fractional=", "-f=1", "-c5", "-u1", "-a=t"])]
        if k == 7:
            return ["LAST", rng.choice(["--radix", "-r", "--precision", "-p", "--convert-to-radix", "--extra-precision"])]
        return ["--radix", "--precision"] if rng.random() < 0.3 else self.valued(rng, "radix", rng.choice(["", "=", "16=", "==5"]))

    def unusable(self, rng, oneshot_too):
        cfg, groups, flags = self.settings(rng)
        b = self.bad(rng)
        # an option given twice has no documented meaning: leave out the good one
        name = re.sub(r"=.*", "", b[-1] if b[0] == "LAST" else b[0]).lstrip("-")
        drop = [n for n, sh in list(VALUED.items()) + list(FLAGS.items()) if name == n or (sh and name[:1] == sh)]
        if len(b) > 1 or "=" in b[0] or re.match(r"-[a-z].", b[0]):
            groups = [g for g in groups if not any(g[0].startswith("--" + n) or (
                VALUED.get(n) and re.match("-" + VALUED[n], g[0])) for n in drop)]
            flags = [f for f in flags if f != name[:1]]
        if rng.random() < 0.5:
            groups, flags = [], []
        if oneshot_too:
            groups.append(self.valued(rng, "input", rng.choice(["1+1", "2^100", "7"])))
        argv = self.join(rng, groups, flags)
        if b[0] == "LAST":
            return argv + b[1:]
        # between the groups of arguments
        starts = [0, len(argv)]
        at = rng.choice(starts)
        return argv[:at] + b + argv[at:]

    def judge_refusal(self, rc, out_text, err_text, argv):
        info = dict(argv=argv, status=rc, out=out_text[:400], err=err_text[:400])
        if rc == 0:
            raise Violation(what="an unusable command line is accepted", **info)
        if rc < 0 or rc == 101 or "panicked" in err_text:
            raise Violation(what="an unusable command line crashes the calculator", **info)
        if not err_text.strip():
            raise Violation(what="an unusable command line is refused without a message", **info)

    def refused(self, rng, ctx, out, case):
        argv = self.unusable(rng, True)
        if any("\0" in a for a in argv):
            return
        root = ctx.tmpdir()
        r = oneshot.run(ctx.bin, argv, env={"_B_UTIL_DATA_DIR": root})
        self.judge_refusal(r.rc, r.out, r.err, argv)
        if r.out.strip():
            raise Violation(what="an unusable command line is answered", argv=argv, got=r.as_dict())
        if os.listdir(root):
            raise Violation(what="an unusable command line creates files", argv=argv)
        os.rmdir(root)
        out.counts["command lines refused"] += 1
        out.ok(repr(argv))

    def refused_session(self, rng, ctx, out, case):
        argv = self.unusable(rng, False)
        if rng.random() < 0.4:
            argv = ["-a"] + argv
        root = ctx.tmpdir()
        before = tree(root)
        s = Session(ctx.bin, argv, {"_B_UTIL_DATA_DIR": root}, rows=50, cols=500, start=False)
        try:
            try:
                s.wait_prompt()
                raise Violation(what="an unusable command line starts a session", argv=argv)
            except Died:
                pass
            text = "\n".join("".join(x).rstrip() for x in s.emu.main.lines if x)
            self.judge_refusal(s.status, "", text, argv)
            if s.emu.alt_entered or s.emu.modes:
                raise Violation(what="an unusable command line changes the screen", argv=argv, modes=s.emu.modes)
            if s.slave is not None and termios.tcgetattr(s.slave) != s.modes0:
                raise Violation(what="an unusable command line changes the terminal's modes", argv=argv)
            if tree(root) != before:
                raise Violation(what="an unusable command line changes files", argv=argv)
            out.counts["sessions refused"] += 1
            out.ok("session " + repr(argv))
        finally:
            s.kill()

    def informs(self, rng, ctx, out):
        _, groups, flags = self.settings(rng)
        argv = self.join(rng, groups, flags)
        h = rng.choice(["--help", "-h"])
        r = oneshot.run(ctx.bin, [h] + argv if rng.random() < 0.5 else argv + [h])
        missing = [n for n in LONG if "--" + n not in r.out]
        if r.rc != 0 or r.err.strip() or missing:
            raise Violation(what="--help doesn't describe every option", argv=argv, missing=missing, got=r.as_dict())
        v = rng.choice(["--version", "-V"])
        r = oneshot.run(ctx.bin, [v] + argv if rng.random() < 0.5 else argv + [v])
        if r.rc != 0 or r.err.strip() or not re.fullmatch(r"bcalc \d+\.\d+\.\d+\S*\n", r.out):
            raise Violation(what="--version doesn't tell the version", argv=argv, got=r.as_dict())
        out.counts["help and version"] += 1
        out.ok()


CHECK = C29()
