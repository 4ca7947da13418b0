"""C30: an answer depends on the line, the settings and the variables alone."""
from vlib import calc, gen, model, oneshot, ref
from vlib.core import Check, Violation
from vlib.session import Died, Session

NAMES = ["$x", "$y", "$total", "$X"]

INERT = ["1+1", "$", "hello", "1/0", "sqrt 1", "/nosuch", "", "(1", "$nonesuch", "/help", "/radix", "1_2", "/purgevar $nonesuch",
         "$nonesuch=1/0", "1 1"]


def same_text(a, b, narrow=False):
    """answers are compared without trailing blanks (a screen has none), and
    those broken into rows by a window without any blanks"""
    if narrow:
        return "".join(a.split()) == "".join(b.split())
    strip = lambda t: "\n".join(x.rstrip() for x in t.rstrip("\n").split("\n")).rstrip()
    return strip(a) == strip(b)


class C30(Check):
    id = "C30"
    timeshim = True
    rule = ("the same sequence of lines (exact and irrational expressions, malformed ones, "
            "assignments and uses, setting commands, repetitions, some sessions with lines of no consequence in between) goes to sessions of several "
            "kinds (inline, alternate screen, narrow or wide window, with a database, without, other history) "
            "and, for lines without variables, to fresh one-shot runs with the settings then in "
            "force (in some of them time passes up to 100000 times faster, on other days; also at the end of sessions of hundreds of lines); all answers, including error messages, have to be the same, and a repeated "
            "line has to give its first answer as long as settings and variables are the same. "
            "Non-trivial: distinct (settings, line).")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def root(self, rng, cfg):
        """an expression with an irrational (or possibly irrational) value"""
        n = ref.to_radix(rng.choice([2, 3, 5, 7, 8, 10, 27, 50, 99, 1000, 12345, rng.randrange(1, 10 ** 6)]), cfg.radix)
        d = ref.to_radix(rng.choice([2, 3, 4, 5]), cfg.radix)
        deep = cfg.radix < 8 or cfg.precision + cfg.extra > 80
        if deep:
            return rng.choice(["sqrt %s", "sqrt(%s)", "1-sqrt %s"]) % n
        return rng.choice(["sqrt %s" % n, "sqrt(%s)+1" % n, "%s^(1/%s)" % (n, d), "%s^-(1/%s)" % (n, d), "(1/%s)^(1/%s)" % (n, d),
                           "-sqrt %s" % n, "sqrt(%s/%s)" % (n, d), "(sqrt %s)^%s" % (n, d), "sqrt %s * sqrt %s" % (n, n),
                           "max(sqrt %s, 1)" % n, "(-%s)^(1/%s)" % (n, d), "1 %% sqrt %s" % n])

    def line(self, rng, cfg, earlier):
        k = rng.random()
        if k < 0.2 and earlier:
            return earlier[-1] if rng.random() < 0.4 else rng.choice(earlier)
        if k < 0.35:
            return gen.render(rng, gen.tree(rng, cfg.radix, rng.choice([1, 2, 3, 5]), 20))
        if k < 0.5:
            return self.root(rng, cfg)
        if k < 0.58:
            n = rng.choice(NAMES)
            e = self.root(rng, cfg) if rng.random() < 0.2 else gen.render(rng, gen.tree(rng, cfg.radix, rng.choice([1, 2]), 12, ops="+-*/"))
            return "%s = %s" % (n, e)
        if k < 0.68:
            n = rng.choice(NAMES)
            return rng.choice(["%s", "%s*2", "-%s", "%s-%s", "max(%s,1)", "%s/7", "abs %s", "%s = %s/3", "%s=-%s", "%s=%s+1", "%s = %s+%s"]).replace("%s", n)
        if k < 0.7:
            return "/purgevar " + rng.choice(NAMES)
        if k < 0.84:
            return rng.choice(["/precision %d" % rng.choice([0, 1, 5, 20, 60]), "/precision %d %d" % (rng.choice([3, 30]), rng.choice([0, 5, 20])),
                               "/radix %d" % rng.choice([10, 16, 2, 8, 3]), "/fractional t", "/f f", "/commas t", "/comma f", "/upper t",
                               "/upper f", "/converttoradix %d" % rng.randrange(2, 17), "/converttoradix none", "/r 10", "/radix",
                               "/precision", "/upper", "/f", "/commas", "/converttoradix", "/help radix", "/help f", "/nosuch", "/radix 99"])
        t = gen.noise_line(rng)
        t = "".join(c for c in t if 32 <= ord(c) < 127)
        low = t.lstrip().lower()
        if low.startswith(("/histcap", "/reload", "/help", "/h")):
            return "(" + t
        return t

    def kinds(self, rng, ctx):
        out = [("inline", ["--no-db"], {}), ("alternate", [rng.choice(["-a", "--alternate-screen"]), "--no-db"], {}),
               ("database", [], {"_B_UTIL_DATA_DIR": ctx.tmpdir()}), ("alternate with database", ["-a"], {"_B_UTIL_DATA_DIR": ctx.tmpdir()}),
               ("no directory", [], {})]
        rng.shuffle(out)
        return out[:rng.choice([2, 2, 3])]

    def long(self, rng, ctx, out):
        """a session of hundreds of lines: what was answered at its beginning
        is answered at its end"""
        cfg = ref.Config(precision=rng.choice([5, 20, 60]), extra=rng.choice([0, 10, 30]), fractional=rng.random() < 0.2)
        argv = cfg.options(rng) + ["--no-db"]
        probes = [self.root(rng, cfg) for _ in range(6)] + ["1/3", "2^100", "$a*7", "$nosuch", "(1", "/precision", "0.1+0.2", "7 %% 4".replace("%%", "%"),
                                                             "max(1,2,3)", "/help", "/nosuch", "abs -5", "1/0", "sqrt 16", "16^(1/4)"]
        s = Session(ctx.bin, argv, ctx.fast_time(rng) if rng.random() < 0.5 else {}, rows=60, cols=9000)
        first = {}
        try:
            s.ask("$a=22/7")
            for p in probes:
                first[p] = s.ask(p, 60)
            total = rng.choice([60, 150, 400])
            kind = rng.choice(["sqrt %d", "%d+1", "$b%d=3", "%d^(1/3)", "%d/0", "(%d", "hello%d", "max(%d,2)", "/nosuch%d", "2^%d", "%d", None])
            i = 0
            while i < total:
                i += 1
                s.ask((kind or rng.choice(["sqrt %d", "%d+1", "$b%d", "2^%d", "(%d"])) % (rng.randrange(300) if rng.random() < 0.5 else i), 60)
                if i % 50 == 0 or i == total:
                    for p in probes:
                        got = s.ask(p, 60)
                        if got != first[p]:
                            raise Violation(what="a line is answered differently late in a session", line=p, first=first[p], now=got, lines=i, kind=kind,
                                            argv=argv)
                        out.counts["answers compared late in long sessions"] += 1
                        out.ok(repr((argv, p)))
            s.close()
        except Died:
            raise Violation(what="the calculator ended", status=s.status, argv=argv, kind=kind)
        finally:
            s.kill()

    def commands(self, rng, ctx, out):
        """commands that name several variables, in sessions on the same saved data"""
        root = ctx.tmpdir()
        env = {"_B_UTIL_DATA_DIR": root}
        names = rng.sample(["$a", "$b", "$c", "$A", "$x1", "$total", "$_", "$zz", "$k9", "$long_name_of_a_variable"], rng.choice([2, 3, 5, 8]))
        fresh = []
        sessions = []
        try:
            for _ in range(rng.choice([2, 3])):
                fresh.append(Session(ctx.bin, rng.choice([[], [], ["-a"]]), env, rows=60, cols=3000))
            sessions = list(fresh)
            for n in names:
                if rng.random() < 0.85:
                    sessions[0].ask("%s = %d/%d" % (n, rng.randrange(10 ** 6), rng.choice([1, 2, 7])))
            said = []
            # once in all of them: afterwards all have the same variables
            for rep in range(rng.choice([3, 4])):
                listed = rng.sample(names, rng.randrange(2, len(names) + 1))
                if rng.random() < 0.3:
                    listed.insert(rng.randrange(len(listed) + 1), rng.choice(listed))
                line = rng.choice(["/reloadvar ", "/reloadvar  ", " /reloadvar "]) + " ".join(listed)
                if rng.random() < 0.12:
                    line += rng.choice([" 1", " $a+", " x", " ="])
                answers = [s.ask(line) for s in sessions]
                answers += [rng.choice(sessions).ask(line) for _ in range(3)]
                said.append((line, answers[0]))
                for a in answers[1:]:
                    if not same_text(a, answers[0]):
                        raise Violation(what="the same command has different answers", line=line, answers=[answers[0], a], said=said[-5:])
                    out.ok(repr((line, a)))
                out.counts["answers of commands that name several variables"] += len(answers)
            for s in sessions:
                s.close()
        except Died:
            raise Violation(what="the calculator ended", names=names)
        finally:
            for s in fresh:
                s.kill()

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        if case["n"] % 12 == 7:
            return self.long(rng, ctx, out)
        if case["n"] % 12 == 3:
            return self.commands(rng, ctx, out)
        cfg = gen.config(rng)
        cfg.precision = min(cfg.precision, 60)
        cfg.extra = min(cfg.extra, 30)
        argv = cfg.options(rng)
        m = model.Session(cfg)
        kinds = self.kinds(rng, ctx)
        narrow = rng.random() < 0.25
        sessions = []
        diverted = set(name for name, _, _ in kinds[1:] if rng.random() < 0.7)
        recent, earlier, first = [], [], {}
        epoch = 0                       # changes when a setting or variable might have
        try:
            for name, more, env in kinds:
                if rng.random() < 0.3:
                    env = dict(env, **ctx.fast_time(rng))
                    out.counts["sessions in which time passes faster"] += 1
                s = Session(ctx.bin, argv + more, env, rows=rng.choice([50, 60]), cols=160 if narrow and not sessions else rng.choice([20000, 9000]))
                sessions.append((name, s))
                if rng.random() < 0.5:
                    # another past, of no consequence
                    for t in rng.sample(["1+1", "$otherpast=5", "hello", "1/0", "sqrt 2", "/nosuch", "$otherpast2=sqrt 3", "", "2^100", "/purgevar $x"],
                                        rng.randrange(1, 6)):
                        if cfg.radix == 10 or not any(c.isdigit() for c in t):
                            s.ask(t)
            for j in range(45):
                line = self.line(rng, cfg, earlier)
                if narrow and len(line) > 150:
                    continue
                quick = gen.cheap(line, cfg.radix, m.vars)
                if not quick and "sqrt" not in line and "^" not in line:
                    continue
                if not quick and not self.tame(line, cfg, earlier):
                    continue
                answers = []
                for name, s in sessions:
                    if name in diverted and rng.random() < 0.3:
                        # other lines in between, of no consequence
                        s.ask(rng.choice(INERT), 60)
                        out.counts["inert lines in between"] += 1
                    try:
                        answers.append((name, s.ask(line, 60)))
                    except Died:
                        raise Violation(what="the calculator ended", kind=name, line=line, status=s.status, argv=argv, recent=recent[-10:])
                got = answers[0][1]
                info = dict(line=line, settings=cfg.as_dict(), recent=recent[-10:])
                for name, a in answers[1:]:
                    if not same_text(a, got, narrow):
                        raise Violation(what="the answer depends on the kind of session", answers=answers, **info)
                out.ok(repr((cfg.as_dict(), line)), n=len(answers))
                out.counts["answers compared between sessions"] += len(answers) - 1
                cmd = line.lstrip(ref.WS).startswith("/")
                if not cmd and "$" not in line and cfg.precision + cfg.extra < 256 and rng.random() < 0.5:
                    opts = cfg.options(rng)
                    if rng.random() < 0.2:
                        opts.append(rng.choice(["-a", "--no-db"]))
                    r = oneshot.run(ctx.bin, opts + ["--input=" + line], timeout=60, env=ctx.fast_time(rng) if rng.random() < 0.3 else None)
                    if r.timeout:
                        out.incon("one-shot timed out")
                    else:
                        fresh = r.out or r.err
                        if r.crashed or not same_text(fresh, got, narrow):
                            raise Violation(what="a fresh one-shot run answers differently", fresh=r.as_dict(), got=got, **info)
                        out.counts["answers compared with one-shot runs"] += 1
                        out.ok()
                key = (epoch, line)
                if key in first:
                    if not same_text(first[key], got, narrow):
                        raise Violation(what="a repeated line has another answer", first=first[key], now=got, **info)
                    out.counts["repeated lines compared"] += 1
                first[key] = got
                recent.append((line, got[:60]))
                earlier.append(line)
                if cmd:
                    m.submit(line)
                    epoch += 1
                elif "=" in line:
                    epoch += 1
                    # only for the cost of later lines
                    try:
                        m.submit(line)
                    except (ref.TooBig, ref.Inexact):
                        pass
            for name, s in sessions:
                s.close()
            out.counts["sessions"] += len(sessions)
            if case["n"] < 3:
                out.sample({"kinds": [k[0] for k in kinds], "argv": argv, "lines": recent[:8]})
        finally:
            for name, s in sessions:
                s.kill()

    def tame(self, line, cfg, earlier):
        """lines outside the exact domain that certainly have a small cost:
        made by root(), or an assignment of one"""
        body = line.split("=")[-1].strip()
        return self.is_root(body)

    def is_root(self, t):
        return len(t) < 40 and t.count("sqrt") <= 2 and "$" not in t and (
            "sqrt" in t and t.count("^") <= 1 and "_" not in t and all(len(w) <= 22 for w in t.split()) and self.small(t)
            or t.count("^") == 1 and "(1/" in t and len(t) < 36 and self.small(t))

    def small(self, t):
        return set(t) <= set("0123456789abcdef^()/*+-%, sqrtmx")


CHECK = C30()
