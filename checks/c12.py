"""C12: invalid commands and arguments are rejected without any effect."""
from fractions import Fraction

from vlib import calc, gen, model, ref
from vlib.core import Check, Violation

QUERIES = ("/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper", "/histcap")


class C12(Check):
    id = "C12"
    rule = ("sessions (with and without a database) with random settings and variables, fed "
            "with unknown commands, arguments of the wrong kind, values at and beyond every "
            "limit, wrong numbers of arguments, and valid boundary values; each answer is "
            "compared with the command model, and after each rejected command settings, "
            "variables and capacity are read back. Non-trivial: distinct rejected commands.")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def decimal(self, rng, cfg):
        """a literal that isn't an integer, close to one, or in other ways only just wrong"""
        n = rng.choice([2, 3, 5, 10, 16, 100, 0, 1, 255, rng.randrange(0, 300)])
        k = rng.choice([0, 1, 2, 5, 8, 9, 10, 12, 15, 16, 18, 20, 30, 50, 100])
        z = rng.choice(["0" * k + "1", "9" * (k + 1), "5", "5" + "0" * k, "25", "3" * (k + 1), "0" * k + "5" + "0" * k])
        if k < 100 and rng.random() < 0.2:
            z = "_".join(z)
        return rng.choice(["%d.%s", "%d.%s", "%d.%s", "-%d.%s"]) % (n, z) if n or rng.random() < 0.5 else "." + z

    def invalid(self, rng, cfg):
        k = rng.randrange(13)
        if k == 12:
            a = self.decimal(rng, cfg)
            return rng.choice(["/radix %s", "/r %s", "/converttoradix %s", "/precision %s", "/p %s", "/precision 5 %s",
                               "/precision %s 5", "/histcap %s", "/purgevar %s", "/f %s", "/reloadvar %s"]) % a
        ints = rng.choice(["x", "1.5", "--2", "- -2", "2-", "-", "1/2", "2+3", "(5)", "$x", "5,5", "0x10", "ten",
                           "9223372036854775808", "-9223372036854775809", "99999999999999999999999",
                           "1e1", "a", "f", "1 2.5", "3 x", "/5", "max", "=", "5=", "1 -", "\x7e", "8 /p",
                           "2 . 5", "..", "_", "."])
        if k == 0:
            return "/" + rng.choice(["", " ", "nosuch", "Help", "RADIX", "radix10", "rr", "p5", "histCap", "fraction",
                                     "comma s", "purge", "reload", "quit", "exit", "/help", "help/", "r=5",
                                     "precision,", "upper:", "$x", "1+1", "converttoradix10", "H", "R", "F", "P",
                                     "-r", "--radix", "set", "x", "0", "history", "var", "c", "u", "n", "hist"])
        if k == 1:
            return "/%s %s" % (rng.choice(["radix", "r"]),
                               rng.choice(["0", "1", "17", "-2", "-10", "256", "258", "266", "65546", "4294967306",
                                           "18446744073709551626", "-246", "16 16", "10 10", "2 3 4", "none", ints]))
        if k == 2:
            return "/converttoradix %s" % rng.choice(["0", "1", "17", "-2", "256", "258", "272", "65552", "16 16", "none none",
                                                      "none 5", "non", "null", "n", ints, "-16", "4294967312"])
        if k in (3, 4):
            n = rng.choice(["precision", "p"])
            e = cfg.extra
            choices = ["-1", "256", "-5", "65536", "261", "4294967301", "5 256", "5 -1", "256 0", "-1 5",
                       "200 56", "255 1", "1 255", "128 128", "255 255", "5 5 5", "0 0 0", "1 2 3 4",
                       "200 312", "-0 -1", ints, "5 " + ints]
            if e:
                choices += [str(256 - e), "255", str(min(255, 257 - e))]
            a = rng.choice(choices)
            return "/%s %s" % (n, a)
        if k in (5, 6):
            return "/%s %s" % (rng.choice(["fractional", "f", "upper", "commas", "comma"]),
                               rng.choice(["yes", "no", "1", "0", "on", "tr", "truee", "t t", "t f", "fals", "true false",
                                           "-t", "none", "T.", "!", "t,", "$t", "true,", "\"t\"", "ff", "tf"]))
        if k in (7, 8):
            return "/histcap %s" % rng.choice(["0", "-1", "-100", "-9223372036854775808", "1 1", "5 5 5", "none", "0.0", ints,
                                               "-0", "0 5", "5 0"])
        if k == 9:
            return "/%s %s" % (rng.choice(["purgevar", "reloadvar"]),
                               rng.choice(["x", "$x 1", "$x,$y", "$x y", "5", "$x+$y", "($x)", "$x=1", "-$x", "/x", "$v0 /x",
                                           "all", "*", "$v0 $v1 5", "1.2.3 $v0", "$v0 max", "$v1 ,"]))
        if k == 10:
            return "/help %s" % rng.choice(["nosuch", "/help", "help me", "Radix", "rr", "$x", "1", "help help", "p 5", "-"])
        return "/" + rng.choice(gen.COMMANDS) + " " + rng.choice(gen.ARGS)

    def valid(self, rng, cfg, db):
        k = rng.randrange(7)
        if k == 0:
            return "/radix %d" % rng.choice([2, 16, 3, 15, rng.randrange(2, 17)])
        if k == 1:
            return "/converttoradix %s" % rng.choice(["2", "16", "none", str(rng.randrange(2, 17))])
        if k in (2, 3):
            p = rng.choice([0, 255, 254, 1, 128, 245, rng.randrange(256)])
            if rng.random() < 0.6:
                return "/precision %d %d" % (p, rng.choice([0, 255 - p, rng.randrange(256 - p)]))
            return "/p %d" % p
        if k == 4:
            return "/%s %s" % (rng.choice(["f", "upper", "commas"]), rng.choice("tf"))
        if k == 5:
            return "/histcap %d" % rng.choice([1, 2, 3, 100, 1000, 2 ** 31, 2 ** 32, 2 ** 63 - 1])
        return "$v%d = 1/3" % rng.randrange(3)

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = gen.config(rng)
        cfg.precision = min(cfg.precision, 60)
        cfg.extra = rng.choice([10, 10, 0, 1, 195, 100])
        argv = cfg.options()
        env, store = {}, None
        if rng.random() < 0.5:
            env["_B_UTIL_DATA_DIR"] = ctx.tmpdir()
            store = model.Store()
        else:
            argv.append("--no-db")
        m = model.Session(cfg, store)
        recent = []
        with calc.Lines(ctx.bin, argv, env=env) as lines:
            def ask(line, after=None):
                try:
                    m.dry(line)
                except (ref.TooBig, ref.Inexact):
                    return None
                exp = m.submit(line)
                got = lines.ask(line)
                recent.append((line, got[:60]))
                model.check(got, exp, line, recent, argv=argv, settings=cfg.as_dict(), read_back_after=after)
                out.counts[exp[0]] += 1
                out.ok()
                return exp
            for n in range(3):
                v = Fraction(rng.randrange(1, 10 ** 8), rng.choice([1, 3, 7, 64]))
                ask("$v%d = %s" % (n, gen.value_text(rng, v, cfg.radix)))
            for j in range(30):
                if rng.random() < 0.2:
                    ask(self.valid(rng, cfg, store is not None))
                    if store is not None and store.cap > 10 ** 6 and rng.random() < 0.5:
                        ask("/histcap 100")
                line = self.invalid(rng, cfg).replace("\x0b", "")
                exp = ask(line)
                if exp is None or exp[0] != "error":
                    continue
                out.ok("rejected " + line)
                out.counts["rejected commands"] += 1
                qs = rng.sample(QUERIES, 2) if rng.random() < 0.8 else list(QUERIES)
                own = [q for q in QUERIES if q[1:3] in line]
                for q in own + qs:
                    ask(q, after=line)
                ask("$v%d" % rng.randrange(3), after=line)
                out.counts["read-backs"] += len(own) + len(qs) + 1
            for q in QUERIES:
                ask(q, after="everything")
            ask("/f t")
            for n in range(3):
                ask("$v%d" % n, after="everything")
        if case["n"] < 3:
            out.sample({"argv": argv, "session": recent[3:12]})


CHECK = C12()
