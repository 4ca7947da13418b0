"""C11: setting commands act exactly like the corresponding options."""
from fractions import Fraction

from vlib import calc, gen, model, oneshot, ref
from vlib.core import Check, Violation

ROOTS = ["sqrt %s", "sqrt(%s)", "2^(1/3)", "(-%s)^(1/3)", "sqrt %s/7"]


class C11(Check):
    id = "C11"
    rule = ("sessions with random initial options and histories of setting commands (all names "
            "and aliases, argument spellings, queries), each followed by expressions whose "
            "answer shows every setting; answers are compared with the settings model and, for "
            "part of them and for roots (which show the extra precision), with a calculator "
            "started with the equivalent options. Non-trivial: distinct (settings, line).")

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def num_arg(self, rng, n):
        return rng.choice(["%d", "%d", "%d", " %d", "%d ", "%d.0", "0%d", "%d.", "%d_"]) % n

    def boolean(self, rng, b):
        s = rng.choice(["t", "true"] if b else ["f", "false"])
        s = rng.choice([s, s, s.upper(), s.capitalize(), " " + s, s + " ", "\t" + s])
        return s.replace("\t", " ")

    def command(self, rng, cfg):
        k = rng.randrange(12)
        sep = rng.choice([" ", " ", "  "])
        lead = rng.choice(["", "", "", " ", "  ", "     "])
        if k < 2:
            return lead + "/" + rng.choice(["radix", "r"]) + sep + self.num_arg(rng, rng.randrange(2, 17))
        if k < 4:
            a = self.num_arg(rng, rng.randrange(2, 17)) if rng.random() < 0.7 else rng.choice(["none", "None", "NONE ", " none"])
            return lead + "/converttoradix" + sep + a
        if k < 6:
            p = rng.choice([0, 1, 2, 5, 10, 100, 255, rng.randrange(256)])
            s = lead + "/" + rng.choice(["precision", "p"]) + sep + self.num_arg(rng, p)
            if rng.random() < 0.5:
                e = rng.choice([0, 1, 10, 255 - p, rng.randrange(0, 256 - p)])
                s += " " + self.num_arg(rng, e)
            return s
        if k < 9:
            n = rng.choice(["fractional", "f", "upper", "commas", "comma"])
            return lead + "/" + n + sep + self.boolean(rng, rng.random() < 0.5)
        return "/" + rng.choice(["radix", "r", "converttoradix", "precision", "p", "fractional", "f",
                                 "upper", "commas", "comma"]) + rng.choice(["", " ", "  "])

    def probe(self, rng, cfg):
        r = cfg.radix
        k = rng.random()
        if k < 0.4:
            # letters, groups, fraction: shows everything at once
            v = Fraction(rng.randrange(10 ** 6, 10 ** 13), rng.choice([1, 3, 7, 2, 64, 1000, 11]))
            return gen.value_text(rng, v if rng.random() < 0.7 else -v, r)
        if k < 0.6:
            return gen.literal(rng, r)
        if k < 0.9:
            return gen.render(rng, gen.tree(rng, r, rng.choice([1, 2, 4]), 20, ops="+-*/%"))
        return rng.choice(["10", "1f", "12", "9", "7", "2", "1_000", "ff.8", "10/3", "1.2.3", "G"])

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        cfg = gen.config(rng)
        if cfg.precision + cfg.extra > 255 and rng.random() < 0.7:
            cfg.extra = 0
        argv = cfg.options(rng)
        m = model.Session(cfg)
        recent = []
        with calc.Lines(ctx.bin, ["--no-db"] + argv) as lines:
            def ask(line):
                m.dry(line)
                exp = m.submit(line)
                got = lines.ask(line)
                recent.append((line, got[:60]))
                model.check(got, exp, line, recent, argv=argv, settings=cfg.as_dict())
                out.ok(repr(cfg.as_dict()) + line)
                out.counts[exp[0]] += 1
                return exp, got

            for j in range(40):
                try:
                    ask(self.command(rng, cfg))
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        line = self.probe(rng, cfg)
                        exp, got = ask(line)
                        if rng.random() < 0.06:
                            self.same(ctx, line, got, cfg, out, recent)
                except (ref.TooBig, ref.Inexact):
                    continue
                if rng.random() < 0.08 and cfg.precision + cfg.extra < 256:
                    n = ref.to_radix(rng.choice([2, 3, 5, 10, 99, 12345]), cfg.radix)
                    line = rng.choice(ROOTS)
                    if cfg.radix < 8 or cfg.precision + cfg.extra > 100:
                        line = rng.choice(["sqrt %s", "sqrt(%s)/11", "-sqrt %s"])
                    line = line.replace("%s", n)
                    got = lines.ask(line)
                    recent.append((line, got[:60]))
                    self.same(ctx, line, got, cfg, out, recent)
                    out.counts["roots compared"] += 1
            for q in ("/radix", "/converttoradix", "/precision", "/fractional", "/commas", "/upper"):
                ask(q)
        if case["n"] < 3:
            out.sample({"argv": argv, "session": recent[:8]})

    def same(self, ctx, line, got, cfg, out, recent):
        argv = cfg.options()
        ref_got = calc.eval_oneshot(ctx.bin, line, argv)
        out.counts["compared with a fresh calculator"] += 1
        out.ok()
        if calc.is_error_text(ref_got) and calc.is_error_text(got):
            return
        if ref_got != got:
            raise Violation(what="session and freshly started calculator differ", line=line,
                            session=got, fresh=ref_got, argv=argv, recent=recent[-12:])


CHECK = C11()
