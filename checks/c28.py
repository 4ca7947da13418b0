"""C28: help covers every command and tells the truth about availability."""
import re

from vlib import calc, db, gen, model, oneshot
from vlib.core import Check, Violation
from vlib.session import Died, Session

DOCUMENTED = set(model.NAMES)


def names_of(text):
    """the list of /help -> {name: (summary, marked unavailable)}"""
    out = {}
    for line in text.split("\n"):
        m = re.match(r"\s+/?([a-z_]+)\s+(\S.*)$", line)
        if m:
            out[m.group(1)] = (m.group(2).strip(), "unavailable" in m.group(2).lower())
    return out


class C28(Check):
    id = "C28"
    rule = ("sessions with and without database and one-shot runs: the list of /help is parsed; "
            "for every listed name and every alias given by its detailed text, the detailed "
            "texts, execution and the availability shown are compared with what executing the "
            "command answers; mutated and random names must be rejected by /help and as "
            "commands. Also after history, settings and capacity changes. Non-trivial: "
            "distinct (mode, name) relations.")
    confirm = 2

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    # how to talk to the calculator: line -> answer text
    def asker(self, ctx, mode, rng):
        env = {}
        if mode in ("db", "one-shot with data"):
            env["_B_UTIL_DATA_DIR"] = ctx.tmpdir()
        if mode.startswith("one-shot"):
            def ask(line):
                r = oneshot.run(ctx.bin, ["--input=" + line], env=env)
                if r.crashed:
                    raise Violation(what="the calculator crashed", input=line, err=r.err[-500:])
                return (r.out if r.out.strip() else r.err).rstrip("\n")
            return ask, None
        argv = [] if mode in ("db", "unset") else ["--no-db"]
        if rng.random() < 0.2:
            argv.append("-a")
        s = Session(ctx.bin, argv, env, rows=60, cols=5000)

        def ask(line):
            try:
                return s.ask(line)
            except Died:
                raise Violation(what="the calculator ended", input=line, status=s.status, argv=argv)
        return ask, s

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        mode = ("db", "no-db", "unset", "one-shot", "db", "no-db", "db", "one-shot with data")[case["n"] % 8]
        ask, s = self.asker(ctx, mode, rng)
        try:
            self.relations(rng, ask, mode, out, case)
            if s is not None and s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status)
        finally:
            if s is not None:
                s.kill()

    def rejected(self, a):
        return calc.is_error_text(a) and "unavailable" not in a.lower()

    def relations(self, rng, ask, mode, out, case):
        one = mode.startswith("one-shot")
        if not one:
            for _ in range(rng.choice([0, 0, 2, 5])):
                ask(rng.choice(["1+2", "/radix 16", "/radix 3", "/f t", "/upper t", "/commas t", "$a=1", "/histcap 3", "/precision 0 0",
                                "/converttoradix 2", "hello", "/purgevar $a", "/reloadvar $a"]))
        text = ask(rng.choice(["/help", "/help", "/h", "/help ", "/h   ", " /help"]))
        listed = names_of(text)
        info = dict(mode=mode)
        if not DOCUMENTED <= set(listed):
            raise Violation(what="/help doesn't list all commands with a summary", missing=sorted(DOCUMENTED - set(listed)), text=text[:1500], **info)
        order = list(listed)
        rng.shuffle(order)
        unknown = ask("/nosuchcommand")
        if not self.rejected(unknown):
            raise Violation(what="an unknown command is not rejected", got=unknown[:300], **info)
        aliases = {}
        for n in order[:rng.choice([4, 10, 100])] if not one else order[:3]:
            forms = ["/help %s", "/h %s", "/help  %s ", " /help %s", "  /h   %s  "]
            if one:
                # white space that no key sends
                forms = forms[:2] + ["/help\t%s", "/h\n%s", "/help \t%s", "/help %s\t", "/help\t\t%s\n", "/help\x0c%s", "\t/help %s"]
            form = rng.choice(forms)
            detail = ask(form % n)
            info["typed"] = form % n
            if not re.match(r"Usage: /%s\b" % n, detail):
                raise Violation(what="the detailed text doesn't start with the command's usage", name=n, text=detail[:400], **info)
            if len(detail.strip()) < 40:
                raise Violation(what="the detailed text explains nothing", name=n, text=detail, **info)
            named = []
            for line in detail.split("\n"):
                m = re.match(r"Alias(es)?:(.*)", line)
                if m:
                    named += re.findall(r"/([a-z_]+)", m.group(2))
            want = {a for a, c in model.ALIASES.items() if c == n}
            if not want <= set(named):
                raise Violation(what="the detailed text doesn't name the aliases", name=n, aliases=sorted(want), text=detail[:400], **info)
            out.ok(repr((mode, n, "usage")))
            for a in named:
                aliases[a] = n
                d2 = ask("/help " + a)
                if d2 != detail:
                    raise Violation(what="name and alias have different detailed texts", name=n, alias=a, texts=[detail[:300], d2[:300]], **info)
                out.ok(repr((mode, a, "alias")))
            # executing it: known, and available exactly if not marked
            for x in [n] + named:
                # without arguments it only tells or does nothing
                got = ask("/" + x)
                if self.is_unknown(got, unknown):
                    raise Violation(what="a listed name is rejected", name=x, got=got[:300], **info)
                refused = calc.is_error_text(got) and "unavailable" in got.lower()
                if x != "help" and x != "h" and refused != listed[n][1]:
                    raise Violation(what="the list is wrong about availability", name=x, marked=listed[n][1], got=got[:300], **info)
                if not refused and calc.is_error_text(got) and n in DOCUMENTED:
                    raise Violation(what="a command without arguments fails", name=x, got=got[:300], **info)
                if x not in ("help", "h") and ("currently unavailable" in detail.lower()) != refused:
                    raise Violation(what="the detailed text is wrong about availability", name=x, detail=detail[-300:], got=got[:300], **info)
                out.ok(repr((mode, x, "run", refused)))
                out.counts["commands executed"] += 1
                out.counts["found unavailable"] += refused
                if refused or listed[n][1]:
                    # with proper arguments as well
                    arg = {"histcap": "5"}.get(n, "$x")
                    got = ask("/%s %s" % (x, arg))
                    if not (calc.is_error_text(got) and "unavailable" in got.lower()):
                        raise Violation(what="a command marked unavailable works", name=x, got=got[:300], **info)
        # names that are not listed
        known = set(listed) | set(aliases) | set(model.ALIASES)
        for _ in range(10 if not one else 2):
            x = self.other_name(rng, sorted(known))
            if x in known:
                continue
            g = ask("/" + x)
            h = ask("/help " + x)
            if not self.rejected(g) or not self.rejected(h):
                raise Violation(what="an unlisted name is not rejected", name=x, got=g[:200], help=h[:200], **info)
            several = rng.choice(["%s %s" % (rng.choice(sorted(known)), rng.choice(sorted(known))), "%s %s" % (rng.choice(sorted(known)), x),
                                  "%s  %s" % (x, rng.choice(sorted(known))), rng.choice(sorted(known)) + rng.choice([",", ";", " 1", " -", " .", "()", "?"])])
            h = ask("/help " + several)
            if not self.rejected(h):
                raise Violation(what="help is given on something that is no command", argument=several, help=h[:200], **info)
            out.counts["unlisted names rejected"] += 1
            out.ok(repr((mode, x)))
        if case["n"] < 3:
            out.sample({"mode": mode, "listed": {k: v[1] for k, v in listed.items()}, "aliases": aliases})

    def is_unknown(self, got, unknown):
        return calc.is_error_text(got) and re.sub(r"'[^']*'", "''", got) == re.sub(r"'[^']*'", "''", unknown)

    def other_name(self, rng, known):
        x = rng.choice(known)
        k = rng.randrange(8)
        if k == 0:
            return x + rng.choice("abcxyz_1")
        if k == 1:
            return x[:-1] or "q"
        if k == 2:
            return x[1:] or "q"
        if k == 3:
            return x.upper()
        if k == 4:
            return x.capitalize()
        if k == 5:
            i = rng.randrange(len(x))
            return x[:i] + rng.choice("abcdefghijklmnopqrstuvwxyz") + x[i + 1:]
        if k == 6:
            return "/" + x
        return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.choice([1, 2, 5, 12])))


CHECK = C28()
