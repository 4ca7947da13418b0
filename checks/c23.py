"""C23: nothing is stored or read without a database."""
import hashlib
import os
import re

from vlib import calc, db, editor, faults, gen, model, oneshot, ref
from vlib.core import Check, Inconclusive, Violation
from vlib.fsshim import FOREIGN, KIND, MKDIR, OPEN, RENAME, Shim, TRUNC, UNLINK, WRITE
from vlib.saved import NAMES, World, value_expr
from vlib.session import Died, KEYS, Session


def tree(d):
    """everything about the files of a directory except access times"""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            h = hashlib.sha1(open(p, "rb").read()).hexdigest() if n in files else ""
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, h)
    return out


class C23(Check):
    id = "C23"
    rule = ("one-shot evaluations, --no-db sessions and sessions without the variable, beside "
            "prepared, empty or missing data directories, with inputs of every kind (database "
            "commands, stored variables, Up into the history); every file-system call below the "
            "data directory, home and working directory is logged by an interposed library, the "
            "directories' content and time stamps are compared before and after, and every "
            "answer with a calculator model that has no saved data. Non-trivial: inputs that "
            "would have used saved data.")
    shim = True
    confirm = 2

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def lines(self, rng):
        n = rng.choice(NAMES[:5])
        k = rng.random()
        if k < 0.25:
            return n
        if k < 0.45:
            return "%s=%s" % (n, value_expr(rng, NAMES[:5] if rng.random() < 0.3 else ()))
        if k < 0.6:
            return rng.choice(["/histcap", "/histcap 7", "/histcap 1", "/reloadvar " + n, "/reloadvar", "/purgevar " + n, "/purgevar"])
        if k < 0.75:
            return rng.choice(["%s+1" % n, "max(%s,2)" % n, "%s*0" % n, "/help", "/help histcap", "/radix"])
        return rng.choice(["1+2", "", "2^70", "1/3", "hello", "1/0", "7*6"])

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        w = World(ctx, out)
        data = rng.choice(["prepared", "prepared", "prepared", "empty", "missing"])
        try:
            if data == "prepared":
                p = w.open()
                for _ in range(rng.choice([3, 10])):
                    p.ask("%s=%d" % (rng.choice(NAMES[:5]), rng.randrange(1000, 9999)))
                p.close()
        finally:
            w.end()
        data_dir = w.root if data != "missing" else os.path.join(w.root, "nowhere")
        home, cwd = ctx.tmpdir(), ctx.tmpdir()
        top = ctx.scratch
        mode = ("oneshot", "no-db", "unset", "no-db", "no-db unset")[case["n"] % 5]
        env = {"HOME": home, "XDG_DATA_HOME": home, "XDG_CONFIG_HOME": home, "TMPDIR": home}
        if "unset" not in mode:
            env["_B_UTIL_DATA_DIR"] = data_dir
        elif rng.random() < 0.5:
            # almost the right variable
            env[rng.choice(["B_UTIL_DATA_DIR", "_b_util_data_dir", "_B_UTIL_DATA_DIR_"])] = data_dir
        shim = Shim(ctx, w.root, log=True, everything=True)
        before = {d: tree(d) for d in (w.root, home, cwd)}
        recent = []
        try:
            if mode == "oneshot":
                self.oneshot(ctx, rng, dict(env, **shim.env), cwd, out, recent)
            else:
                cfg, argv = self.options(rng)
                argv = [argv] + ([["--no-db"]] if "no-db" in mode else []) + (
                    [[rng.choice(["-a", "--alternate-screen"])]] if rng.random() < 0.25 else [])
                rng.shuffle(argv)
                argv = sum(argv, [])
                recent.append("options " + " ".join(argv))
                self.session(ctx, rng, cfg, argv, dict(env, **shim.env), cwd, out, recent)
            info = dict(mode=mode, data=data, recent=recent[-10:])
            for kind, path, off, res, blob in shim.log():
                k = kind & ~FOREIGN
                if not kind & FOREIGN:
                    raise Violation(what="the saved data was accessed", call=KIND.get(k), path=path, **info)
                if re.search(r"sqlite|bcalc/", path) and not path.startswith(ctx.bin) and k != OPEN:
                    raise Violation(what="saved data was accessed", call=KIND.get(k), path=path, **info)
                if k == OPEN and off & 3 and not path.startswith("/dev/") and not path.startswith("/proc/") and res >= 0:
                    raise Violation(what="a file was opened for writing", path=path, **info)
                if k in (MKDIR, UNLINK, RENAME):
                    raise Violation(what="the file system was changed", call=KIND.get(k), path=path, **info)
                out.counts["file-system calls seen"] += 1
            for d, t in before.items():
                now = tree(d)
                if now != t:
                    raise Violation(what="files were changed", added=sorted(set(now) - set(t))[:5], removed=sorted(set(t) - set(now))[:5],
                                    modified=[x for x in t if x in now and t[x] != now[x]][:5], **info)
            out.counts["directories compared"] += len(before)
            out.counts["runs: %s, %s data" % (mode, data)] += 1
            if case["n"] < 4:
                out.sample({"mode": mode, "data": data, "steps": recent[:10]})
        finally:
            shim.close()

    def options(self, rng):
        """-> settings with radix 10, and options that select them"""
        if rng.random() < 0.35:
            return ref.Config(), []
        cfg = gen.config(rng)
        cfg.radix = 10
        if rng.random() < 0.5:
            cfg.extra = rng.choice([0, 1, 10, 50, 255])
        return cfg, cfg.options(rng)

    def oneshot(self, ctx, rng, env, cwd, out, recent):
        for _ in range(6):
            line = self.lines(rng)
            cfg, more = self.options(rng)
            argv = [more, [rng.choice(["-i", "--input"]), line]]
            for o in ("--no-db", "-a"):
                if rng.random() < 0.2:
                    argv.append([o])
            rng.shuffle(argv)
            argv = sum(argv, [])
            r = oneshot.run(ctx.bin, argv, env=env, cwd=cwd, preload=ctx.shim)
            got = calc.oneshot_text(r, line, argv)
            if got is None:
                got = r.err if r.err.strip() else r.out
            recent.append("%s -> %s" % (line, got[:60]))
            info = dict(line=line, argv=argv, out=r.out[:300], err=r.err[:300], rc=r.rc)
            if r.crashed:
                raise Violation(what="one-shot evaluation crashed", **info)
            cmd = line.startswith("/")
            uses = "$" in line and not cmd
            if uses or (cmd and ("var $" in line or line.startswith("/histcap"))):
                # neither variables nor history
                if r.out.strip() or not calc.is_error_text(r.err):
                    raise Violation(what="one-shot evaluation used variables or history", **info)
                out.ok(line)
                out.counts["one-shot uses of saved data refused"] += 1
            elif not cmd:
                m = model.Session(cfg.copy())
                exp = m.submit(line)
                if not model.matches((r.out if exp[0] != "error" else r.err).rstrip("\n"), exp):
                    raise Violation(what="wrong answer", **info)
                out.ok()

    def session(self, ctx, rng, cfg, argv, env, cwd, out, recent):
        s = Session(ctx.bin, argv, env, rows=50, cols=4000, cwd=cwd, preload=ctx.shim)
        m = model.Session(cfg.copy())
        h = editor.History(None)
        try:
            for _ in range(25):
                # no history from other sessions
                n = rng.choice([0, 0, 1, 2, 5, 30])
                keys = []
                for _ in range(n):
                    k = rng.choice(["up", "up", "up", "down"])
                    h.press(k)
                    keys.append(KEYS[k])
                line = h.line.text
                if not n or rng.random() < 0.5:
                    for _ in range(len(line)):
                        h.press("backspace")
                        keys.append(KEYS["backspace"])
                    line = self.lines(rng)
                    for c in line:
                        h.press(c)
                        keys.append(c.encode())
                if not gen.cheap(h.line.text, 10, m.vars):
                    h.press("0") if False else None
                    keys += [KEYS["home"], b")"]
                    h.press("home")
                    h.press(")")
                line = h.line.text
                try:
                    m.dry(line)
                except (ref.TooBig, ref.Inexact):
                    keys += [KEYS["home"], b")"]
                    h.press("home")
                    h.press(")")
                    line = h.line.text
                mark = s.emu.dsr_marks[-1][1]
                s.send_keys(keys + [b"\r"])
                got = "\n".join(s.answer(20))
                shown = s.emu.s.abs_text(mark)
                h.enter()
                recent.append("%s -> %s" % (line, got[:60]))
                if shown != ("# " + line).rstrip():
                    raise Violation(what="the history isn't this session's own", expected=line, shown=shown, recent=recent[-10:])
                exp = m.submit(line)
                model.check(got, exp, line, recent, argv=argv)
                nt = "$" in line or "histcap" in line or n
                out.ok(repr((line, n, sorted(m.vars))) if nt else None)
                out.counts["inputs"] += 1
                if "histcap" in line or "reloadvar" in line:
                    out.counts["database commands refused"] += 1
            if s.close() != 0:
                raise Violation(what="the session did not end properly", status=s.status)
        except Died:
            raise Violation(what="the calculator ended", status=s.status, recent=recent[-10:])
        finally:
            s.kill()


CHECK = C23()
