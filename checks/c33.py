"""C33: saved data is kept in exactly the documented place."""
import os
import sqlite3
import shutil

from vlib import db, model, ref
from vlib.core import Check, Violation
from vlib.fsshim import FOREIGN, KIND, MKDIR, OPEN, RENAME, Shim, TRUNC, UNLINK
from vlib.session import Died, Session

NAMES = ["data", "my data", "it's", "a\"b", "d%20x", "50%", "what?", "a?mode=memory", "x#y", "x&cache=shared", "file:data", "file:",
         "-data", "--no-db", "~", "$HOME", "a\\b", "a\tb", "a\nb", "d\u00e4ta", "\u6570\u636e", "\U0001f600", ":memory:", "bcalc", "saved_data.sqlite",
         "n" * 200, ".hidden", "a;b", "*", "x=y", "[ab]", "data.", " ", "UPPER", "null", "-wal", "data-journal"]


def files(d):
    """path -> kind of everything below a directory"""
    out = {}
    for base, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns)
    return out


class C33(Check):
    id = "C33"
    rule = ("sessions with data directories of every kind of name (blanks, quotes, %, ?, #, URI-like, "
            "non-ASCII, 200 characters) and spelling (absolute, relative, with dots and doubled "
            "slashes, through links), several per directory from different working directories "
            "and with different other environment; also missing directories and files in their "
            "place. The whole scratch world is compared before and after, every call that creates "
            "or changes a file is recorded by an interposed library, and later sessions must find "
            "the lines and variables of the earlier ones. Non-trivial: distinct (name, spellings).")
    shim = True

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i}

    def spellings(self, rng, top, d, links):
        """other ways to write the directory d, as (value, working directory)"""
        cwd = rng.choice([top, os.path.join(top, "cwd"), d, os.path.join(top, "cwd", "deeper")])
        k = rng.randrange(8)
        if k == 0:
            return d, cwd
        if k == 1:
            return d + rng.choice(["/", "//", "/.", "/./", "/../" + os.path.basename(d)]), cwd
        if k == 2:
            return os.path.relpath(d, cwd), cwd
        if k == 3:
            return os.path.basename(d), os.path.dirname(d)
        if k == 4:
            return rng.choice([".", "./", "./."]), d
        if k == 5:
            return "./" + os.path.relpath(d, cwd), cwd
        if k == 6:
            return rng.choice(links), cwd
        parts = d.split("/")
        i = rng.randrange(2, len(parts))
        return "/".join(parts[:i]) + rng.choice(["//", "/./"]) + "/".join(parts[i:]), cwd

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        top = ctx.tmpdir()
        for n in ("home", "tmp", "cwd", "cwd/deeper", "xdg", "at"):
            os.mkdir(os.path.join(top, n))
        name = NAMES[case["n"] % len(NAMES)] if case["n"] < len(NAMES) else rng.choice(NAMES)
        d = os.path.join(top, "at", name)
        kind = rng.choice(["there"] * 8 + ["missing", "file", "bcalc is a file", "database is a directory"])
        links = [os.path.join(top, "cwd", "link")]
        os.symlink(d, links[0])
        if kind == "file":
            open(d, "w").write("mine\n")
        elif kind != "missing":
            os.mkdir(d)
            if kind == "bcalc is a file":
                open(os.path.join(d, "bcalc"), "w").write("mine\n")
            elif kind == "database is a directory":
                os.makedirs(os.path.join(d, "bcalc", "saved_data.sqlite"))
            elif rng.random() < 0.3:
                os.mkdir(os.path.join(d, "bcalc"))
            elif rng.random() < 0.2:
                os.mkdir(os.path.join(top, "elsewhere"))
                os.symlink(os.path.join(top, "elsewhere"), os.path.join(d, "bcalc"))
            if rng.random() < 0.3 and kind == "there":
                open(os.path.join(d, "notes.txt"), "w").write("mine\n")
        shim = Shim(ctx, "/nonexistent", log=True, everything=True)
        try:
            if kind == "there":
                self.good(rng, ctx, top, d, name, links, shim, out)
            else:
                self.bad(rng, ctx, top, d, kind, name, shim, out)
        finally:
            shim.close()
            shutil.rmtree(top, ignore_errors=True)

    def env(self, rng, top, value, shim):
        e = {"HOME": os.path.join(top, "home"), "TMPDIR": os.path.join(top, "tmp"), "_B_UTIL_DATA_DIR": value}
        for k in ("XDG_DATA_HOME", "XDG_STATE_HOME", "SQLITE_TMPDIR", "PWD", "B_UTIL_DATA_DIR", "DATA_DIR", "BCALC_DATA_DIR"):
            if rng.random() < 0.3:
                e[k] = os.path.join(top, "xdg")
        e.update(shim.env)
        return e

    def calls(self, shim, cwd, allowed, info, out):
        """every call that creates or changes something"""
        for kind, path, off, res, blob in shim.log():
            k = kind & ~FOREIGN
            out.counts["file-system calls seen"] += 1
            if k == OPEN and not off & 3 or k not in (OPEN, MKDIR, UNLINK, RENAME, TRUNC):
                continue
            p = os.path.realpath(os.path.join(cwd, path))
            if path.startswith(("/dev/", "/proc/")):
                continue
            if k == MKDIR and p in allowed["dirs"]:
                continue
            if k != MKDIR and (p in allowed["files"]):
                continue
            if res < 0 and k in (UNLINK, OPEN):
                continue
            raise Violation(what="a file elsewhere was created or changed", call=KIND.get(k), path=path, **info)
        open(shim.logpath, "w").close()

    def good(self, rng, ctx, top, d, name, links, shim, out):
        home = os.path.realpath(os.path.join(d, "bcalc"))
        base = os.path.join(home, "saved_data.sqlite")
        allowed = {"dirs": [home], "files": [base] + [base + x for x in ("-journal", "-wal", "-shm")]}
        store = model.Store()
        used = []
        before = files(top)
        for j in range(rng.choice([2, 2, 3])):
            value, cwd = self.spellings(rng, top, d, links)
            used.append((value, os.path.relpath(cwd, top)))
            info = dict(name=name, spellings=used)
            argv = ["-a"] if rng.random() < 0.2 else []
            try:
                s = Session(ctx.bin, argv, self.env(rng, top, value, shim), cwd=cwd, preload=ctx.shim)
            except Died as e:
                raise Violation(what="the session did not start", status=e.session.status,
                                screen=e.session.emu.main.text(0)[:300], **info)
            m = model.Session(ref.Config(), store)
            recent = []
            if store.hist and rng.random() < 0.15:
                # much saved data
                size = rng.choice([5000, 70000, 140000, 600000])
                k = rng.randrange(len(store.hist))
                text = "+".join(["1"] * size)
                s.kill()
                c = sqlite3.connect(base)
                c.execute("UPDATE input_history SET input=? WHERE id=(SELECT id FROM input_history ORDER BY id LIMIT 1 OFFSET ?)", (text, k))
                c.commit()
                c.close()
                store.hist[k] = (store.hist[k][0], text)
                before[os.path.relpath(base, top)] = None
                s = Session(ctx.bin, argv, self.env(rng, top, value, shim), cwd=cwd, preload=ctx.shim)
                out.counts["sessions with much saved data"] += 1
            # everything that uses the saved data
            more = [rng.choice(["/histcap", "/histcap 50", "/histcap 1000", "/histcap 30", "/histcap 0", "/histcap x", "/purgevar $nosuch",
                                "/purgevar $v0 $v1", "/reloadvar $v0", "/reloadvar $nosuch", "$v0=1/3", "$v0", "$x=2^2000", "$x=1/0",
                                "1+(", "", "/help", "+".join(["1"] * 2000)]) for _ in range(rng.choice([0, 2, 5]))]
            try:
                for v in ["$v%d" % i for i in range(j)] + ["$v%d=%d/7" % (j, rng.randrange(1, 9999)), "1+%d" % j, "$nosuch"] + more:
                    exp = m.submit(v)
                    recent.append(v)
                    model.check(s.ask(v), exp, v, recent, **info)
                    out.ok((name, tuple(used), v))
                st = s.close(rng.choice([b"\x04", b"\x03", b"\x1a"]))
            except Died:
                raise Violation(what="the calculator ended", status=s.status, lines=recent, **info)
            finally:
                s.kill()
            if st != 0:
                raise Violation(what="the session did not end properly", status=st, **info)
            self.calls(shim, cwd, allowed, info, out)
            if not os.path.isfile(base):
                raise Violation(what="the saved data is not in the documented place", **info)
            dump = db.Dump(d)
            want = store.snapshot()["inputs"]
            if dump.problems or dump.inputs != want:
                raise Violation(what="the documented place holds something else", problems=dump.problems, got=dump.inputs[-5:],
                                expected=want[-5:], **info)
            now = files(top)
            rel = os.path.relpath
            new = sorted(p for p in now if p not in before)
            fine = {rel(os.path.join(d, "bcalc"), top), rel(home, top), rel(base, top)}
            rest = [p for p in new if p not in fine]
            if rest:
                raise Violation(what="something else was left behind", files=rest[:5], **info)
            # directories change when something is created in them
            changed = [p for p in before if p not in now or now[p] != before[p] and not os.path.isdir(os.path.join(top, p))]
            changed = [p for p in changed if p not in fine]
            if changed:
                raise Violation(what="other files were changed", files=changed[:5], **info)
            out.counts["sessions"] += 1
        if len(out.samples) < 4:
            out.sample({"name": name, "spellings": used})

    def bad(self, rng, ctx, top, d, kind, name, shim, out):
        value, cwd = (d, os.path.join(top, "cwd")) if rng.random() < 0.5 else (os.path.relpath(d, os.path.join(top, "cwd")), os.path.join(top, "cwd"))
        before = files(top)
        info = dict(name=name, kind=kind, value=value)
        s = Session(ctx.bin, ["-a"] if rng.random() < 0.3 else [], self.env(rng, top, value, shim), cwd=cwd, preload=ctx.shim, start=False)
        try:
            try:
                s.wait_prompt()
            except Died:
                pass
            else:
                raise Violation(what="a session started without its data directory", **info)
        finally:
            s.kill()
        if not s.status or s.status < 0:
            raise Violation(what="no error exit", status=s.status, **info)
        if files(top) != before:
            raise Violation(what="something was created or changed", files=sorted(set(files(top)) ^ set(before))[:5], **info)
        out.counts["unusable directories: " + kind] += 1
        out.ok((kind, value))


CHECK = C33()
