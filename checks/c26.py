"""C26: no memory error or undefined behaviour in any execution."""
import errno
import glob
import json
import os
import re
import resource
import shutil
import subprocess
from fractions import Fraction

from checks.c07 import C07
from vlib import db, editor, faults, gen, oneshot
from vlib.core import VERIF, Check, Inconclusive, Violation
from vlib.fsshim import FAIL, LOCK, OPEN, READ, SYNC, TRUNC, UNLINK, WRITE, Shim
from vlib.session import KEYS, Died, Session

FIX = os.path.join(VERIF, "fixtures")
VALGRIND = "/usr/bin/valgrind"
# panics that stand for an arithmetic or memory fault caught by a check the
# development profile adds (others are C07's business)
OVERFLOW = re.compile(r"attempt to [a-z ]+ with overflow|unsafe precondition\(s\) violated|misaligned pointer dereference|null pointer dereference|"
                      r"trying to construct an enum from an invalid value|capacity overflow")
soup = C07()


class C26(Check):
    id = "C26"
    rule = ("the calculator built with AddressSanitizer (Rust code and SQLite's C code) and, for the C code, UBSan in trap "
            "mode; the development build under Valgrind's memcheck (uninitialised memory); the Rust code interpreted by "
            "Miri (one-shot runs); overflow checks on in all of them. Workloads: lines, hostile text, key "
            "streams, window sizes, saved data, several sessions on it, damaged and randomly corrupted "
            "files, storage faults, options. A report, a fatal signal or an overflow panic is a "
            "violation. Non-trivial: distinct lines, key bursts, damaged files and faults run under an instrument.")
    assumptions = ("leaks are not errors", "Miri interprets one-shot runs only: it offers no terminal and no C code",
                   "stack exhaustion (known findings of C07) is no memory error", "crates are instrumented, libc is not")
    needs = ("dev", "asan", "miri")
    shim = True
    quick_s = 75
    confirm = 2
    min_evals = 300

    KINDS = ["lines", "keys", "oneshot", "faults", "corrupt", "vg-lines", "miri", "lines", "corrupt", "vg-keys", "two", "miri", "vg-corrupt", "vg-oneshot", "vg-output", "output"]

    def gen(self, ctx):
        for i in range(10 ** 7):
            yield {"n": i, "kind": self.KINDS[i % len(self.KINDS)]}

    def prepare(self, ctx):
        b = open(ctx.bins["asan"], "rb").read()
        self.known = ctx.known
        self.marks = b.count(b"__asan_")
        if b"__asan_report_load" not in b or b"__asan_init" not in b:
            raise RuntimeError("the instrumented build is not instrumented")
        self.miri_cmd = json.load(open(ctx.bins["miri"]))
        s = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        self.symbolizer = "external_symbolizer_path=%s" % s if s else "symbolize=0"

    def finish(self, ctx, total):
        return {"instrumentation": {"asan symbols in the build": self.marks}}

    def run(self, case, ctx, out):
        rng = ctx.rng(case["n"])
        try:
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            want = 1 << 30
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard in (-1, resource.RLIM_INFINITY) or hard > want else hard, hard))
        except (OSError, ValueError):
            pass
        kind = case["kind"]
        vg = kind.startswith("vg-")
        kind = kind.replace("vg-", "")
        self.dir = ctx.tmpdir()
        getattr(self, kind)(rng, ctx, out, vg)

    # ---- instruments ---------------------------------------------------
    def tool(self, ctx, vg, argv):
        """-> program, arguments, environment, where reports go"""
        self.nrun = getattr(self, "nrun", 0) + 1
        log = os.path.join(self.dir, "report%d" % self.nrun)
        if vg:
            return VALGRIND, ["--vgdb=no", "--error-exitcode=99", "--log-file=" + log, "--num-callers=20", "--main-stacksize=67108864",
                              ctx.bin] + argv, {}, log
        return ctx.bins["asan"], argv, {"ASAN_OPTIONS": "detect_leaks=0:handle_sigill=1:exitcode=99:log_path=%s:detect_stack_use_after_return=1:%s"
                                        % (log, self.symbolizer)}, log

    def judge(self, status, text, log, vg, info, out):
        """the run has ended"""
        reports = ""
        for f in glob.glob(log + "*"):
            with open(f, errors="replace") as g:
                reports += g.read()
        if "stack-overflow" in reports or "Stack overflow in thread" in reports:
            out.counts["runs out of stack"] += 1
            return
        inst = "memcheck" if vg else "asan"
        if vg:
            m = re.search(r"ERROR SUMMARY: (\d+) errors", reports)
            if m is None and status is not None and status >= 0:
                raise Inconclusive("memcheck left no summary")
            bad = m is not None and m.group(1) != "0" or status == 99
            reports = "\n".join(x for x in reports.splitlines() if "==" in x)
        else:
            bad = "ERROR: AddressSanitizer" in reports or "runtime error" in reports or status == 99
        m = re.search(r"SUMMARY: AddressSanitizer: ILL \S*/sqlite3\.c:[\d:]+ in (\w+)", reports)
        if m and "sqlite-trap-" + m.group(1) in self.known:
            out.counts["known finding seen: " + m.group(1)] += 1
            return
        if bad:
            raise Violation(what="%s reports an error" % inst, report=reports[:3000], status=status, **info)
        m = OVERFLOW.search(text)
        if m and status in (101, -6):
            raise Violation(what="an arithmetic overflow or a violated precondition", message=text[-600:], status=status, **info)
        if status in (-4, -5):
            raise Violation(what="undefined behaviour in C code (trap)", status=status, **info)
        if status in (-11, -7, -8):
            raise Violation(what="the calculator died from a memory fault", status=status, report=reports[-2000:], **info)
        if status == -6:
            if "has overflowed its stack" in text:
                out.counts["runs out of stack"] += 1
                return
            raise Violation(what="the calculator aborted", status=status, message=text[-600:], **info)
        if status == 101:
            out.counts["panics (C07's business)"] += 1
        out.counts["runs under " + inst] += 1

    def session(self, ctx, vg, argv, env=None, **kw):
        p, a, e, log = self.tool(ctx, vg, argv)
        e.update(env or {})
        s = Session(p, a, e, start=False, wait=60, **kw)
        s.keep_raw = True
        s.report = log
        return s

    def over(self, s, vg, info, out):
        """end the session if it runs and look at the reports"""
        if s.alive():
            s.settle(60)
            s.send(b"\x04")
            s.wait_for(lambda: not s.alive(), 60, dead_ok=True)
        while s.pump(0.01):
            pass
        text = bytes(s.out_raw[-6000:]).decode("utf8", "replace")
        self.judge(s.status, text, s.report, vg, info, out)
        s._fds()

    # ---- workloads -----------------------------------------------------
    def cheap(self, line, vg):
        bits = 3000 if vg else 8000
        return gen.cheap(line, 10, maxbits=bits) and gen.cheap(line, 16, maxbits=bits)

    def text(self, rng):
        k = rng.random()
        if k < 0.35:
            return faults.op_line(rng, True)
        if k < 0.75:
            return gen.noise_line(rng)
        if k < 0.9:
            return soup.edge(rng)
        return soup.roots(rng)

    def setup(self, rng, root=True):
        argv, env = [], {}
        if root and rng.random() < 0.8:
            env["_B_UTIL_DATA_DIR"] = self.dir
        if rng.random() < 0.3:
            argv.append("-a")
        if rng.random() < 0.3:
            argv += ["--radix", str(rng.randrange(2, 17))]
        if rng.random() < 0.2:
            argv += ["--convert-to-radix", str(rng.randrange(2, 17))]
        for f in ("-c", "-u", "-f"):
            if rng.random() < 0.15:
                argv.append(f)
        if rng.random() < 0.2:
            argv += ["-p", str(rng.choice([0, 1, 30, 60, 130, 255]))]
        rows, cols = rng.choice([(50, 2000), (24, 80), (5, 20), (2, 9), (60, 200)])
        return argv, env, dict(rows=rows, cols=cols)

    def type_lines(self, rng, s, n, sent, out, vg):
        for _ in range(n):
            line = self.text(rng)
            if not self.cheap(line, vg) or vg and len(line) > 300:
                continue
            if not s.alive():
                break
            sent.append(line)
            s.send(line.encode() + b"\r")
            try:
                s.wait_prompt(60)
            except Inconclusive as e:
                raise Inconclusive("%s: %r" % (e, sent[-3:]))
            out.ok(("vg" if vg else "asan", line))
            out.counts["lines"] += 1

    def lines(self, rng, ctx, out, vg):
        for _ in range(2 if vg else 3):
            argv, env, size = self.setup(rng)
            s = self.session(ctx, vg, argv, env, **size)
            sent = []
            info = dict(argv=argv, lines=sent)
            try:
                s.wait_prompt(60)
                self.type_lines(rng, s, 12 if vg else 40, sent, out, vg)
            except Died:
                pass
            except Inconclusive:
                s.kill()
                raise
            finally:
                if s.fd is not None:
                    try:
                        self.over(s, vg, dict(argv=argv, lines=sent[-6:]), out)
                    finally:
                        s.kill()

    def output(self, rng, ctx, out, vg):
        """values of all sizes displayed with all settings"""
        s = self.session(ctx, vg, ["--no-db"], {}, rows=50, cols=2000)
        sent = []
        radix = 10
        try:
            s.wait_prompt(60)
            for _ in range(40 if vg else 100):
                k = rng.random()
                if k < 0.4:
                    c = rng.choice(["/f %s", "/upper %s", "/upper %s", "/commas %s", "/radix", "/converttoradix", "/precision", "/precision"])
                    if "%" in c:
                        line = c % rng.choice("tf")
                    elif c == "/precision":
                        line = "/precision %d %d" % (rng.choice([0, 1, 2, 5, 17, 33, 41, 60, 65, 129, 200]), rng.choice([0, 5, 10, 50]))
                    elif c == "/radix":
                        radix = rng.randrange(2, 17)
                        line = "/radix %d" % radix
                    else:
                        line = "/converttoradix " + rng.choice(["none", str(rng.randrange(2, 17))])
                else:
                    size = rng.choice([1, 3, 10, 17, 33, 65, 130, 300])
                    v = Fraction(rng.randrange(10 ** size), rng.choice([1, 2, 3, 7, 64, 1000, 10 ** 9 + 7, rng.randrange(1, 10 ** size)]))
                    line = gen.value_text(rng, v if rng.random() < 0.7 else -v, radix)
                    if len(line) > 1500:
                        continue
                sent.append(line)
                s.send(line.encode() + b"\r")
                s.wait_prompt(60)
                out.ok(("vg" if vg else "asan", line))
                out.counts["values displayed"] += 1
        except Died:
            pass
        except Inconclusive:
            s.kill()
            raise
        finally:
            if s.fd is not None:
                try:
                    self.over(s, vg, dict(lines=sent[-12:]), out)
                finally:
                    s.kill()

    def two(self, rng, ctx, out, vg):
        """sessions that work on the same data"""
        env = {"_B_UTIL_DATA_DIR": self.dir}
        ss = [self.session(ctx, vg, [], env, rows=30, cols=300) for _ in range(rng.choice([2, 3]))]
        sent = []
        try:
            for s in ss:
                s.wait_prompt(60)
            for _ in range(40):
                s = rng.choice(ss)
                if rng.random() < 0.3:
                    s.send(KEYS[rng.choice(["up", "up", "down"])])
                    s.settle(60)
                else:
                    s.send(KEYS["end"] + b"\x7f" * 5)
                    self.type_lines(rng, s, 1, sent, out, vg)
        except Died:
            pass
        except Inconclusive:
            for s in ss:
                s.kill()
            raise
        finally:
            for s in ss:
                if s.fd is None:
                    continue
                try:
                    self.over(s, vg, dict(lines=sent[-10:]), out)
                finally:
                    s.kill()

    def keys(self, rng, ctx, out, vg):
        argv, env, size = self.setup(rng)
        for _ in range(2):
            s = self.session(ctx, vg, argv, env, **size)
            sent = []
            try:
                s.wait_prompt(60)
                s.send(b"12\r34+5\r")
                s.settle(60)
                for _ in range(6 if vg else 15):
                    data = b"".join(soup.chunk(rng) if rng.random() < 0.5 else editor.random_key(rng, editor.Line("12+(3)"))[1]
                                    if rng.random() < 0.8 else rng.choice([KEYS["up"], KEYS["down"]])
                                    for _ in range(rng.choice([1, 5, 20])))
                    if b"200~" in data or b"\x04" in data or b"\x03" in data or b"\x1a" in data:
                        continue
                    sent.append(repr(data))
                    if rng.random() < 0.3:
                        s.resize(*rng.choice([(50, 300), (24, 80), (5, 20), (2, 5), (3, 7), (1, 40)]))
                    s.send(data)
                    s.settle(60)
                    if rng.random() < 0.4:
                        s.send(b"ucmM~x")
                        s.settle(60)
                        s.send(b"\r")
                        s.settle(60)
                    out.ok(("vg" if vg else "asan", data))
                    out.counts["key bursts"] += 1
                s.send(b"ucmM~x\r")
                s.settle(60)
            except Died:
                pass
            except Inconclusive:
                s.kill()
                raise
            finally:
                if s.fd is not None:
                    try:
                        self.over(s, vg, dict(argv=argv, keys=sent[-5:]), out)
                    finally:
                        s.kill()

    def one(self, ctx, vg, argv, info, out, timeout=60):
        p, a, e, log = self.tool(ctx, vg, argv)
        r = oneshot.run(p, a, e, timeout=timeout, cpu=50)
        if r.timeout or r.out_of_cpu:
            out.incon("expensive evaluation")
            return
        self.judge(r.rc, r.out + r.err, log, vg, info, out)

    def oneshot(self, rng, ctx, out, vg):
        for _ in range(6 if vg else 25):
            opts, bad = soup.options(rng)
            line = gen.noise_line(rng, True) if rng.random() < 0.6 else soup.edge(rng) if rng.random() < 0.5 else soup.roots(rng)
            if rng.random() < 0.1:
                line = soup.long_line(rng, 10)
            line = line.replace("\0", "")
            if not self.cheap(line, vg) or vg and len(line) > 2000:
                continue
            self.one(ctx, vg, opts + ["--input=" + line], dict(argv=opts, line=line[:2000]), out)
            out.ok(("vg" if vg else "asan", line, tuple(opts)))
            out.counts["one-shot runs"] += 1

    def corrupt(self, rng, ctx, out, vg):
        """saved data damaged at random"""
        os.makedirs(os.path.join(self.dir, "bcalc"), exist_ok=True)
        p = db.path(self.dir)
        for _ in range(2 if vg else 5):
            for ext in ("", "-journal", "-wal", "-shm"):
                if os.path.exists(p + ext):
                    os.unlink(p + ext)
            src = rng.choice(sorted(glob.glob(os.path.join(FIX, "golden*.sqlite"))))
            b = bytearray(open(src, "rb").read())
            k = rng.random()
            what = []
            if k < 0.25:
                # damaged values
                with open(p, "wb") as f:
                    f.write(b)
                c = db.connect(self.dir)
                c.execute("PRAGMA foreign_keys = OFF")
                for _ in range(rng.choice([1, 3])):
                    t, col = rng.choice([("input_history", "input"), ("input_history", "next"), ("input_history", "prev"),
                                         ("input_history_tags", "value"), ("variable_history", "numer"), ("variable_history", "denom"),
                                         ("variable_history", "last_used_by"), ("meta_int", "value"), ("variable_history", "name")])
                    v = rng.choice([0, -1, 2 ** 63 - 1, -2 ** 63, "", "x" * 100000, b"\xff\xfe\x00", 1.5, None, "1" * 5000, 1, 2])
                    try:
                        c.execute("UPDATE OR REPLACE %s SET %s=? WHERE rowid IN (SELECT rowid FROM %s ORDER BY random() LIMIT 1)" % (t, col, t), (v,))
                        what.append("%s.%s" % (t, col))
                    except Exception:
                        pass
                c.close()
            else:
                if k < 0.8:
                    lo, hi = rng.choice([(0, 100), (100, 2000), (0, len(b)), (16, 32), (4096, 4200)])
                    for _ in range(rng.choice([1, 2, 8, 60])):
                        i = rng.randrange(lo, min(hi, len(b)))
                        b[i] = rng.choice([0, 255, 127, 128, rng.randrange(256), b[i] ^ (1 << rng.randrange(8))])
                        what.append(i)
                elif k < 0.9:
                    b = b[:rng.randrange(len(b))]
                    what.append(len(b))
                else:
                    i, j, n = rng.randrange(len(b)), rng.randrange(len(b)), rng.choice([8, 100, 4096])
                    b[i:i + n] = b[j:j + n]
                    what.append((i, j, n))
                with open(p, "wb") as f:
                    f.write(b)
                if rng.random() < 0.2:
                    with open(p + "-journal", "wb") as f:
                        f.write(rng.choice([b"", b"\xd9\xd5\x05\xf9\x20\xa1\x63\xd7" + bytes(rng.randrange(256) for _ in range(600)),
                                            bytes(rng.randrange(256) for _ in range(50))]))
            keep = bytes(open(p, "rb").read())
            s = self.session(ctx, vg, [], {"_B_UTIL_DATA_DIR": self.dir}, rows=24, cols=300)
            sent = []
            try:
                s.wait_prompt(60)
                for _ in range(4):
                    s.send(rng.choice([KEYS["up"], KEYS["up"], KEYS["down"]]))
                    s.settle(60)
                s.send(KEYS["end"] + b"\x7f" * 3)
                for _ in range(4 if vg else 8):
                    line = rng.choice(["$a", "$x=1/3", "/histcap", "/histcap 2", "/histcap 50", "/reloadvar $a $b", "/purgevar $x", "1+2",
                                       "$b+$foo", "$y=2^200", "$_", "$c"])
                    sent.append(line)
                    s.send(line.encode() + b"\r")
                    s.wait_prompt(60)
            except Died:
                pass
            except Inconclusive:
                s.kill()
                raise
            finally:
                if s.fd is not None:
                    try:
                        self.over(s, vg, dict(damage=repr(what)[:300], fixture=os.path.basename(src), lines=sent,
                                              file=keep.hex() if len(keep) < 100000 else None), out)
                    finally:
                        s.kill()
            out.ok(("vg" if vg else "asan", "damage", repr(what), tuple(sent)))
            out.counts["damaged files"] += 1

    def faults(self, rng, ctx, out, vg):
        """storage faults: SQLite's and the calculator's error paths"""
        sh = Shim(ctx, self.dir)
        env = dict(sh.env, _B_UTIL_DATA_DIR=self.dir)
        for _ in range(3):
            if rng.random() < 0.3:
                sh.arm(FAIL, at=rng.randrange(1, 60), mask=rng.choice([~0, READ | WRITE, OPEN]), err=errno.EIO, persist=rng.randrange(2))
            s = self.session(ctx, vg, [], env, preload=ctx.shim, rows=24, cols=300)
            sent = []
            try:
                s.wait_prompt(60)
                for _ in range(15):
                    mask = rng.choice([~0, READ, WRITE, SYNC, OPEN, LOCK, TRUNC, UNLINK, WRITE | SYNC | TRUNC])
                    err = rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EINTR, errno.EMFILE, errno.EROFS])
                    if mask == LOCK and err == errno.EACCES:
                        err = errno.EIO
                    if rng.random() < 0.7:
                        sh.arm(FAIL, at=rng.randrange(1, 30), mask=mask, err=err, persist=err != errno.EINTR and rng.randrange(2), shortw=rng.randrange(2))
                    else:
                        sh.off()
                    line = faults.op_line(rng, True)
                    if not self.cheap(line, vg):
                        continue
                    sent.append("%s (mask %x errno %d)" % (line[:100], mask & 0xffff, err))
                    s.send(line.encode() + b"\r")
                    s.wait_prompt(60)
                    if sh.hits:
                        out.counts["faults that hit"] += 1
                        out.ok(("fault", line, mask, err))
            except Died:
                pass
            except Inconclusive:
                s.kill()
                raise
            finally:
                sh.off()
                if s.fd is not None:
                    try:
                        self.over(s, vg, dict(lines=sent[-5:]), out)
                    finally:
                        s.kill()
        sh.close()

    def known_finding(self, ctx, key):
        if key != "sqlite-trap-alsoAnInt":
            return False
        self.dir = ctx.tmpdir()
        os.makedirs(os.path.join(self.dir, "bcalc"))
        shutil.copy(os.path.join(FIX, "golden5.sqlite"), db.path(self.dir))
        c = db.connect(self.dir)
        c.execute("PRAGMA foreign_keys = OFF")
        c.execute("UPDATE input_history SET next=? WHERE id = (SELECT MAX(id) - 1 FROM input_history)", ("1" * 5000,))
        c.close()
        s = self.session(ctx, False, [], {"_B_UTIL_DATA_DIR": self.dir}, rows=24, cols=300)
        try:
            s.wait_prompt(60)
            for line in ("/histcap 2", "/histcap 1", "1+2"):
                s.submit(line)
        except (Died, Inconclusive):
            pass
        s.kill()
        return any("in alsoAnInt" in open(f, errors="replace").read() for f in glob.glob(s.report + "*"))

    # ---- Miri ----------------------------------------------------------
    def miri(self, rng, ctx, out, vg):
        m = self.miri_cmd
        for _ in range(3):
            opts, bad = soup.options(rng)
            while True:
                k = rng.random()
                line = gen.noise_line(rng, True) if k < 0.5 else soup.edge(rng) if k < 0.7 else \
                    soup.roots(rng) if k < 0.75 else gen.render(rng, gen.tree(rng, 10, 4, 12))
                line = line.replace("\0", "")
                if len(line) < 60 and gen.cheap(line, 10, maxbits=300) and gen.cheap(line, 16, maxbits=300):
                    break
            opts = [o for o in opts if not o.startswith(("--precision", "--extra-precision"))]
            if "^" not in line and "s" not in line and rng.random() < 0.5:
                opts.append("--precision=%d" % rng.choice([0, 1, 9, 17, 41, 60, 130]))
            cmd = m["cmd"] + ["-Zmiri-disable-isolation", "-Zmiri-seed=%d" % rng.randrange(1000), "--"] + opts + ["--input=" + line]
            try:
                p = subprocess.run(cmd, env=m["env"], cwd=m["cwd"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=80)
            except subprocess.TimeoutExpired:
                out.counts["Miri runs too slow"] += 1
                continue
            err = p.stderr.decode("utf8", "replace")
            info = dict(line=line, argv=opts, status=p.returncode, report=err[-2500:])
            if "Undefined Behavior" in err:
                raise Violation(what="Miri reports undefined behaviour", **info)
            if OVERFLOW.search(err):
                raise Violation(what="an arithmetic overflow or a violated precondition", **info)
            if "error: unsupported operation" in err:
                out.counts["Miri: unsupported operation"] += 1
                continue
            if p.returncode not in (0, 1, 2, 101):
                raise Inconclusive("Miri ended with %d: %s" % (p.returncode, err[-200:]))
            out.counts["runs under miri"] += 1
            out.ok(("miri", line, tuple(opts)))


CHECK = C26()
