"""Helpers that evaluate lines with the real calculator and judge answers."""
import os

from . import oneshot, ref
from .core import Inconclusive, Violation
from .session import Died, Session

ERR = ("Error: ", "Runtime Error: ")
CPU_LIMIT = 25          # CPU seconds within which a cheap line has its answer


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def is_error_text(s):
    return s.startswith(ERR) and len(s.strip()) > 10


class Lines:
    """An interactive session without a database, restarted when needed."""

    def __init__(self, binary, argv=("--no-db",), cheap=False, **kw):
        """cheap: the lines take milliseconds, so one that burns CPU_LIMIT
        seconds of CPU time has no answer"""
        self.binary, self.argv, self.kw = binary, list(argv), kw
        self.cheap = cheap
        self.s = None
        self.count = 0

    def ask(self, line, timeout=40):
        if self.s is None:
            self.s = Session(self.binary, self.argv, **self.kw)
        self.count += 1
        cpu0 = cpu_seconds(self.s.pid) if self.cheap else 0
        try:
            return self.s.ask(line, 45 if self.cheap else timeout)
        except Inconclusive:
            used = cpu_seconds(self.s.pid) - cpu0
            self.close(kill=True)
            if self.cheap and used > CPU_LIMIT:
                raise Violation(what="no answer within %d CPU seconds" % used, line=line, argv=self.argv)
            raise
        except Died as d:
            st, raw = d.session.status, list(d.session.emu.main.lines)
            tail = "\n".join("".join(x) for x in raw if x)[-600:]
            self.close(kill=True)
            raise Violation(what="the calculator died on an input line", line=line,
                            argv=self.argv, status=st, screen=tail)
        except BaseException:
            self.close(kill=True)
            raise

    def close(self, kill=False):
        if self.s is not None:
            try:
                if kill:
                    self.s.kill()
                else:
                    self.s.close()
            finally:
                self.s = None

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self.close(kill=t is not None)


def judge(got, expected, line, argv, how, **more):
    """expected: ('value', text, ..) | ('error', ..) | ('empty',)"""
    kind = expected[0]
    if kind == "value":
        if got != expected[1]:
            raise Violation(what="wrong result", how=how, line=line, argv=argv,
                            expected=expected[1], got=got, **more)
    elif kind == "error":
        if not is_error_text(got):
            raise Violation(what="an error was expected", how=how, line=line, argv=argv,
                            stage=expected[1], got=got, **more)
    elif kind == "empty":
        if got.strip() != "":
            raise Violation(what="an empty answer was expected", how=how, line=line,
                            argv=argv, got=got, **more)
    else:
        raise AssertionError(kind)


def oneshot_text(r, line, argv):
    """The answer of a one-shot run as shown in a session, or Violation"""
    if r.timeout:
        raise Inconclusive("one-shot evaluation timed out: %r" % line[:200])
    if r.value is not None:
        return r.value
    if r.is_error:
        return r.err.rstrip("\n")
    raise Violation(what="neither a result nor an error message", line=line, argv=list(argv),
                    run=r.as_dict())


def eval_oneshot(binary, line, argv, timeout=30, cheap=False):
    if cheap:
        r = oneshot.ev(binary, line, argv, timeout=120, cpu=CPU_LIMIT)
        if r.out_of_cpu:
            raise Violation(what="no answer within %d CPU seconds" % CPU_LIMIT, line=line, argv=list(argv))
    else:
        r = oneshot.ev(binary, line, argv, timeout=timeout)
    return oneshot_text(r, line, argv)
