"""One-shot runs (--input) of the real binary."""
import os
import resource
import signal
import subprocess


class Ran:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def as_dict(self):
        return {"rc": self.rc, "stdout": self.out[:2000], "stderr": self.err[:2000],
                "timeout": self.timeout}

    @property
    def out_of_cpu(self):
        return self.rc in (-signal.SIGXCPU, -signal.SIGKILL) and not self.timeout

    @property
    def crashed(self):
        """died from a signal or panicked"""
        return (not self.timeout) and not self.rc == -signal.SIGXCPU and (self.rc < 0 or self.rc == 101
                                       or "panicked at" in self.err)

    @property
    def is_error(self):
        return self.rc == 0 and self.out == "" and self.err.startswith("Error: ") \
            and len(self.err) > 8

    @property
    def value(self):
        """the displayed result, or None"""
        if self.rc == 0 and self.err == "" and self.out.endswith("\n"):
            return self.out[:-1]
        return None


BASE_ENV = {"PATH": "/usr/bin:/bin", "TERM": "xterm", "HOME": "/nonexistent",
            "RUST_BACKTRACE": "0"}


def run(binary, argv, env=None, timeout=30, cwd="/", preload=None, cpu=None):
    """cpu: limit in CPU seconds (the process is ended by SIGXCPU)"""
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    if preload:
        e["LD_PRELOAD"] = preload
    p = subprocess.Popen([binary] + list(argv), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, close_fds=False)
    if cpu:
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
        except OSError:
            pass
    try:
        out, err = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        to = True
    except BaseException:
        p.kill()
        p.wait()
        raise
    return Ran(p.returncode, out.decode("utf8", "replace"),
               err.decode("utf8", "replace"), to)


def ev(binary, text, options=(), **kw):
    """evaluate one expression"""
    return run(binary, list(options) + ["--input=" + text], **kw)
