"""Interactive sessions of the real binary on a pseudo-terminal."""
import errno
import fcntl
import os
import re
import select
import signal
import struct
import termios
import time

from .core import Inconclusive, Stuck
from .emu import Emulator
from .oneshot import BASE_ENV

ENDLESS = 24 << 20      # bytes of output no key press can lead to (in the time waited)

KEYS = {
    "enter": b"\r", "backspace": b"\x7f", "delete": b"\x1b[3~",
    "up": b"\x1b[A", "down": b"\x1b[B", "right": b"\x1b[C", "left": b"\x1b[D",
    "home": b"\x1b[H", "end": b"\x1b[F",
    "c-left": b"\x1b[1;5D", "c-right": b"\x1b[1;5C",
    "s-left": b"\x1b[1;2D", "s-right": b"\x1b[1;2C",
    "c-n": b"\x0e", "c-c": b"\x03", "c-d": b"\x04", "c-z": b"\x1a",
}


class Died(Exception):
    """The calculator ended although it should not have."""

    def __init__(self, s, what):
        super().__init__(what)
        self.session = s


class Session:
    def __init__(self, binary, argv=(), env=None, rows=50, cols=20000, cwd="/",
                 start=True, wait=30, preload=None, answer_dsr=True, modes=None):
        self.binary, self.argv = binary, list(argv)
        self.emu = Emulator(rows, cols)
        self.emu.answer_dsr = answer_dsr
        self.rows, self.cols = rows, cols
        self.status = None
        self.wait_s = wait
        self.log = []
        self.out_raw = bytearray()
        self.keep_raw = False
        self.prompts = 0
        self.nudges = 0
        e = dict(BASE_ENV)
        if env:
            e.update(env)
        if preload:
            e["LD_PRELOAD"] = preload
        fd, slave = os.openpty()
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        if modes:
            modes(slave)
        self.modes0 = termios.tcgetattr(slave)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(fd)
                os.login_tty(slave)
                os.chdir(cwd)
                for sig in (signal.SIGINT, signal.SIGALRM, signal.SIGPIPE):
                    signal.signal(sig, signal.SIG_DFL)
                os.closerange(3, 256)
                os.execve(binary, [binary] + self.argv, e)
            finally:
                os._exit(127)
        self.pid, self.fd, self.slave = pid, fd, slave
        os.set_blocking(fd, False)
        self.inbuf = b""
        if start:
            try:
                self.wait_prompt()
            except BaseException:
                self.kill()
                raise

    # -- plumbing ---------------------------------------------------------
    def alive(self):
        if self.status is not None:
            return False
        try:
            p, st = os.waitpid(self.pid, os.WNOHANG)
        except ChildProcessError:
            self.status = -999
            return False
        if p:
            self.status = os.waitstatus_to_exitcode(st)
            return False
        return True

    def pump(self, timeout=0.0):
        """Move bytes once; True if something was read."""
        if self.emu.replies:
            self.inbuf = self.emu.replies + self.inbuf
            self.emu.replies = b""
        try:
            r, w, _ = select.select([self.fd], [self.fd] if self.inbuf else [], [], timeout)
        except (OSError, ValueError):
            return False
        got = False
        if r:
            try:
                data = os.read(self.fd, 65536)
            except OSError as ex:
                if ex.errno not in (errno.EIO, errno.EAGAIN):
                    raise
                data = b""
            if data:
                got = True
                if self.keep_raw:
                    self.out_raw += data
                self.emu.feed(data)
                if self.emu.replies:
                    self.inbuf = self.emu.replies + self.inbuf
                    self.emu.replies = b""
        if w and self.inbuf:
            try:
                n = os.write(self.fd, self.inbuf[:512])
                self.inbuf = self.inbuf[n:]
            except OSError as ex:
                if ex.errno not in (errno.EIO, errno.EAGAIN):
                    raise
        return got

    def nudge(self):
        """The terminal library (crossterm with mio's edge-triggered polling)
        reads at most 1 KiB when input arrives and looks for the rest only when
        more arrives.  An ignored event (focus gained) makes it look."""
        if self.pending_input() and not self.inbuf and self.idle_state():
            self.nudges += 1
            self.inbuf += b"\x1b[I"

    def idle_state(self):
        try:
            with open("/proc/%d/stat" % self.pid) as f:
                return f.read().rpartition(")")[2].split()[0] == "S"
        except OSError:
            return False

    def wait_for(self, cond, timeout=None, dead_ok=False):
        """Pump until cond() or the process ended.  Raises Inconclusive on
        time-out and Died when the process ended without cond()."""
        end = time.monotonic() + (timeout or self.wait_s)
        still = time.monotonic()
        length = self.emu.raw_len
        asleep = (None, 0)
        while True:
            if cond():
                return True
            if self.pump(0.02):
                still = time.monotonic()
                if still > end and self.emu.raw_len > length + ENDLESS:
                    raise Stuck("its output doesn't end (%d bytes)" % (self.emu.raw_len - length))
                continue
            if time.monotonic() > still + 1:
                self.nudge()
                still = time.monotonic()
            if cond():
                return True
            if not self.alive():
                while self.pump(0.02):
                    pass
                if cond():
                    return True
                if dead_ok:
                    return False
                raise Died(self, "the calculator ended (status %s)" % self.status)
            sw = self.switches()
            if sw is None or sw != asleep[0]:
                asleep = (sw, time.monotonic())
            rest = time.monotonic() - asleep[1] if sw is not None else 0
            if time.monotonic() > end or rest > 10:
                if rest > 3:
                    raise Stuck("it waits for keys that it has been given%s" % self.doing())
                raise Inconclusive("timed out waiting for the calculator%s" % self.doing())

    def switches(self):
        """while the process sleeps with no input left: its context switches"""
        if self.inbuf or self.emu.replies or self.pending_input():
            return None
        try:
            with open("/proc/%d/status" % self.pid) as f:
                t = f.read()
        except OSError:
            return None
        st = re.search(r"^State:\s+(\S)", t, re.M)
        n = re.search(r"^voluntary_ctxt_switches:\s+(\d+)", t, re.M)
        return int(n.group(1)) if n and st and st.group(1) == "S" else None

    def doing(self):
        try:
            with open("/proc/%d/wchan" % self.pid) as f:
                w = f.read()
            with open("/proc/%d/stat" % self.pid) as f:
                st = f.read().rpartition(")")[2].split()[0]
        except OSError:
            return " (gone)"
        return " (state %s, %s, %d unread, %d unsent, prompts %d of %d)" % (
            st, w, self.pending_input(), len(self.inbuf), self.emu.dsr, self.prompts)

    def wait_prompt(self, timeout=None):
        want = self.prompts + 1
        self.wait_for(lambda: self.emu.dsr >= want, timeout)
        self.prompts = want
        # the prompt itself is drawn right after the answer to the request,
        # which must not be kept waiting
        for _ in range(50):
            if not self.inbuf and not self.emu.replies:
                break
            self.pump(0.01)
        return self.emu.dsr_marks[-1]

    def pending_input(self):
        if self.slave is None:
            return 0
        try:
            b = fcntl.ioctl(self.slave, termios.FIONREAD, b"\0\0\0\0")
        except OSError:
            return 0
        return struct.unpack("i", b)[0]

    def idle(self):
        """The process has consumed all its input and sleeps."""
        if self.inbuf or self.pending_input():
            return False
        try:
            with open("/proc/%d/stat" % self.pid) as f:
                st = f.read().rpartition(")")[2].split()[0]
        except OSError:
            return True
        return st in "SZ"

    def settle(self, timeout=20, quiet=0.03):
        """Wait until all sent keys are consumed, the process sleeps and its
        output is drained.  Raises Inconclusive if that doesn't happen."""
        end = time.monotonic() + timeout
        calm = 0
        still = time.monotonic()
        length = self.emu.raw_len
        while True:
            if self.pump(0.004):
                calm = 0
                still = time.monotonic()
                if still > end and self.emu.raw_len > length + ENDLESS:
                    raise Stuck("its output doesn't end (%d bytes)" % (self.emu.raw_len - length))
                continue
            if time.monotonic() > still + 1:
                self.nudge()
                still = time.monotonic()
            if not self.alive():
                while self.pump(0.02):
                    pass
                return
            if self.idle():
                calm += 1
                if calm >= 3:
                    return
            else:
                calm = 0
            if time.monotonic() > end:
                raise Inconclusive("the calculator did not become idle")

    # -- actions ----------------------------------------------------------
    def send(self, data):
        self.log.append(data)
        if len(self.log) > 4000:
            del self.log[:2000]
        for i in range(0, len(data), 400):
            self.inbuf += data[i:i + 400]
            while self.inbuf:
                self.pump(0.01)
                if not self.inbuf:
                    break
                if not self.alive():
                    self.inbuf = b""
                    return
            if i + 400 < len(data):
                # let the reader catch up, its buffer is small
                end = time.monotonic() + self.wait_s
                still = time.monotonic()
                while self.pending_input() > 200 and self.alive():
                    if self.pump(0.002):
                        still = time.monotonic()
                    if time.monotonic() > still + 1:
                        self.nudge()
                        still = time.monotonic()
                    if time.monotonic() > end:
                        raise Inconclusive("input is not being read")

    def send_keys(self, seqs):
        """Send key sequences without cutting one in two."""
        block = b""
        for q in seqs:
            if len(block) + len(q) > 300:
                self.send(block)
                self.drain()
                block = b""
            block += q
        if block:
            self.send(block)

    def drain(self, limit=100):
        end = time.monotonic() + self.wait_s
        still = time.monotonic()
        while self.pending_input() > limit and self.alive():
            if self.pump(0.002):
                still = time.monotonic()
            if time.monotonic() > still + 1:
                self.nudge()
                still = time.monotonic()
            if time.monotonic() > end:
                raise Inconclusive("input is not being read")

    def key(self, name):
        self.send(KEYS[name])

    def submit(self, line, timeout=None):
        """Type a line, press Enter, wait for the next prompt; -> answer rows.
        Only for windows wide enough that nothing wraps."""
        if isinstance(line, str):
            line = line.encode("utf8")
        self.send(line + b"\r")
        return self.answer(timeout)

    def answer(self, timeout=None):
        before = self.emu.dsr_marks[-1][1]
        self.wait_prompt(timeout)
        s = self.emu.s
        after = self.emu.dsr_marks[-1][1]
        rows = []
        for n in range(before + 1, after):
            if n in s.wrapped and rows:
                rows[-1] += s.abs_text(n)
            else:
                rows.append(s.abs_text(n))
        return rows

    def ask(self, line, timeout=None):
        return "\n".join(self.submit(line, timeout))

    def resize(self, rows, cols):
        """Resize the window while nothing is being typed: the terminal
        library (crossterm with mio's edge-triggered polling) leaves input
        unread until the next key when a resize and input arrive at once."""
        self.settle()
        self.rows, self.cols = rows, cols
        self.emu.resize(rows, cols)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        for _ in range(5):
            self.pump(0.006)
        self.settle()

    def resize_now(self, rows):
        """Another height, whatever is being typed or displayed."""
        self.rows = rows
        self.emu.resize(rows, self.cols)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, self.cols, 0, 0))

    def close(self, key=b"\x04", timeout=30):
        """End the session with an exit key; -> exit status"""
        if self.alive():
            self.send(key)
            self.wait_for(lambda: not self.alive(), timeout, dead_ok=True)
        while self.pump(0.01):
            pass
        self._fds()
        return self.status

    def kill(self):
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
                self.status = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
            except (ProcessLookupError, ChildProcessError):
                self.status = -999
        self._fds()

    def _fds(self):
        for name in ("fd", "slave"):
            f = getattr(self, name)
            if f is not None:
                try:
                    os.close(f)
                except OSError:
                    pass
                setattr(self, name, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.fd is not None:
            self.kill()


def keys_of(line):
    return line.encode("utf8")
