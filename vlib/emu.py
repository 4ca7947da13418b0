"""A small terminal emulator (VT100 subset with alternate screen)."""
import re

_RUN = re.compile(rb"[\x20-\x7e]+")
_CSI = re.compile(rb"\x1b\[([?>=]?)([0-9;]*)([ -/]*)([@-~])")


class Screen:
    """Rows are lists of characters; `base` counts rows scrolled off the top,
    so that `base + row` identifies a row for good."""

    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.lines = [[] for _ in range(rows)]
        self.scrolled = []
        self.base = 0
        self.r = self.c = 0
        self.pending = False
        self.wrapped = set()     # absolute rows that continue the row above

    def text(self, row):
        return "".join(self.lines[row]).rstrip(" ")

    def abs_text(self, n):
        """text of an absolute row, also when scrolled off"""
        if n < self.base:
            return self.scrolled[n]
        return self.text(n - self.base)

    def scroll(self, n=1):
        for _ in range(n):
            self.scrolled.append(self.text(0))
            self.base += 1
            self.lines.pop(0)
            self.lines.append([])

    def lf(self):
        if self.r == self.rows - 1:
            self.scroll()
        else:
            self.r += 1
        self.pending = False

    def put(self, ch):
        if self.pending:
            self.c = 0
            self.lf()
            self.wrapped.add(self.base + self.r)
        line = self.lines[self.r]
        if len(line) <= self.c:
            line.extend(" " * (self.c - len(line) + 1))
        line[self.c] = ch
        if self.c == self.cols - 1:
            self.pending = True
        else:
            self.c += 1

    def put_run(self, text):
        """put() for each of some ASCII characters"""
        i, n = 0, len(text)
        while i < n:
            if self.pending:
                self.put(text[i])
                i += 1
                continue
            k = min(n - i, self.cols - self.c)
            line = self.lines[self.r]
            if len(line) < self.c:
                line.extend(" " * (self.c - len(line)))
            line[self.c:self.c + k] = text[i:i + k]
            self.c += k
            if self.c >= self.cols:
                self.c = self.cols - 1
                self.pending = True
            i += k

    def goto(self, r, c):
        self.r = max(0, min(self.rows - 1, r))
        self.c = max(0, min(self.cols - 1, c))
        self.pending = False

    def erase_line(self, mode):
        line = self.lines[self.r]
        if mode == 0:
            del line[self.c:]
        elif mode == 1:
            for i in range(min(self.c + 1, len(line))):
                line[i] = " "
        elif mode == 2:
            del line[:]

    def erase_display(self, mode):
        if mode == 0:
            del self.lines[self.r][self.c:]
            for i in range(self.r + 1, self.rows):
                self.lines[i] = []
        elif mode == 1:
            for i in range(self.r):
                self.lines[i] = []
            self.erase_line(1)
        elif mode in (2, 3):
            for i in range(self.rows):
                self.lines[i] = []

    def resize(self, rows, cols):
        """Resize without reflow (what xterm does)."""
        while len(self.lines) > rows:
            if self.r == len(self.lines) - 1:
                self.scrolled.append(self.text(0))
                self.base += 1
                self.lines.pop(0)
                self.r -= 1
            else:
                self.lines.pop()
        while len(self.lines) < rows:
            self.lines.append([])
        for line in self.lines:
            del line[cols:]
        self.rows, self.cols = rows, cols
        self.c = min(self.c, cols - 1)
        self.pending = False


class Emulator:
    def __init__(self, rows, cols):
        self.main = Screen(rows, cols)
        self.alt = None
        self.s = self.main
        self.buf = b""
        self.replies = b""
        self.dsr = 0                 # cursor position requests answered
        self.dsr_marks = []          # (screen name, absolute row, column)
        self.alt_entered = 0
        self.alt_left = 0
        self.modes = {}              # private modes that were set or reset
        self.unknown = []
        self.bells = 0
        self.raw_len = 0
        self.answer_dsr = True
        self.saved = (0, 0)

    @property
    def in_alt(self):
        return self.s is not self.main

    def feed(self, data):
        self.raw_len += len(data)
        buf = self.buf + data
        i, n = 0, len(buf)
        s = self.s
        while i < n:
            b = buf[i]
            if b == 0x1B:
                if i + 1 >= n:
                    break
                if buf[i + 1] == 0x5B:
                    m = _CSI.match(buf, i)
                    if not m:
                        if n - i < 64:
                            break
                        self.unknown.append(buf[i:i + 8])
                        i += 1
                        continue
                    i = m.end()
                    self.csi(m.group(1), m.group(2), m.group(4))
                    s = self.s
                    continue
                if buf[i + 1:i + 2] == b"7":
                    self.saved = (s.r, s.c)
                elif buf[i + 1:i + 2] == b"8":
                    s.goto(*self.saved)
                elif buf[i + 1:i + 2] == b"D":
                    s.lf()
                elif buf[i + 1:i + 2] == b"E":
                    s.lf()
                    s.c = 0
                else:
                    self.unknown.append(buf[i:i + 2])
                i += 2
            elif b >= 0x20 and b != 0x7F:
                if b < 0x80:
                    m = _RUN.match(buf, i)
                    i = m.end()
                    s.put_run(m.group().decode("ascii"))
                else:
                    k = 2 if b < 0xE0 else 3 if b < 0xF0 else 4
                    if i + k > n:
                        break
                    s.put(buf[i:i + k].decode("utf8", "replace")[0])
                    i += k
            else:
                if b == 0x0A:
                    s.lf()
                elif b == 0x0D:
                    s.c = 0
                    s.pending = False
                elif b == 0x08:
                    s.c = max(0, s.c - 1)
                    s.pending = False
                elif b == 0x09:
                    s.c = min(s.cols - 1, (s.c // 8 + 1) * 8)
                elif b == 0x07:
                    self.bells += 1
                elif b == 0x0B or b == 0x0C:
                    s.lf()
                i += 1
        self.buf = buf[i:]

    def csi(self, priv, params, final):
        s = self.s
        ps = [int(x) if x else 0 for x in params.split(b";")] if params else []

        def p(i, default=1):
            return ps[i] if i < len(ps) and ps[i] else default
        f = final
        if priv == b"?":
            if f in b"hl" and any(x in (1049, 47, 1047) for x in ps):
                if f == b"h":
                    self.alt_entered += 1
                    self.alt = Screen(s.rows, s.cols)
                    # a common terminal keeps the cursor where it was
                    self.alt.r, self.alt.c = (0, 0)
                    self.s = self.alt
                else:
                    self.alt_left += 1
                    self.s = self.main
                    if self.alt is not None and (
                            self.alt.rows, self.alt.cols) != (self.main.rows, self.main.cols):
                        self.main.resize(self.alt.rows, self.alt.cols)
            elif f in b"hl":
                for x in ps:
                    self.modes[x] = f == b"h"
            elif f == b"u":
                pass
            else:
                self.unknown.append(priv + params + final)
            return
        if f in (b"H", b"f"):
            s.goto(p(0) - 1, p(1) - 1)
        elif f == b"G" or f == b"`":
            s.goto(s.r, p(0) - 1)
        elif f == b"d":
            s.goto(p(0) - 1, s.c)
        elif f == b"A":
            s.goto(s.r - p(0), s.c)
        elif f == b"B" or f == b"e":
            s.goto(s.r + p(0), s.c)
        elif f == b"C" or f == b"a":
            s.goto(s.r, s.c + p(0))
        elif f == b"D":
            s.goto(s.r, s.c - p(0))
        elif f == b"E":
            s.goto(s.r + p(0), 0)
        elif f == b"F":
            s.goto(s.r - p(0), 0)
        elif f == b"J":
            s.erase_display(p(0, 0))
        elif f == b"K":
            s.erase_line(p(0, 0))
        elif f == b"X":
            line = s.lines[s.r]
            for i in range(s.c, min(len(line), s.c + p(0))):
                line[i] = " "
        elif f == b"P":
            del s.lines[s.r][s.c:s.c + p(0)]
        elif f == b"@":
            line = s.lines[s.r]
            if s.c < len(line):
                line[s.c:s.c] = " " * p(0)
                del line[s.cols:]
        elif f == b"S":
            s.scroll(min(p(0), s.rows))
        elif f == b"T":
            for _ in range(min(p(0), s.rows)):
                s.lines.insert(0, [])
                s.lines.pop()
        elif f == b"L":
            for _ in range(min(p(0), s.rows - s.r)):
                s.lines.insert(s.r, [])
                s.lines.pop()
        elif f == b"M":
            for _ in range(min(p(0), s.rows - s.r)):
                s.lines.pop(s.r)
                s.lines.append([])
        elif f == b"n":
            if p(0, 0) == 6:
                self.dsr += 1
                self.dsr_marks.append(
                    ("alt" if self.in_alt else "main", s.base + s.r, s.c))
                if self.answer_dsr:
                    self.replies += b"\x1b[%d;%dR" % (s.r + 1, s.c + 1)
        elif f == b"s":
            self.saved = (s.r, s.c)
        elif f == b"u":
            s.goto(*self.saved)
        elif f in b"mrhltcq":
            pass
        else:
            self.unknown.append(priv + params + final)

    def resize(self, rows, cols):
        self.s.resize(rows, cols)
        if self.in_alt:
            pass
