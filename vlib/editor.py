"""Model of the line editor and of the histories."""
from .session import KEYS

# keys that change nothing (crossterm's names in comments where not obvious)
IGNORED = [b"\x01", b"\x02", b"\x05", b"\x06", b"\x07", b"\x08", b"\x0a", b"\x0b", b"\x0c", b"\x0f",
           b"\x10", b"\x11", b"\x12", b"\x13", b"\x14", b"\x15", b"\x16", b"\x17", b"\x18", b"\x19",
           b"\x1c", b"\x1d", b"\x1e", b"\x1f", b"\x00",
           b"\t", b"\x1b[Z", b"\x1b[2~", b"\x1b[5~", b"\x1b[6~", b"\x1bOP", b"\x1bOQ", b"\x1bOR", b"\x1bOS",
           b"\x1b[15~", b"\x1b[17~", b"\x1b[24~", b"\x1ba", b"\x1bz", b"\x1bA", b"\x1b5", b"\x1b(", b"\x1b)",
           b"\x1bn", b"\x1bm", b"\x1bc", b"\x1bd", b"\x1b+", b"\x1b ", b"\x1b\x01", b"\x1b\x0e",
           b"\x1b[1;3D", b"\x1b[1;3C", b"\x1b[1;6D", b"\x1b[1;6C", b"\x1b[1;4C", b"\x1b[1;7D",
           b"\x1b[97;5u", b"\x1b[97;3u", b"\x1b[120;6u", b"\x1b[99;6u", b"\x1b[100;7u", b"\x1b[40;3u",
           b"\x1b[57358u", b"\x1b[57441u", b"\x1b[I", b"\x1b[O"]
NONASCII = ["\xe9", "\xdf", "\u20ac", "\u0416", "\u3000", "\u4e2d", "\U0001f600", "\u0301", "\u2212",
            "\xd7", "\xf7", "\x80", "\xa0", "\u0663", "\uff11", "\u200b"]
PRINTABLE = "".join(chr(c) for c in range(32, 127))


class Line:
    """A line with a cursor."""

    def __init__(self, text=""):
        self.text = text
        self.cur = len(text)

    def press(self, name):
        t, c = self.text, self.cur
        if len(name) == 1:
            self.text = t[:c] + name + t[c:]
            self.cur = c + 1
        elif name == "backspace":
            if c:
                self.text = t[:c - 1] + t[c:]
                self.cur = c - 1
        elif name == "delete":
            self.text = t[:c] + t[c + 1:]
        elif name == "left":
            self.cur = max(0, c - 1)
        elif name == "right":
            self.cur = min(len(t), c + 1)
        elif name in ("c-left", "s-left"):
            self.cur = max(0, c - 15)
        elif name in ("c-right", "s-right"):
            self.cur = min(len(t), c + 15)
        elif name == "home":
            self.cur = 0
        elif name == "end":
            self.cur = len(t)
        elif name == "c-n":
            self.cur = self.match()
        elif name == "ignored":
            pass
        else:
            raise AssertionError(name)

    def match(self):
        t, c = self.text, self.cur
        at = c if c < len(t) else len(t) - 1
        if at < 0 or t[at] not in "()":
            return c
        step = 1 if t[at] == "(" else -1
        n = 0
        i = at
        while 0 <= i < len(t):
            if t[i] == t[at]:
                n += 1
            elif t[i] in "()":
                n -= 1
            if n == 0:
                return i
            i += step
        return c


def random_key(rng, line, weights=None):
    """-> (model name, bytes)"""
    k = rng.random()
    if k < 0.42:
        ch = rng.choice("0123456789+-*/%^(),.()= $xyab") if rng.random() < 0.8 else rng.choice(PRINTABLE)
        if rng.random() < 0.03 and ch.isalpha():
            # an explicit Shift in the enhanced keyboard protocol
            return ch.upper(), b"\x1b[%d;2u" % ord(ch.lower())
        return ch, ch.encode()
    if k < 0.48:
        return "c-n", rng.choice([KEYS["c-n"], KEYS["c-n"], KEYS["c-n"], b"\x1b[110;5u", b"\x1b[109;5u"])
    if k < 0.9:
        n = rng.choice(["left", "left", "left", "right", "right", "c-left", "c-right", "s-left", "s-right",
                        "home", "end", "backspace", "backspace", "delete", "delete"])
        alt = {"home": [b"\x1b[1~", b"\x1bOH", b"\x1b[7~", b"\x1b[1;5H", b"\x1b[1;2H"],
               "end": [b"\x1b[4~", b"\x1bOF", b"\x1b[8~", b"\x1b[1;5F", b"\x1b[1;3F"],
               "left": [b"\x1bOD"], "right": [b"\x1bOC"],
               # whatever modifier is held
               "backspace": [b"\x1b\x7f", b"\x1b[127;5u", b"\x1b[127;2u"],
               "delete": [b"\x1b[3;5~", b"\x1b[3;2~", b"\x1b[3;3~"]}
        q = KEYS[n]
        if n in alt and rng.random() < 0.15:
            q = rng.choice(alt[n])
        return n, q
    if k < 0.96:
        return "ignored", rng.choice(IGNORED)
    return "ignored", rng.choice(NONASCII).encode()


class History:
    """Navigation over this session's lines and those stored when it began."""

    def __init__(self, store=None):
        self.store = store
        self.own = []                 # oldest first
        self.old = []                 # loaded from the store, newest first
        self.pos = store.hist[-1][0] if store is not None and store.hist else None
        self.edits = {0: ""}
        self.idx = 0
        self.line = Line("")

    def original(self, i):
        if i == 0:
            return ""
        if i <= len(self.own):
            return self.own[-i]
        return self.old[i - len(self.own) - 1]

    def keep(self):
        self.edits[self.idx] = self.line.text

    def go(self, i):
        self.keep()
        self.idx = i
        self.line = Line(self.edits.get(i, self.original(i)))

    def up(self):
        if self.idx >= len(self.own) + len(self.old):
            if self.pos is None:
                return
            ids = [i for i, _ in self.store.hist]
            if self.pos not in ids:
                self.pos = None
                return
            k = ids.index(self.pos)
            self.old.append(self.store.hist[k][1])
            self.pos = ids[k - 1] if k else None
        self.go(self.idx + 1)

    def down(self):
        if self.idx:
            self.go(self.idx - 1)

    def press(self, name):
        if name == "up":
            self.up()
        elif name == "down":
            self.down()
        else:
            self.line.press(name)

    def enter(self):
        """-> the submitted line (the caller stores it in the store)"""
        t = self.line.text
        self.own.append(t)
        self.edits = {0: ""}
        self.idx = 0
        self.line = Line("")
        return t
