"""Control and logs of the file-system shim (shim/fsshim.c)."""
import mmap
import os
import struct

OPEN, READ, WRITE, TRUNC, SYNC, UNLINK, MKDIR, LOCK, CLOSE, PROBE, RENAME = (1 << i for i in range(11))
FOREIGN = 0x10000
KIND = {OPEN: "open", READ: "read", WRITE: "write", TRUNC: "truncate", SYNC: "sync", UNLINK: "unlink",
        MKDIR: "mkdir", LOCK: "lock", CLOSE: "close", PROBE: "access", RENAME: "rename"}
NONE, KILL, FAIL, DELAY = range(4)


class Shim:
    """Settings shared with one or more processes."""

    def __init__(self, ctx, watch, log=False, seed=1, everything=False):
        d = ctx.tmpdir()
        self.path = os.path.join(d, "ctl")
        self.logpath = os.path.join(d, "log") if log else None
        with open(self.path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(self.path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.so = ctx.shim
        self.env = {"FSSHIM_DIR": watch, "FSSHIM_CTL": self.path, "FSSHIM_SEED": str(seed)}
        if log:
            self.env["FSSHIM_LOG"] = self.logpath
        if everything:
            self.env["FSSHIM_ALL"] = "1"

    def get(self, i):
        return struct.unpack_from("q", self.m, 8 * i)[0]

    def put(self, i, v):
        struct.pack_into("q", self.m, 8 * i, v)

    @property
    def count(self):
        return self.get(0)

    @property
    def hits(self):
        return self.get(6)

    def off(self):
        self.put(2, NONE)

    def arm(self, action, at=0, mask=~0, err=0, persist=0, delay=0, permille=0, shortw=0):
        """count from zero, act at the call number `at`"""
        self.put(2, NONE)
        for i, v in ((0, 0), (1, at), (3, err), (4, mask), (5, persist), (6, 0), (7, delay), (8, permille), (9, shortw)):
            self.put(i, v)
        self.put(2, action)

    def log(self):
        """[(kind, path, offset, result, data)]"""
        try:
            with open(self.logpath, "rb") as f:
                b = f.read()
        except OSError:
            return []
        out, p = [], 0
        while p + 48 <= len(b):
            magic, kind, pl, off, dl, res = struct.unpack_from("6q", b, p)
            assert magic == 0x4c4f4721, "damaged shim log"
            p += 48
            path = b[p:p + pl].decode("utf8", "surrogateescape")
            p += pl
            out.append((kind, path, off, res, b[p:p + dl]))
            p += dl
        return out

    def close(self):
        self.m.close()
        self.f.close()
