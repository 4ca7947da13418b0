"""A disk that forgets: replays logged file-system calls and produces what may
be left after a power loss.

File contents are durable up to the file's last sync; of what was written
since, every 512-byte sector may or may not have reached the disk, and so may
size changes.  Names (created, removed, renamed) are durable once their
directory was synced.  A directory itself counts as durable once created."""
import os

from .fsshim import MKDIR, OPEN, RENAME, SYNC, TRUNC, UNLINK, WRITE

SECTOR = 512


class Inode:
    def __init__(self, data=b""):
        self.data = bytearray(data)     # as the running system sees it
        self.safe = bytes(data)         # durable
        self.pending = []               # ("w", offset, data) / ("t", size)


class Disk:
    def __init__(self, root):
        self.root = root
        self.now = {}                   # path -> Inode, as the running system sees it
        self.safe = {}                  # durable names
        self.pending = []               # ("+", path, inode) / ("-", path) / ("r", a, b, inode)
        for b, _, fs in os.walk(root):
            for n in fs:
                p = os.path.join(b, n)
                with open(p, "rb") as f:
                    i = Inode(f.read())
                self.now[p] = self.safe[p] = i
        self.stats = {"syncs": 0, "directory syncs": 0, "writes": 0}

    def apply(self, rec):
        """-> True if the record may have changed what the running system sees"""
        kind, path, off, res, data = rec
        if res is not None and res < 0:
            return False
        if kind == OPEN:
            if off & os.O_DIRECTORY or os.path.isdir(path):
                return False
            changed = False
            if path not in self.now and off & os.O_CREAT:
                i = Inode()
                self.now[path] = i
                self.pending.append(("+", path, i))
                changed = True
            if off & os.O_TRUNC and path in self.now and off & (os.O_WRONLY | os.O_RDWR):
                self.trunc(self.now[path], 0)
                changed = True
            return changed
        if kind == WRITE:
            i = self.now.get(path)
            if i is None or not data:
                return False
            self.stats["writes"] += 1
            if len(i.data) < off:
                i.data.extend(bytes(off - len(i.data)))
            i.data[off:off + len(data)] = data
            i.pending.append(("w", off, bytes(data)))
            return True
        if kind == TRUNC:
            i = self.now.get(path)
            if i is None:
                return False
            self.trunc(i, off)
            return True
        if kind == SYNC:
            if path in self.now:
                i = self.now[path]
                i.safe = bytes(i.data)
                i.pending = []
                self.stats["syncs"] += 1
            else:
                self.stats["directory syncs"] += 1
                d = path.rstrip("/")
                rest = []
                for op in self.pending:
                    if os.path.dirname(op[1]) == d:
                        self.name(self.safe, op)
                    else:
                        rest.append(op)
                self.pending = rest
            return False
        if kind == UNLINK:
            if path in self.now:
                op = ("-", path)
                self.name(self.now, op)
                self.pending.append(op)
                return True
            return False
        if kind == RENAME:
            to = data.decode("utf8", "surrogateescape")
            if path in self.now:
                op = ("r", path, to, self.now[path])
                self.name(self.now, op)
                self.pending.append(op)
                return True
        return False

    @staticmethod
    def trunc(i, size):
        if size < len(i.data):
            del i.data[size:]
        else:
            i.data.extend(bytes(size - len(i.data)))
        i.pending.append(("t", size))

    @staticmethod
    def name(names, op):
        if op[0] == "+":
            names[op[1]] = op[2]
        elif op[0] == "-":
            names.pop(op[1], None)
        else:
            names.pop(op[1], None)
            names[op[2]] = op[3]

    def at_stake(self):
        """how many unsynced changes there are"""
        return len(self.pending) + sum(len(i.pending) for i in set(self.now.values()) | set(self.safe.values()))

    def full(self):
        return {p: bytes(i.data) for p, i in self.now.items()}

    def crash(self, rng, mode):
        """-> path -> content, and a description of what was lost"""
        keep = {"none": 0.0, "all": 1.0, "most": 0.9, "few": 0.1, "half": 0.5}.get(mode, rng.random())
        lost = []
        names = dict(self.safe)
        if mode == "ordered":
            # a journalling file system: names survive up to some moment
            n = rng.randrange(len(self.pending) + 1)
            chosen = [k < n for k in range(len(self.pending))]
        elif mode == "names":
            chosen = [True] * len(self.pending)
        elif mode == "data":
            chosen = [False] * len(self.pending)
        else:
            chosen = [rng.random() < keep for _ in self.pending]
        for op, yes in zip(self.pending, chosen):
            if yes:
                self.name(names, op)
            else:
                lost.append("%s %s" % (op[0], os.path.basename(op[1])))
        out = {}
        wkeep = {"names": 0.0, "data": 1.0}.get(mode, keep)
        for p, i in names.items():
            out[p] = self.content(rng, i, wkeep, os.path.basename(p), lost)
        return out, lost

    def content(self, rng, i, keep, name, lost):
        if not i.pending:
            return i.safe
        b = bytearray(i.safe)
        tear = rng.random() < 0.5
        junk = rng.random() < 0.15
        for op in i.pending:
            if op[0] == "t":
                if rng.random() < keep:
                    if op[1] < len(b):
                        del b[op[1]:]
                    else:
                        b.extend(bytes(op[1] - len(b)))
                else:
                    lost.append("size %s %d" % (name, op[1]))
                continue
            off, data = op[1], op[2]
            whole = rng.random() < keep
            if not tear or not SECTOR < len(data):
                pieces = [(off, data, whole)]
            else:
                pieces = []
                p = off
                while p < off + len(data):
                    e = min((p // SECTOR + 1) * SECTOR, off + len(data))
                    pieces.append((p, data[p - off:e - off], rng.random() < keep))
                    p = e
            for p, d, yes in pieces:
                if yes:
                    if len(b) < p:
                        fill = p - len(b)
                        b.extend(bytes(rng.randrange(256) for _ in range(fill)) if junk else bytes(fill))
                    b[p:p + len(d)] = d
                else:
                    lost.append("%s %d+%d" % (name, p, len(d)))
        return bytes(b)


def write_out(files, root, to):
    for p, b in files.items():
        q = os.path.join(to, os.path.relpath(p, root))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)
