"""SimDisk: files under one scratch root, every raw read and write decided by the plan.

Real files back the simulation (so os.path works); every byte goes through
SimRaw, which counts operations and injects what the plan says:

  ["disk", op, n, kind]     op: open_w open_r write read close;  n: the n-th such operation
  kinds  eio enospc eacces edquot  the operation fails
         (torn@370: 370 per mille of them)
         short              a write / read transfers fewer bytes than asked
         torn               half of the bytes reach the file, then EIO
         crash              the process dies inside the operation
         crash_torn         half of the bytes reach the file, then the process dies
"""
import errno
import io
import os

from . import seams
from .core import SimCrash

ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "edquot": errno.EDQUOT, "emfile": errno.EMFILE, "enoent": errno.ENOENT}


class SimRaw(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        self._w = any(c in mode for c in "wax+")
        super().__init__(path, mode)
        if self._w:
            disk.dirty.add(path)

    def write(self, b):
        d = self._disk
        if d.dead:
            return len(b)
        kind, _, frac = (d.tick("write", self.name) or "").partition("@")
        frac = int(frac or 500)
        mv = memoryview(b).cast("B")
        if kind == "short" and len(mv) > 1:
            d.env.fault("disk_short_write")
            return super().write(mv[: max(1, len(mv) // 2)])
        if kind in ("torn", "crash_torn"):
            super().write(mv[: len(mv) * frac // 1000])
        if kind == "torn":
            d.env.fault("disk_torn_write")
            raise OSError(errno.EIO, "injected torn write")
        if kind in ("crash", "crash_torn"):
            d.env.fault("process_crash_in_write")
            d.dead = True
            raise SimCrash(f"write {self.name}")
        d.fail(kind, "write")
        return super().write(mv)

    def _short(self, n, kind):
        d = self._disk
        if kind == "short":
            d.env.fault("disk_short_read")
            return max(1, n // 3) if n and n > 0 else n
        d.fail(kind, "read")
        return n

    def readinto(self, b):
        kind = self._disk.tick("read", self.name)
        mv = memoryview(b).cast("B")
        n = self._short(len(mv), kind)
        return super().readinto(mv[:n])

    def read(self, n=-1):
        kind = self._disk.tick("read", self.name)
        if n is None or n < 0:
            self._disk.fail(kind if kind != "short" else None, "read")
            return super().read(n)
        return super().read(self._short(n, kind))

    def readall(self):
        kind = self._disk.tick("read", self.name)
        self._disk.fail(kind if kind != "short" else None, "read")
        return super().readall()

    def close(self):
        d = self._disk
        if not self.closed and self._w and not d.dead:
            kind = d.tick("close", self.name)
            if kind in ("crash", "crash_torn"):
                d.env.fault("process_crash_at_close")
                d.dead = True
                super().close()
                raise SimCrash("close")
            if kind in ERR:
                super().close()
                d.fail(kind, "close")
        super().close()


class SimDisk:
    def __init__(self, env, root, faults=(), buf=512):
        self.env, self.root, self.buf = env, os.path.abspath(root) + os.sep, buf
        os.makedirs(self.root, exist_ok=True)
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f[1], {})[int(f[2])] = f[3]
        self.ctr = {}
        self.dead = False
        self.dirty = set()
        self.handles = []

    def arm(self, faults):
        """New fault table, counters from zero."""
        self.faults, self.ctr = {}, {}
        for f in faults:
            self.faults.setdefault(f[0], {})[int(f[1])] = f[2]

    def tick(self, op, name):
        i = self.ctr.get(op, 0)
        self.ctr[op] = i + 1
        return self.faults.get(op, {}).get(i)

    def fail(self, kind, op):
        if kind in ERR:
            self.env.fault(f"disk_{op}_{kind}")
            raise OSError(ERR[kind], f"injected {kind} on {op}")

    def path(self, name):
        return self.root + name

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        w = any(c in mode for c in "wax+")
        op = "open_w" if w else "open_r"
        kind = self.tick(op, path)
        if kind == "crash" and not self.dead:
            self.env.fault("process_crash_at_open")
            self.dead = True
            raise SimCrash("open")
        if not self.dead:
            self.fail(kind, op)
        raw = SimRaw(self, path, mode.replace("t", "").replace("b", "") if True else mode)
        if "b" in mode and buffering == 0:
            return raw
        size = self.buf
        if "+" in mode:
            b = io.BufferedRandom(raw, size)
        elif w:
            b = io.BufferedWriter(raw, size)
        else:
            b = io.BufferedReader(raw, size)
        self.handles.append(b)
        if "b" in mode:
            return b
        t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t

    def open_handles(self):
        return [h for h in self.handles if not h.closed]

    def restart(self, keep=None):
        """After a crash: unsynced files may lose their tail (`keep` per mille)."""
        self.dead = True  # nothing that is still buffered reaches a file
        for h in self.handles:
            try:
                h.close()
            except Exception:
                pass
        self.handles = []
        for p in sorted(self.dirty):
            if keep is not None and os.path.exists(p):
                n = os.path.getsize(p)
                os.truncate(p, n * keep // 1000)
                self.env.fault("disk_lost_tail")
        self.dirty = set()
        self.dead = False
        self.arm([])

    def synced(self):
        self.dirty = set()
