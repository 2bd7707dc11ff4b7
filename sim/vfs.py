"""Simulated disk: real files in a scratch directory behind a raw device that can fail, write short,
fill up or be interleaved with other processes at every operation."""
import errno
import io
import os

from sim import seams


class Raw(io.RawIOBase):
    """Raw file of the simulated disk."""

    def __init__(self, vfs, path, mode, closefd=True, opener=None):
        super().__init__()
        self._vfs, self._f = vfs, io.FileIO(path, mode, closefd=closefd, opener=opener)
        self._fd = self._f.fileno()
        self._path = vfs.fds.get(path, path) if isinstance(path, int) else path
        if opener is not None:
            self._path = vfs.fds.get(self._fd, path)
        self._rel = vfs.rel(self._path)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def write(self, b):
        b = bytes(b)
        n = self._vfs.event("write", self._rel, len(b))
        b = b[:n]
        return self._f.write(b)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
            if self._f.writable():
                self._vfs.event("close", self._rel)
        finally:
            self._vfs.fds.pop(self._fd, None)
            self._f.close()

    @property
    def name(self):
        return self._path


class VFS:
    """Controller installed as seams.FS.  `hook(kind, rel, size)` may raise OSError or return a short length."""

    def __init__(self, root, hook=None):
        self.root = os.path.realpath(root)
        self.hook = hook
        self.events = []
        self.cap = None     # bytes left on the disk
        self.fds = {}       # descriptors opened with os.open

    def rel(self, path):
        p = os.fspath(path)
        p = p if os.path.isabs(p) else os.path.join(os.getcwd(), p)
        return os.path.relpath(os.path.normpath(p), self.root)

    def event(self, kind, rel, size=0):
        n = size
        if self.hook:
            r = self.hook(kind, rel, size)
            if r is not None:
                n = max(1, min(n, r)) if size else 0
        if kind == "write" and self.cap is not None:
            if self.cap <= 0 and size:
                self.events.append(["disk full", rel])
                raise OSError(errno.ENOSPC, "No space left on device (simulated)", rel)
            n = min(n, self.cap)
            self.cap -= n
        self.events.append([kind, rel])
        return n

    def op(self, name, fn, path, a, k):
        if name in ("stat", "lstat", "access", "listdir"):
            self.event("stat", self.rel(path))
        else:
            self.event(name, self.rel(path))
        r = fn(path, *a, **k)
        if name == "open":
            self.fds[r] = os.fspath(path)
        return r

    def fdop(self, name, fn, fd, a, k):
        rel = self.rel(self.fds[fd])
        if name == "write":
            data = bytes(a[0])
            return fn(fd, data[:self.event("write", rel, len(data))])
        if name == "close":
            del self.fds[fd]
            try:
                self.event("close", rel)
            finally:
                fn(fd)
            return None
        self.event(name, rel)
        return fn(fd, *a, **k)

    def open(self, fn, file, a, k):
        mode = a[0] if a else k.get("mode", "r")
        buffering = a[1] if len(a) > 1 else k.get("buffering", -1)
        if not set(mode) & set("wax+"):
            return fn(file, *a, **k)
        opener = a[6] if len(a) > 6 else k.get("opener")
        if isinstance(file, int):
            raw = Raw(self, file, "".join(c for c in mode if c not in "bt"), a[5] if len(a) > 5 else k.get("closefd", True))
        else:
            if opener is None:
                self.event("open", self.rel(file))
            raw = Raw(self, os.fspath(file), "".join(c for c in mode if c not in "bt"), True, opener)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding=k.get("encoding") or "utf-8")


class mounted:
    """Route file operations below a directory through a controller."""

    def __init__(self, vfs):
        self.vfs = vfs

    def __enter__(self):
        seams.FS = self.vfs
        return self.vfs

    def __exit__(self, *a):
        seams.FS = None
        return False


class Faults:
    """Seeded disk faults.  Each fault: {"kind", "n", "errno", "span"} or {"kind": "short"} or {"kind": "full", "bytes"}."""

    def __init__(self, faults, rng):
        self.faults, self.rng = faults, rng
        self.count = {}
        self.fired = []
        self.short = any(f["kind"] == "short" for f in faults)

    def __call__(self, kind, rel, size):
        i = self.count.get(kind, 0)
        self.count[kind] = i + 1
        for f in self.faults:
            if f["kind"] == kind and f["n"] <= i < f["n"] + f.get("span", 1):
                self.fired.append(f"{f['errno']} at {kind}")
                raise OSError(getattr(errno, f["errno"]), os.strerror(getattr(errno, f["errno"])) + " (simulated)", rel)
        if self.short and kind == "write" and size > 1:
            self.fired.append("short write")
            return self.rng.randint(1, size)
        return None
