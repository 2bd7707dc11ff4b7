"""Processes that advance one file-system operation at a time, in an order chosen by a seeded scheduler."""
import fcntl
import json
import os
import random
import struct

from sim import seams, vfs


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("!I", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        c = os.read(fd, n - len(buf))
        if not c:
            return None
        buf += c
    return buf


def _recv(fd):
    h = _read(fd, 4)
    if h is None:
        return None
    return json.loads(_read(fd, struct.unpack("!I", h)[0]))


class Proc:
    """A forked process that stops before every operation on the simulated disk and between its tasks."""

    def __init__(self, root, tasks):
        cr, pw = os.pipe()      # parent -> child
        pr, cw = os.pipe()      # child -> parent
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(pw)
                os.close(pr)
                self._child(root, tasks, cr, cw)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.r, self.w = pr, pw
        self.at = _recv(self.r)
        self.killed = False

    @staticmethod
    def _child(root, tasks, rd, wr):
        def stop(msg):
            _send(wr, msg)
            go = _recv(rd)
            if go is None or go == "kill":
                os._exit(9)
            return go

        def hook(kind, rel, size):
            go = stop(["op", kind, rel, size])
            return go if isinstance(go, int) and not isinstance(go, bool) else None
        class Clock:
            now = 1.7e9

            def read(self, name):
                self.now += 1e-4
                return self.now

            def sleep(self, sec):
                self.now += sec
                stop(["op", "sleep", "", 0])
        seams.CLOCK = Clock()

        def polling(fn, lock_nb):
            def lock(fd, op, *a):
                while True:
                    stop(["op", "lock", "", 0])
                    try:
                        return fn(fd, op | lock_nb, *a)
                    except BlockingIOError:
                        if op & lock_nb:
                            raise
            return lock
        fcntl.flock = polling(fcntl.flock, fcntl.LOCK_NB)
        fcntl.lockf = polling(fcntl.lockf, fcntl.LOCK_NB)
        stop(["start"])
        for i, task in enumerate(tasks):
            with vfs.mounted(vfs.VFS(root, hook)):
                try:
                    out = task()
                except BaseException as e:      # noqa
                    out = f"{type(e).__name__}: {e}"
            stop(["result", i, out])

    @property
    def done(self):
        return self.at is None

    def go(self, reply=True):
        """Let the process run up to its next stop."""
        _send(self.w, reply)
        self.at = _recv(self.r)
        if self.at is None:
            self._reap()

    def kill(self):
        self.killed = True
        _send(self.w, "kill")
        self.at = None
        self._reap()

    def _reap(self):
        for fd in (self.r, self.w):
            os.close(fd)
        os.waitpid(self.pid, 0)


class Scheduler:
    """Which process runs next: seeded, or as recorded in `switches` ([step, process])."""

    def __init__(self, seed, p_switch, switches=None):
        self.rng = random.Random(seed)
        self.p = p_switch
        self.given = {s: c for s, c in switches} if switches is not None else None
        self.made = []
        self.step = 0
        self.cur = 0
        self.stay = 0

    def pick(self, runnable):
        s = self.step
        self.step += 1
        self.stay += 1
        if self.stay > 300 and len(runnable) > 1 and s not in (self.given or {}):
            # fairness: nobody waits forever for a process that is polling
            c = [r for r in runnable if r != self.cur][s % (len(runnable) - (self.cur in runnable))]
            self.made.append([s, c])
            self.cur, self.stay = c, 0
            return c
        if self.given is not None:
            c = self.given.get(s, self.cur)
            if c not in runnable:
                c = self.cur if self.cur in runnable else runnable[0]
        elif self.cur not in runnable or self.rng.random() < self.p:
            c = self.rng.choice(runnable)
        else:
            c = self.cur
        if c != self.cur:
            self.made.append([s, c])
            self.cur, self.stay = c, 0
        return c
