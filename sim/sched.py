"""Deterministic thread scheduler: real threads, one baton, every preemption decided by a seed.

Only the thread that holds the baton runs.  Each executed source line (or bytecode instruction) of
the code under test is a scheduling point; at seeded points the baton moves to another thread.  The
switches made are recorded as [global step, next thread] and can be replayed or thinned out.
"""
import random
import sys
import threading
import zlib

from sim import env, faults as F


class TooLong(BaseException):
    pass


class Dispatch:
    """Backend controller with one sub-controller per thread."""

    def __init__(self, by_thread):
        self.by = by_thread          # index -> controller or None
        self.ident = {}

    def call(self, kind, name, fn, a, k):
        c = self.by.get(self.ident.get(threading.get_ident()))
        return fn(*a, **k) if c is None else c.call(kind, name, fn, a, k)


class Sched:
    def __init__(self, bodies, seed=None, gap=40.0, switches=None, opcodes=False, bombs=None, ctls=None,
                 max_steps=3_000_000, meet=None):
        self.bodies = bodies
        self.n = len(bodies)
        self.rng = random.Random(seed)
        self.gap = gap
        self.plan = None if switches is None else {int(s): int(t) for s, t in switches}
        self.opcodes = opcodes
        self.bombs = dict(bombs or {})       # thread -> step (thread-local) of an asynchronous exception
        self.bombed = {}
        self.step = 0
        self.tstep = [0] * self.n
        self.made = []
        self.sites = []
        self.alive = set(range(self.n))
        self.sem = [threading.Semaphore(0) for _ in range(self.n)]
        self.done = threading.Semaphore(0)
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.fine = -1
        self.next = self._draw()
        self.first = 0
        self.meet = meet if switches is None else None      # function name, or a number that selects functions
        self.met = [{} for _ in range(self.n)]
        self.inside = [None] * self.n
        self.waiting = set()
        self.max_steps = max_steps
        self.dispatch = Dispatch(ctls or {})

    def _draw(self):
        if self.plan is not None:
            return None
        gap = min(self.gap, 2.5) if self.step < self.fine else self.gap
        return self.step + 1 + int(self.rng.expovariate(1.0 / gap))

    def _meets(self, me, frame):
        """Threads wait for each other inside a chosen function, then take turns at small distances."""
        code = frame.f_code
        if isinstance(self.meet, str):
            if code.co_name != self.meet:
                return None
        elif zlib.crc32(f"{self.meet}/{code.co_name}".encode()) % (10 if self.meet < 1000 else 4):
            return None
        met = self.met[me]
        if self.inside[me] is frame or met.get(code, 0) >= (8 if isinstance(self.meet, str) else 3):
            return None
        self.inside[me] = frame
        met[code] = met.get(code, 0) + 1
        others = sorted(self.alive - self.waiting - {me})
        if others:
            self.waiting.add(me)
            return self.rng.choice(others)
        self.waiting.clear()
        self.fine = self.step + 150
        self.next = self._draw()
        return None

    def _switch(self, me, to):
        self.sem[to].release()
        self.sem[me].acquire()

    def _point(self, me, frame):
        self.step += 1
        self.tstep[me] += 1
        if self.step > self.max_steps:
            raise TooLong("too many steps")
        self.waiting.discard(me)
        meet = self._meets(me, frame) if self.meet is not None else None
        if self.plan is not None:
            to = self.plan.get(self.step)
        elif meet is not None:
            to = meet
        elif self.step >= self.next:
            others = sorted(self.alive - {me} - self.waiting) or sorted(self.alive - {me})
            to = self.rng.choice(others) if others else None
            self.next = self._draw()
        else:
            to = None
        if to is not None and to in self.alive and to != me:
            self.made.append([self.step, to])
            self.sites.append((me, frame.f_code.co_name, to))
            self._switch(me, to)
        if self.bombs.get(me) is not None and self.tstep[me] >= self.bombs[me]:
            del self.bombs[me]
            self.bombed[me] = frame.f_code.co_name
            raise F.InjectedInterrupt("injected")

    def _thread(self, i):
        self.sem[i].acquire()
        self.dispatch.ident[threading.get_ident()] = i
        event = "opcode" if self.opcodes else "line"

        def local(frame, ev, arg):
            if ev == event:
                self._point(i, frame)
            return local

        def glob(frame, ev, arg):
            if not env.in_repo(frame.f_code):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        try:
            sys.settrace(glob)
            try:
                self.results[i] = self.bodies[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:      # noqa
            self.errors[i] = e
        self.alive.discard(i)
        if self.alive:
            if self.plan is not None:
                to = self.plan.get(-1 - i)
                to = to if to in self.alive else min(self.alive)
            else:
                to = self.rng.choice(sorted(self.alive))
            self.made.append([-1 - i, to])
            self.sem[to].release()
        else:
            self.done.release()

    def run(self):
        from sim import seams
        seams.CTL = self.dispatch
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[self.first].release()
        self.done.acquire()
        for t in ts:
            t.join()
        seams.CTL = None
        return self.results
