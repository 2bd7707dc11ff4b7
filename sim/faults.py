"""Backend controllers: count, log and inject faults at the numerical seams."""
import cmath
import hashlib
import random

import numpy as np

LinAlgError = np.linalg.LinAlgError


class InjectedLinAlg(LinAlgError):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedRuntime(RuntimeError):
    pass


class InjectedValue(ValueError):
    pass


class InjectedFloat(FloatingPointError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


INJECTED = (InjectedLinAlg, InjectedMemory, InjectedRuntime, InjectedValue, InjectedFloat,
            InjectedInterrupt)
EXC = {"linalg": InjectedLinAlg, "memory": InjectedMemory, "runtime": InjectedRuntime,
       "value": InjectedValue, "float": InjectedFloat, "interrupt": InjectedInterrupt}


class Counter:
    """Pass-through controller that counts calls by kind (used to place faults inside operations)."""

    def __init__(self):
        self.n = {}
        self.names = []

    def call(self, kind, name, fn, a, k):
        self.n[kind] = self.n.get(kind, 0) + 1
        return fn(*a, **k)


MAXITER_POS = {"brentq": 6, "brenth": 6, "bisect": 6, "ridder": 6, "toms748": 7, "newton": 5}


def unconverged(name, fn, a, k):
    """Let a root finder run out of iterations, with whatever it does then by itself."""
    k = dict(k)
    if name == "root_scalar":
        k["maxiter"] = 1
    elif name in MAXITER_POS:
        if len(a) > MAXITER_POS[name]:
            a = a[:MAXITER_POS[name]] + (1,) + a[MAXITER_POS[name] + 1:]
        else:
            k["maxiter"] = 1
    elif name == "fsolve":
        k["maxfev"] = 2
    else:
        raise InjectedRuntime(f"injected: {name} failed to converge")
    return fn(*a, **k)


class FaultAt:
    """Raise at the n-th call (0-based) of the given kind; stays failed for `span` calls."""

    def __init__(self, kind, n, exc, span=1):
        self.kind, self.n, self.exc, self.span = kind, n, exc, span
        self.i = 0
        self.fired = 0
        self.site = None

    def call(self, kind, name, fn, a, k):
        if kind == self.kind:
            i = self.i
            self.i += 1
            if self.n <= i < self.n + self.span:
                self.fired += 1
                self.site = name
                if kind == "root" and self.exc == "runtime":
                    return unconverged(name, fn, a, k)
                raise EXC[self.exc](f"injected {self.exc} in {name}")
        return fn(*a, **k)


class EigVariant:
    """Legal variation of the eigen-solver: order, scale/phase and rounding of eigenpairs."""

    def __init__(self, seed, order=True, scale=True, rounding=True, same=False):
        self.rng = random.Random(seed)
        self.seed, self.same = seed, same       # same: equal matrices get equal answers
        self.order, self.scale, self.rounding = order, scale, rounding
        self.fired = 0

    def call(self, kind, name, fn, a, k):
        r = fn(*a, **k)
        if name != "eig" or not isinstance(r, tuple) or len(r) != 2:
            return r
        w, v = np.array(r[0]), np.array(r[1])
        n = len(w)
        rng = self.rng
        if self.same:
            rng = random.Random(f"{self.seed}/{hashlib.sha256(np.ascontiguousarray(a[0]).tobytes()).hexdigest()}")
        self.fired += 1
        if self.scale:
            done = set()
            for i in range(n):
                if i in done:
                    continue
                if np.iscomplexobj(w) and w[i].imag != 0:
                    j = next((j for j in range(n) if j != i and j not in done and w[j] == w[i].conjugate()), None)
                    f = rng.uniform(0.3, 3) * cmath.exp(1j * rng.uniform(0, 6.28))
                    v[:, i] *= f
                    if j is not None:
                        v[:, j] *= f.conjugate()
                        done.add(j)
                else:
                    v[:, i] *= rng.choice([-1, 1]) * rng.uniform(0.3, 3)
                done.add(i)
        if self.rounding:
            # one relative ulp-level error per eigenpair, conjugates kept exact
            for i in range(n):
                if np.iscomplexobj(w) and w[i].imag < 0:
                    continue
                e = 1 + rng.uniform(-2, 2) * 2.2e-16
                j = None
                if np.iscomplexobj(w) and w[i].imag > 0:
                    j = next((j for j in range(n) if w[j] == w[i].conjugate()), None)
                w[i] = w[i] * e
                if j is not None:
                    w[j] = w[i].conjugate()
        if self.order:
            p = list(range(n))
            rng.shuffle(p)
            w, v = w[p], v[:, p]
        if isinstance(r, tuple) and hasattr(r, "_replace"):
            return type(r)(w, v)
        return w, v


class QuadNoise:
    """Quadrature results with an error within the requested tolerance."""

    def __init__(self, seed, rel=8e-4):
        self.rng = random.Random(seed)
        self.rel = rel
        self.fired = 0

    def call(self, kind, name, fn, a, k):
        r = fn(*a, **k)
        if name == "quad" and isinstance(r, tuple):
            self.fired += 1
            return (r[0] * (1 + self.rel * self.rng.uniform(-1, 1)),) + tuple(r[1:])
        return r


class Chain:
    def __init__(self, *ctls):
        self.ctls = [c for c in ctls if c is not None]

    def call(self, kind, name, fn, a, k):
        f = fn
        for c in reversed(self.ctls):
            def f(*a, _c=c, _f=f, **k):
                return _c.call(kind, name, _f, a, k)
        return f(*a, **k)


class LineBomb:
    """Raise an asynchronous exception at the n-th executed line of the code under test."""

    def __init__(self, n, exc="interrupt", only_count=False):
        self.n, self.exc, self.only_count = n, exc, only_count
        self.i = 0
        self.fired = 0
        self.site = None

    def __enter__(self):
        import sys
        from sim import env
        self._sys = sys

        def local(frame, event, arg):
            if event == "line":
                i = self.i
                self.i += 1
                if not self.only_count and i == self.n:
                    self.fired += 1
                    self.site = f"{frame.f_code.co_name}:{frame.f_lineno}"
                    self._sys.settrace(None)
                    raise EXC[self.exc]("injected")
            return local

        def glob(frame, event, arg):
            return local if env.in_repo(frame.f_code) else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        self._sys.settrace(None)
        return False


class use:
    """Context manager activating a backend controller."""

    def __init__(self, ctl):
        self.ctl = ctl

    def __enter__(self):
        from sim import seams
        seams.CTL = self.ctl
        return self.ctl

    def __exit__(self, *a):
        from sim import seams
        seams.CTL = None
        return False
