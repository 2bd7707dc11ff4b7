"""Seams between the code under test and its nondeterministic or fallible environment.

Everything is installed once, before weac is imported, by replacing library attributes with
wrappers.  A wrapper consults the active controller only if the call comes from a frame of the
code under test; library-internal calls and the harness are never affected.  With no controller
active every wrapper is a plain pass-through.
"""
import sys
import builtins
import weakref as _weakref
import io
import os
import time as _time

from sim import env

CTL = None          # active backend controller (None: pass through)
CLOCK = None        # active simulated clock
FS = None           # active file-system controller
NOTEBOOK = [False]  # simulated front end
raw = {}            # original functions by seam name
_installed = False

BACKEND = {
    "numpy.linalg": ["eig", "solve", "inv", "eigvals", "lstsq", "pinv", "det"],
    "scipy.linalg": ["eig", "solve", "inv", "lstsq", "lu_factor", "lu_solve", "expm", "schur"],
    "scipy.optimize": ["brentq", "brenth", "bisect", "ridder", "toms748", "newton", "root_scalar",
                       "fsolve", "root"],
    "scipy.integrate": ["quad", "quad_vec", "fixed_quad", "romberg", "simpson", "trapezoid",
                        "cumulative_trapezoid", "solve_ivp"],
}
ALLOC = ["zeros", "full", "concatenate", "array", "empty", "ones", "linspace", "vstack", "hstack",
         "column_stack", "insert", "append"]
ROOTS = {"brentq", "brenth", "bisect", "ridder", "toms748", "newton", "root_scalar", "fsolve", "root"}


def _called_from_repo(depth=2):
    f = sys._getframe(depth)
    return env.in_repo(f.f_code)


def _wrap(name, kind, fn):
    def wrapper(*a, **k):
        ctl = CTL
        if ctl is None or not _called_from_repo():
            return fn(*a, **k)
        return ctl.call(kind, name, fn, a, k)
    wrapper.__name__ = getattr(fn, "__name__", name)
    wrapper.__doc__ = fn.__doc__
    wrapper.__wrapped__ = fn
    return wrapper


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import importlib
    import numpy as np
    for modname, names in BACKEND.items():
        mod = importlib.import_module(modname)
        for n in names:
            fn = getattr(mod, n, None)
            if fn is None:
                continue
            raw[modname + "." + n] = fn
            setattr(mod, n, _wrap(n, "root" if n in ROOTS else
                                  ("quad" if modname == "scipy.integrate" else "linalg"), fn))
    for n in ALLOC:
        fn = getattr(np, n)
        raw["numpy." + n] = fn
        setattr(np, n, _wrap(n, "alloc", fn))
    _install_clock()
    _install_fs()
    _install_notebook()


# ------------------------------------------------------------------------------- clock
# ------------------------------------------------------------------------------- identities
class Ids:
    """Object identities as a memory allocator hands them out, but reproducibly.

    The address of an object that has died is given to the next object asked about, as a real
    allocator does when it can; which addresses are reused does not depend on the real ones.
    """

    def __init__(self):
        self.table = {}     # real id -> (token, weak or strong reference)
        self.free = []
        self.made = 0

    def of(self, o):
        rid = _id(o)
        got = self.table.get(rid)
        if got is not None and (got[1]() if isinstance(got[1], _weakref.ref) else got[1]) is o:
            return got[0]
        self.sweep()
        if self.free:
            token = self.free.pop()
        else:
            self.made += 1
            token = 0x7F0000000000 + 48 * self.made
        try:
            ref = _weakref.ref(o)
        except TypeError:
            ref = o
        self.table[rid] = (token, ref)
        return token

    def sweep(self):
        for rid in list(self.table):
            token, ref = self.table.pop(rid)
            dead = ref() is None if isinstance(ref, _weakref.ref) else sys.getrefcount(ref) <= 2
            if dead:
                self.free.append(token)
            else:
                self.table[rid] = (token, ref)


IDS = Ids()
_id = id


def seam_id(o):
    return IDS.of(o)


def install_ids(modules):
    """Put the seam in the place of the builtin for the given modules."""
    for m in modules:
        if "id" not in vars(m):
            m.id = seam_id


def _install_clock():
    import timeit
    for n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns",
              "perf_counter_ns"):
        fn = getattr(_time, n)
        raw["time." + n] = fn

        def wrapper(fn=fn, n=n):
            c = CLOCK
            if c is None or not _called_from_repo():
                return fn()
            v = c.read(n)
            return int(v * 1e9) if n.endswith("_ns") else v
        setattr(_time, n, wrapper)
    raw["timeit.default_timer"] = timeit.default_timer
    timeit.default_timer = _time.perf_counter
    fn_sleep = _time.sleep
    raw["time.sleep"] = fn_sleep

    def sleep(s):
        c = CLOCK
        if c is None or not _called_from_repo():
            return fn_sleep(s)
        c.sleep(s)
    _time.sleep = sleep


# ------------------------------------------------------------------------------- notebook
def _install_notebook():
    class Events:
        def register(self, *a):
            pass

        def unregister(self, *a):
            pass

    class ZMQInteractiveShell:
        events = Events()

    class TerminalInteractiveShell:
        events = Events()
    shells = {True: ZMQInteractiveShell(), "terminal": TerminalInteractiveShell(), False: None}

    def get_ipython():
        return shells[NOTEBOOK[0]]
    try:
        import IPython
        import IPython.core.getipython as g
        IPython.get_ipython = get_ipython
        g.get_ipython = get_ipython
    except ImportError:
        pass


# ------------------------------------------------------------------------------- file system
def _install_fs():
    """Intercept file operations on paths inside the simulated directory (FS.root)."""
    def mine(path):
        fs = FS
        if fs is None:
            return None
        if isinstance(path, int):
            return fs if path in fs.fds else None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        q = p if os.path.isabs(p) else _join(_getcwd(), p)
        return fs if _normpath(q).startswith(fs.root) else None
    _join, _getcwd, _normpath = os.path.join, os.getcwd, os.path.normpath

    def wrap1(modobj, name, two=False):
        fn = getattr(modobj, name)
        raw["os." + name] = fn

        def wrapper(path, *a, **k):
            fs = mine(path)
            if fs is None or isinstance(path, int):
                return fn(path, *a, **k)
            return fs.op(name, fn, path, a, k)
        wrapper.__name__ = name
        setattr(modobj, name, wrapper)
    for n in ("mkdir", "stat", "lstat", "rename", "replace", "unlink", "remove", "rmdir", "open",
              "listdir", "access", "link", "symlink", "utime", "chmod", "truncate"):
        wrap1(os, n)

    def wrap_fd(name):
        fn = getattr(os, name)
        raw["os." + name] = fn

        def wrapper(fd, *a, **k):
            fs = FS
            if fs is None or fd not in fs.fds:
                return fn(fd, *a, **k)
            return fs.fdop(name, fn, fd, a, k)
        wrapper.__name__ = name
        setattr(os, name, wrapper)
    for n in ("write", "close", "fsync", "fdatasync", "ftruncate", "pwrite"):
        wrap_fd(n)
    _open = io.open
    raw["open"] = _open

    def open_(file, *a, **k):
        fs = mine(file)
        if fs is None:
            return _open(file, *a, **k)
        return fs.open(_open, file, a, k)
    builtins.open = open_
    io.open = open_
