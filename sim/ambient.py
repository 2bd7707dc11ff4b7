"""The process around the library: state it must neither depend on nor disturb."""
import asyncio
import atexit
import builtins
import decimal
import gc
import hashlib
import io
import locale
import logging
import os
import multiprocessing
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings

import numpy as np

SIGNALS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE, signal.SIGFPE]


def _h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def snapshot():
    """All watched ambient state as a flat dict."""
    plt = sys.modules.get("matplotlib.pyplot")
    mpl = sys.modules.get("matplotlib")
    st = np.random.get_state()
    um = os.umask(0o22)
    os.umask(um)
    root = logging.getLogger()
    return {
        "numpy random state": _h((st[0], st[1].tobytes(), st[2:])),
        "random state": _h(random.getstate()),
        "numpy error state": str(sorted(np.geterr().items())) + str(np.geterrcall()),
        "numpy buffer size": np.getbufsize(),
        "numpy print options": str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "warning filters": _h([(f[0], str(f[1]), str(f[2]), str(f[3]), f[4]) for f in warnings.filters]),
        "warning hooks": (id(warnings.showwarning), id(warnings.formatwarning)),
        "decimal context": str(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "working directory": os.getcwd(),
        "environment": _h(sorted(os.environ.items())),
        "umask": um,
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "signal handlers": str([(int(s), str(signal.getsignal(s))) for s in SIGNALS]),
        "alarm": signal.getitimer(signal.ITIMER_REAL)[0] != 0,
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "threads": threading.active_count(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()),
                  id(threading.excepthook)),
        "logging": (root.level, len(root.handlers), logging.root.manager.disable),
        "import path": _h(sys.path),
        "builtins": _h(sorted(k for k in vars(builtins) if k != "_")),
        "library functions": tuple(id(f) for f in (
            np.linalg.eig, np.linalg.solve, np.zeros, np.array, np.concatenate, os.getcwd, os.path.join, time.time,
            builtins.open, builtins.print)),
        "integer digits": sys.get_int_max_str_digits(),
        "time zone": time.tzname,
        "interactive": hasattr(sys, "ps1"),
        "exit handlers": atexit._ncallbacks(),
        "resource limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                            resource.RLIMIT_CORE)],
        "processor affinity": sorted(os.sched_getaffinity(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "socket timeout": socket.getdefaulttimeout(),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "event loop policy": type(getattr(asyncio.events, "_event_loop_policy", None)).__name__ not in ("NoneType",),
        "bytecode": sys.dont_write_bytecode,
        "loggers": sorted((k, v.level, len(v.handlers), v.disabled) for k, v in root.manager.loggerDict.items()
                          if isinstance(v, logging.Logger) and (v.level or v.handlers or v.disabled)),
        "plot backend": (mpl.get_backend(), plt.isinteractive()) if plt else None,
    }


def open_files():
    """What this process has open (fonts are kept open by matplotlib)."""
    out = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if not t.endswith((".ttf", ".afm", ".otf", ".pfb", ".ttc")) and "/proc/" not in t:
            out.add((fd, t))
    return out


def leaked_files(before):
    new = open_files() - before
    if new:
        gc.collect()
        new = open_files() - before
    return sorted(new)


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


KINDS = ["random", "errstate", "print options", "warnings", "decimal", "cwd", "environ", "umask", "recursion", "switch",
         "signals", "gc", "stdout", "logging", "buffer", "pyplot", "limits"]


def gen(rng, n=None):
    """A list of ambient changes, each [kind, parameter]."""
    ks = rng.sample(KINDS, n or rng.randint(1, 5))
    return [[k, rng.randrange(1 << 30)] for k in ks]


def handler(*a):
    pass


class Log:
    def write(self, *a):
        pass


def apply(change, scratch):
    """Set the process up as another user of it might have."""
    kind, p = change
    r = random.Random(p)
    if kind == "random":
        np.random.seed(p % (1 << 32))
        random.seed(p)
    elif kind == "errstate":
        np.seterrcall(Log())
        np.seterr(**{k: r.choice(["ignore", "warn", "log", "print"]) for k in ("divide", "over", "under", "invalid")})
    elif kind == "print options":
        np.set_printoptions(precision=r.randint(0, 12), suppress=r.random() < 0.5, threshold=r.choice([0, 5, 1000]),
                            legacy=r.choice([False, "1.13", "1.25"]))
    elif kind == "warnings":
        warnings.resetwarnings()
        warnings.simplefilter(r.choice(["ignore", "always", "default", "once"]))
    elif kind == "decimal":
        decimal.getcontext().prec = r.randint(1, 40)
    elif kind == "cwd":
        d = os.path.join(scratch, f"d{p}")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif kind == "environ":
        os.environ.update({"TZ": r.choice(["UTC", "Asia/Kathmandu", "America/St_Johns"]), "LANG": r.choice(["C", "de_DE.UTF-8"]),
                           "LC_ALL": r.choice(["C", "tr_TR"]), "COLUMNS": str(r.randint(1, 200)),
                           "HOME": r.choice(["/nonexistent", scratch])})
        time.tzset()
    elif kind == "umask":
        os.umask(r.choice([0, 0o77, 0o27]))
    elif kind == "recursion":
        sys.setrecursionlimit(r.choice([1500, 3000, 20000]))
    elif kind == "switch":
        sys.setswitchinterval(r.choice([1e-6, 1e-4, 0.5]))
    elif kind == "signals":
        for s in SIGNALS[:4]:
            signal.signal(s, r.choice([handler, signal.SIG_IGN, signal.SIG_DFL]))
    elif kind == "gc":
        (gc.disable if r.random() < 0.5 else gc.enable)()
        gc.set_threshold(r.choice([1, 50, 700, 100000]), 5, 5)
    elif kind == "stdout":
        sys.stdout = r.choice([io.StringIO(), None, io.TextIOWrapper(io.BytesIO(), encoding="ascii")])
    elif kind == "logging":
        logging.getLogger().setLevel(r.choice([10, 40]))
    elif kind == "buffer":
        np.setbufsize(r.choice([1024, 8192, 65536]))
    elif kind == "pyplot":
        plt = sys.modules.get("matplotlib.pyplot")
        if plt:
            (plt.ion if r.random() < 0.7 else plt.ioff)()
    elif kind == "limits":
        k = r.choice(["nofile", "priority", "affinity"])
        if k == "nofile":
            resource.setrlimit(resource.RLIMIT_NOFILE, (r.choice([256, 512]), resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
        elif k == "priority":
            os.setpriority(os.PRIO_PROCESS, 0, min(19, os.getpriority(os.PRIO_PROCESS, 0) + 1))
        elif k == "affinity":
            have = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, have[:max(1, len(have) - 1)])
