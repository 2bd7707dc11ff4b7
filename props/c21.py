"""C21 Use can go on forever: no drift, no growing work, no accumulating state."""
import atexit
import copy
import gc
import os
import sys
import threading
import tracemalloc
import types
import warnings

from sim import env
weac, seams = env.load()
from weac import eigensystem, inverse, layered, mixins, plot, tools  # noqa
from sim import faults as F, gen as G, plotlab as P, session as S  # noqa
from props import c20 as H  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 90, "cap": 150, "limit": 400, "min_runs": 30}, "thorough": {"runs": 3000, "cap": 2400, "limit": 900}}
RULE = ("one run = a seeded cycle of operations (reconfigurations, segmentations, queries, helper calls or plots, some of "
        "them failing by themselves, by backend failures or by interrupts; on one model, on a new model per cycle, or in a "
        "new thread per cycle) repeated 12 to 1200 times with slightly different arguments each time; unchanged cycles "
        "early and late must give equal results and execute equally many lines, and live memory, models, figures, threads, "
        "files and registrations must not grow between two late cycles (growth is followed further until it stops or is "
        "certain). Non-trivial: at least one compared result and all cycles completed.")
STATE_MEASURE = "distinct (kind of cycle, operation kinds, fault kinds, number of cycles) tuples"
REAL = ["weac.Layered / weac.Inverse, weac.tools, weac.plot, examples/criterion_check.py", "numpy, scipy, matplotlib (Agg)"]
STUBS = ["numerical backend calls and matplotlib calls fail at seeded calls", "asynchronous exceptions at source lines",
         "raw file device of the scratch directory"]
ASSUMPTIONS = ["a cache that stops growing within the followed cycles is bounded",
               "memory is attributed by tracemalloc to lines of the code under test, and by reachability from models and modules"]
MODULES = (eigensystem, inverse, layered, mixins, plot, tools, weac)
CHEAP = ["solve", "raster", "field", "load", "zmesh", "state"]


def gen(rng, tier, i):
    x = rng.random()
    kind = "model" if x < 0.5 else "models" if x < 0.72 else "helpers" if x < 0.88 else "plots"
    scn = {"kind": kind, "thread": rng.random() < 0.2, "_lists": ["ops"]}
    if kind in ("model", "models"):
        n = rng.choice([40, 60, 300, 800 if tier == "quick" else 4000])
        long = n >= 300
        s = G.session(rng, n_ops=(2, 6), td_prob=0.1 if long else 0.35, kinds=CHEAP if long else None, bad=0.15)
        td = s["model"]["touchdown"]
        cost = {"ginc": 110, "stress": 20, "pot": 100, "stiff": 100, "thresholds": 300}
        ms = sum({"seg": 130 if td else 1, "q": cost.get(o.get("k"), 8) + 12 * (o.get("num") == 100)}.get(o["op"], 2)
                 for o in s["ops"])
        scn.update(s, cycles=int(min(n, max(18, (10000 if tier == "quick" else 60000) / ms))))
    elif kind == "helpers":
        pool = rng.sample(H.LIGHT, rng.randint(1, 4))
        n = rng.choice([60, 400])
        if n == 60:
            n = 18
            pool += rng.sample(H.MEDIUM, 1)
        scn.update(ops=[{"op": "call", "f": f, "a": H.args(rng, f)} for f in pool], cycles=n)
    else:
        ops = []
        for _ in range(rng.choice([1, 2])):
            op = {"op": "plot", "r": P.gen_request(rng)}
            if rng.random() < 0.3:
                op["broken"] = rng.choice(["request", "shape", "none"])
            ops.append(op)
        scn.update(ops=ops, cycles=12, thread=False)
    for op in scn["ops"]:
        if op["op"] == "plot":
            if rng.random() < 0.4 and "broken" not in op:
                op["_render"] = [rng.choice(["plt.", "ax.", "agg.", "canvas."]), rng.choice([0, 1, 2, rng.randint(0, 30)]),
                                 rng.choice(["memory", "runtime", "value", "interrupt"])]
        elif rng.random() < 0.2:
            op["_fault"] = [rng.choice(["linalg", "alloc", "root", "quad"]), rng.choice([0, 0, 1, 2, rng.randint(0, 30)]),
                            rng.choice(["linalg", "memory", "runtime", "value"])]
        elif rng.random() < 0.1:
            op["_bomb"] = rng.choice([rng.randint(1, 30), rng.randint(1, 600)])
    return scn


# ------------------------------------------------------------------------------- measuring
def footprint(roots):
    """Bytes reachable from the roots without leaving the code under test through modules, types or functions of others."""
    seen, todo, total = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, (types.FrameType, types.CodeType, type(sys), types.BuiltinFunctionType)):
            continue
        if isinstance(o, type) and not o.__module__.startswith("weac"):
            continue
        if isinstance(o, types.FunctionType):
            if env.in_repo(o.__code__):
                todo += [o.__dict__, o.__defaults__, o.__kwdefaults__, o.__closure__]
            continue
        total += sys.getsizeof(o)
        todo += gc.get_referents(o)
    return total


def count_live():
    n = {"models": 0, "figures": 0}
    for o in gc.get_objects():
        t = type(o)
        if t.__module__.startswith("weac."):
            n["models"] += 1
        elif t.__name__ == "Figure":
            n["figures"] += 1
    return n


def measure(model):
    """Amounts of things held by the process that use must not increase."""
    gc.collect()
    snap = tracemalloc.take_snapshot()
    held = sum(t.size for t in snap.traces if any(env.REPO in f.filename for f in t.traceback))
    del snap
    roots = [vars(m) for m in MODULES] + ([vars(model)] if model is not None else [])
    out = {"memory": held, "reachable": footprint(roots), "threads": threading.active_count(),
           "open files": len(os.listdir("/proc/self/fd")), "exit handlers": atexit._ncallbacks(),
           "warning filters": len(warnings.filters), "modules": len(sys.modules), "gc hooks": len(gc.callbacks),
           "open figures": len(P.plt.get_fignums()), "colormaps": len(P.matplotlib.colormaps),
           "files": len(os.listdir(os.getcwd())) + (len(os.listdir("plots")) if os.path.isdir("plots") else 0)}
    out.update(count_live())
    return out


class Lines:
    """Counts executed lines of the code under test."""

    def __init__(self):
        self.n = 0

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line":
                self.n += 1
            return local

        def glob(frame, event, arg):
            return local if env.in_repo(frame.f_code) else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------------------- cycles
def jitter(o, f, depth=0):
    if isinstance(o, float):
        return o * f
    if isinstance(o, list):
        return [jitter(v, f, depth + 1) for v in o]
    if isinstance(o, dict):
        return {k: (v if k.startswith("_") or k in ("z0", "dz") else jitter(v, f, depth + 1)) for k, v in o.items()}
    return o


class Cycle:
    def __init__(self, scn, res):
        self.scn, self.res = scn, res
        self.runner = None

    def begin(self):
        k = self.scn["kind"]
        if k == "model":
            if self.runner is None:
                self.runner = S.Runner(weac, self.scn)
        elif k == "models":
            self.runner = S.Runner(weac, self.scn)
        self.res.count("cycles")

    def model(self):
        return self.runner.model if self.runner is not None and self.scn["kind"] == "model" else None

    def one(self, op):
        if op["op"] == "call":
            return H.flat(H.clean(S.attempt(H.call, op["f"], H.prepare(op["f"], op["a"]))))
        if op["op"] == "plot":
            e = P.attempt(P.call, op["r"], op.get("broken"))
            return None if e is None else type(e).__name__
        return H.clean(S.attempt(self.runner.apply, {a: b for a, b in op.items() if not a.startswith("_")}))

    def faulty(self, op):
        """The operation under a fault; what comes of it is of no interest here."""
        try:
            if "_render" in op:
                rf = P.RenderFault(*op["_render"])
                P.RENDER[0] = rf
                try:
                    P.attempt(P.call, op["r"])
                finally:
                    P.RENDER[0] = None
                if rf.fired:
                    self.res.fault("failure at " + rf.fired)
                return
            if "_bomb" in op:
                with F.LineBomb(op["_bomb"]) as ctl:
                    self.one(op)
            else:
                ctl = F.FaultAt(*op["_fault"])
                with F.use(ctl):
                    self.one(op)
        except (F.InjectedInterrupt, KeyboardInterrupt):
            pass
        if ctl.fired:
            self.res.fault("interrupt" if "_bomb" in op else "backend failure (" + op["_fault"][0] + ")")

    def turn(self, k, plain):
        """One cycle; returns the results of its operations."""
        f = 1.0 if plain else 1 + 1e-4 * ((k * 0.6180339887) % 1)
        out = []
        self.begin()
        for op in self.scn["ops"]:
            op = op if plain or op["op"] == "plot" else jitter(op, f)
            if any(a in op for a in ("_fault", "_bomb", "_render")):
                self.faulty(op)
            out.append(self.one(op))
        return out

    def run(self, k, plain=False, lines=None):
        box = []

        def body():
            if lines is None:
                box.append(self.turn(k, plain))
            else:
                with lines:
                    box.append(self.turn(k, plain))
        if self.scn["thread"]:
            t = threading.Thread(target=body)
            t.start()
            t.join()
            if not box:
                raise RuntimeError("cycle failed in its thread")
        else:
            body()
        return box[0]


def follow_up(lines, kind):
    """Number of cycles for which growth is followed, from the executed lines of a cycle; 0: too expensive."""
    if kind == "plots":
        return 48
    if lines > 90000:
        return 0
    return int(min(1500, max(400, 8e6 / max(lines, 1))))


SLACK = {"memory": (1200, 24), "reachable": (600, 24)}


def grown(a, b, cycles, plots):
    """What grew between two measurements by more than noise (matplotlib fills caches of its own from our lines)."""
    out = {}
    for k in a:
        fix, per = SLACK.get(k, (0, 0))
        per *= 40 if plots and k == "memory" else 1
        if b[k] - a[k] > max(fix, per * cycles):
            out[k] = b[k] - a[k]
    return out


def run(scn, res):
    P.install()
    with P.workdir():
        soak(scn, res)


def soak(scn, res):
    c = Cycle(scn, res)
    n = scn["cycles"]
    has_bomb = any("_bomb" in op for op in scn["ops"])
    for op in scn["ops"]:
        if op["op"] == "plot" and op["r"]["fn"] not in ("crit", "err", "modes"):
            P.prepare(op["r"])
    warm = 3 if scn["kind"] == "plots" else 6
    for k in range(warm):
        c.run(k)
    c.run(0, plain=True)
    c.scn = dict(scn, ops=[{k: v for k, v in op.items() if k != "_bomb"} for op in scn["ops"]])
    cost = Lines()
    c.run(0, plain=True, lines=cost)
    c.scn = scn
    limit = follow_up(cost.n, scn["kind"])
    l0 = None if has_bomb else Lines()
    r0 = copy.deepcopy(c.run(0, plain=True, lines=l0))
    plots = scn["kind"] == "plots"
    win = min(n // 3, 50)
    for k in range(n - 2 * win):
        c.run(k)
    tracemalloc.start(1)
    try:
        for k in range(2):
            c.run(k)
        for k in range(n - 2 * win, n - win):
            c.run(k)
        m1 = measure(c.model())
        for k in range(n - win, n):
            c.run(k)
        m2 = measure(c.model())
        g = grown(m1, m2, win, plots)
        step, done = win, n
        if g and not limit and set(g) <= set(SLACK):
            res.count("growth too expensive to follow")
            g = {}
        while g and set(g) & set(SLACK) and done < limit + n:     # caches may fill up
            step = min(2 * step, 100)
            m1 = m2
            for k in range(done, done + step):
                c.run(k)
            done += step
            m2 = measure(c.model())
            res.count("growth followed")
            g = {k: v for k, v in grown(m1, m2, step, plots).items() if k in g}
        n = done
    finally:
        tracemalloc.stop()
    c.run(0, plain=True)
    l1 = None if has_bomb else Lines()
    r1 = c.run(0, plain=True, lines=l1)
    kinds = sorted({op["op"] + ":" + str(op.get("k", op.get("f", op.get("name", "")))) for op in scn["ops"] if op["op"] != "plot"}
                   | {op["r"]["fn"] for op in scn["ops"] if op["op"] == "plot"})
    res.states.append([scn["kind"], kinds, sorted({a for op in scn["ops"] for a in op if a in ("_fault", "_bomb", "_render")}), n])
    d = S.differ(r1, r0, rtol=1e-9)
    res.log.append([n, d, None if has_bomb else [l0.n, l1.n], sorted(g)])
    res.count("operations", n * len(scn["ops"]))
    res.count("results compared", len(r0))
    res.nontrivial = True
    if d:
        res.fail("drift", f"after {n} cycles of {kinds}: {d}")
    elif g:
        what = ", ".join(f"{k} +{v}" for k, v in sorted(g.items()))
        res.fail("growth", f"{what} over {step} cycles of {kinds}")
    elif not has_bomb and l1.n > 1.3 * l0.n + 60:
        res.fail("work", f"{l1.n} lines executed after {n} cycles of {kinds}, {l0.n} before")
