"""C04 backend failures surface; whatever is returned is right."""
import copy

import numpy as np

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F  # noqa
from sim.battery import battery  # noqa
from props.c03 import place  # noqa
crit = env.load_criterion()
from weac import tools  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1500, "cap": 170, "limit": 300}, "thorough": {"runs": 25000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded session (or one criterion / touchdown-distance computation) in which single calls into "
        "the numerical backend fail at seeded positions inside operations; an operation may raise, but if it returns "
        "its result has to equal the fault-free one, and a setter that returns must have taken full effect. "
        "Non-trivial: at least one fault fired inside an operation.")
STATE_MEASURE = "distinct (operation, failing backend function, position class, exception type, outcome)"
REAL = ["weac.Layered / weac.Inverse, weac.tools.touchdown_distance, examples/criterion_check.py"]
STUBS = ["numpy.linalg, scipy.optimize, scipy.integrate calls and numpy array allocations fail at seeded calls"]
ASSUMPTIONS = ["a failing call raises (LinAlgError, MemoryError, RuntimeError, ValueError) or fails persistently for "
               "several calls; a root finder may also run out of iterations "
               "and answer as it does then by itself; no call returns wrong numbers without saying so",
               "criterion functions: root finder ValueErrors are excluded (they mean 'no sign change' there)"]
KINDS = ["linalg", "linalg", "alloc", "root", "quad"]


def gen_fault(rng, op, td):
    if op["op"] == "q":
        k = op["k"]
        kinds = (["quad", "quad", "quad", "linalg", "alloc"] if k == "ginc" else ["root", "root", "linalg", "alloc"] if k == "thresholds"
                 else ["linalg", "alloc", "alloc"] + (["quad"] if k == "stress" else []))
    elif op["op"] == "seg":
        kinds = ["root", "root", "linalg", "alloc"] if td else ["alloc"]
    else:
        kinds = ["linalg", "alloc"]
    m = rng.random()
    kind = rng.choice(kinds)
    return {"kind": kind, "exc": "runtime" if kind == "root" and rng.random() < 0.5 else
            rng.choice(["linalg", "memory", "runtime", "value", "float"]),
            "at": rng.random() if m < 0.5 else (-rng.randint(1, 6) if m < 0.75 else rng.randint(1, 6)),
            "span": rng.choice([1, 1, 1, 2, 1000])}


def gen(rng, tier, i):
    if rng.random() < (0.03 if tier == "quick" else 0.06):
        fn = rng.choice(["propagation", "skier_object", "min_force", "self_propagation", "touchdown_distance",
                         "touchdown_distance", "find_crack", "coupled"])
        return {"mode": "function", "fn": fn, "layers": [[G.uni(rng, 150, 300), G.uni(rng, 60, 200)] for _ in range(rng.choice([1, 2]))],
                "phi": G.uni(rng, 25, 40), "E": G.uni(rng, 0.2, 1.0), "t": G.uni(rng, 10, 30), "w": G.uni(rng, 50, 300),
                "faults": [{"kind": rng.choice(["linalg", "alloc", "quad"]), "exc": rng.choice(["memory", "runtime"]),
                            "at": rng.random(), "span": rng.choice([1, 1000])} for _ in range(3)]}
    s = G.session(rng, n_ops=(4, 10) if tier == "quick" else (4, 20), bad=0.0, td_prob=0.5)
    for _ in range(rng.choice([0, 0, 1, 2])):
        s["ops"].insert(rng.randint(1, len(s["ops"])), {"op": "q", "k": "ginc", "case": "crack"})
    if s["model"]["touchdown"]:
        for _ in range(rng.choice([0, 1, 2])):
            s["ops"].insert(rng.randint(1, len(s["ops"])), {"op": "q", "k": "thresholds"})
    for j, op in enumerate(s["ops"]):
        if rng.random() < 0.6:
            op["_fault"] = gen_fault(rng, op, s["model"]["touchdown"])
    return s


def reference_run(r, op):
    """The fault-free outcome on a new model, and the number of backend calls by kind."""
    c = F.Counter()
    try:
        m, segs = S.fresh(weac, r.cfg)
    except Exception:       # pylint: disable=broad-except
        return None, c
    q = S.Runner.__new__(S.Runner)
    q.__dict__.update(r.__dict__)
    q.model, q.segs = m, segs
    with F.use(c):
        out = S.attempt(q.apply, op)
    return (out, q), c


def run(scn, res):
    if scn.get("mode") == "function":
        return run_function(scn, res)
    r = S.Runner(weac, scn)
    td, system = scn["model"]["touchdown"], scn["model"]["system"]
    for n, op in enumerate(scn["ops"]):
        f = op.get("_fault")
        op = {k: v for k, v in op.items() if k != "_fault"}
        k = op["op"] + (":" + op["k"] if "k" in op else "")
        if r.skip(op):
            continue
        ref_, c = reference_run(r, op) if f else (None, None)
        total = c.n.get(f["kind"], 0) if f else 0
        if not total or ref_ is None:
            S.attempt(r.apply, op)
            continue
        want, q = ref_
        ctl = F.FaultAt(f["kind"], place(f["at"], total), f["exc"], f["span"])
        with F.use(ctl):
            try:
                out = r.apply(op)
            except Exception as e:      # pylint: disable=broad-except
                out = S.Failed(e)
        res.log.append([n, k, ctl.fired, ctl.site, isinstance(out, S.Failed)])
        if not ctl.fired:
            res.count("fault not reached")
            continue
        res.fault(f"{f['exc']} in {ctl.site} during {op['op']}")
        res.nontrivial = True
        failed = isinstance(out, S.Failed)
        res.states.append([system if td else "-", k, ctl.site, ctl.n < 3, ctl.n > total - 4, f["exc"], failed])
        res.count("raised" if failed else "returned")
        if not failed:
            # returned although a backend call failed: it must be right, in full
            if op["op"] == "q":
                d = S.differ(out, want)
            else:
                d = None
                if isinstance(want, S.Failed):
                    d = f"returned, but raises without the fault: {want}"
                elif q.segs is not None and not q.dirty and not (td and q.stale):
                    d = S.differ(battery(r.model, system, td, [(r.segs, r.phi)]),
                                 battery(q.model, system, td, [(q.segs, q.phi)]))
                elif op["op"] in ("beam", "found", "recompute") and not r.dirty and not td and r.segs is not None:
                    d = S.differ(battery(r.model, system, td, [(r.segs, r.phi)]),
                                 battery(q.model, system, td, [(r.segs, r.phi)]))
            if d:
                res.fail("wrong", f"op {n} {k}: {f['exc']} in {ctl.site} (call {ctl.n} of {total}) was swallowed: {d}", op=n)
                return
        elif op["op"] != "q":
            # go on from the fault-free state
            o2 = S.attempt(r.apply, op)
            if isinstance(o2, S.Failed) and not isinstance(want, S.Failed):
                r.segs, r.stale = None, True
                return


# ------------------------------------------------------------------------------ functions
def call(scn):
    lay, phi, E, t, w = (copy.deepcopy(scn[k]) for k in ("layers", "phi", "E", "t", "w"))
    li = [8000.0, 150.0, 150.0, 8000.0]
    ki = [True, False, False, True]
    fn = scn["fn"]
    if fn == "propagation":
        g, v = crit.check_crack_propagation_criterion(lay, phi, {"li": li, "ki": ki, "mi": None}, w, E=E, t=t)
        return {"g": g, "v": bool(v)}
    if fn == "skier_object":
        _, C, seg, x, s, ta = crit.create_skier_object(lay, w, phi, li, ki, "crack", E=E, t=t)
        return {"x": x, "s": s, "t": ta}
    if fn == "min_force":
        o = crit.find_minimum_force(lay, phi, [8000.0, 0, 0, 8000.0], [True] * 4, E=E, t=t, envelope="mede_s-RG1")
        return {"w": o[0], "s": o[5], "d": o[7]}
    if fn == "self_propagation":
        o = crit.find_min_crack_length_self_propagation(lay, phi, E, t, initial_interval=(20, 2000))
        return {"a": None if o is None else o}
    if fn == "touchdown_distance":
        a, b, c = tools.touchdown_distance(layers=lay, Ewl=E, t=max(t, 15), phi=phi)
        return {"a": a, "b": b, "c": c}
    if fn == "find_crack":
        o = crit.find_new_anticrack_length(lay, w, phi, li, ki, envelope="mede_s-RG1", E=E, t=t)
        return {"a": o[0], "li": list(o[1]), "ki": [bool(b) for b in o[2]]}
    if fn == "coupled":
        o = crit.check_coupled_criterion_anticrack_nucleation(lay, phi, w, envelope="mede_s-RG1", E=E, t=t)
        return {"v": bool(o[0]), "a": o[1], "w": o[2], "n": o[9], "ws": o[11], "g": o[16]}
    raise KeyError(fn)


def run_function(scn, res):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        c = F.Counter()
        with F.use(c):
            want = S.attempt(call, scn)
        for f in scn["faults"]:
            total = c.n.get(f["kind"], 0)
            if not total:
                continue
            ctl = F.FaultAt(f["kind"], place(f["at"], total), f["exc"], f["span"])
            with F.use(ctl):
                out = S.attempt(call, scn)
            res.log.append([scn["fn"], f["kind"], ctl.site, isinstance(out, S.Failed)])
            if not ctl.fired:
                res.count("fault not reached")
                continue
            res.fault(f"{f['exc']} in {ctl.site} during {scn['fn']}")
            res.nontrivial = True
            res.states.append([scn["fn"], ctl.site, f["exc"], isinstance(out, S.Failed)])
            if isinstance(out, S.Failed):
                res.count("raised")
                continue
            res.count("returned")
            d = f"raises without the fault: {want}" if isinstance(want, S.Failed) else S.differ(out, want)
            if d:
                res.fail("wrong", f"{scn['fn']}: {f['exc']} in {ctl.site} (call {ctl.n} of {total}) was swallowed: {d}")
                return
