"""C20 Profile, criterion and helper functions depend only on their arguments."""
import copy
import random

import numpy as np

from sim import env
weac, seams = env.load()
from weac import plot, tools  # noqa
from sim import critlab as K, faults as F, gen as G, session as S  # noqa
from sim.alone import alone  # noqa
from sim.sched import Sched  # noqa
crit = env.load_criterion()

LEVEL = "exploration"
PLAN = {"quick": {"runs": 450, "cap": 150, "limit": 300}, "thorough": {"runs": 8000, "cap": 2400, "limit": 600}}
RULE = ("one run = a seeded history of calls to module-level functions (profile database, parametrisations, touchdown distance, "
        "criteria, envelopes and searches, plot helpers) with related and repeated arguments, made one after the other or "
        "by threads preempted at source lines, some of them failing by themselves, by backend failures or interrupts, while "
        "the caller overwrites arguments and results of finished calls; every result is compared with that of the same "
        "call as the first one of a process. Non-trivial: at least one result compared after a related call or a failure.")
STATE_MEASURE = "distinct (how interleaved, function, previous function of the process, failed before) tuples"
REAL = ["weac.tools, module-level functions of weac.plot, examples/criterion_check.py with all of weac beneath", "numpy, scipy"]
STUBS = ["the thread scheduler", "numerical backend calls fail at seeded calls", "asynchronous exceptions at source lines"]
ASSUMPTIONS = ["sessions do not share arguments or results", "preemption at source lines of the code under test"]

LIGHT = ["profile", "cog", "wedge", "bergfeld", "gerling", "scapozza", "strength", "envelope", "mede", "adam", "schottner", "chandel",
         "toughness", "toughness_env", "index", "split", "outline", "digits", "levels", "lighten", "styles", "norm"]
MEDIUM = ["touchdown", "propagation", "anticrack", "create", "objective"]
HEAVY = ["force", "selfprop", "coupled"]


def layers(rng):
    num = rng.choice([float, float, int])
    return [[num(G.uni(rng, 80, 420)), num(G.uni(rng, 15, 200))] for _ in range(rng.randint(1, 4))]


def lili(rng):
    n = rng.randint(2, 6)
    return [float(rng.randint(0, 9) * 100) for _ in range(n)], [rng.random() < 0.6 for _ in range(n)]


def args(rng, f):
    """JSON arguments of a call."""
    sig = [G.uni(rng, 0, 9) for _ in range(rng.randint(1, 5))]
    if f == "profile":
        return {"name": rng.choice(G.PROFILE_NAMES + ["A", "zzz"])}
    if f == "cog":
        return {"layers": layers(rng)}
    if f == "wedge":
        return {"layers": layers(rng), "phi": G.phi(rng)}
    if f in ("bergfeld", "gerling", "scapozza", "strength"):
        d = {"rho": rng.choice([G.uni(rng, 60, 500), [G.uni(rng, 60, 500) for _ in range(rng.randint(1, 4))]])}
        if f in ("bergfeld", "gerling") and rng.random() < 0.6:
            d.update(C0=G.uni(rng, 4, 9), C1=G.uni(rng, 3, 5))
        if f == "strength":
            d["unit"] = rng.choice(["kPa", "MPa", "Pa"])
        return d
    if f == "envelope":
        return {"sigma": sig, "tau": [G.uni(rng, 0, 9) for _ in sig], "envelope": rng.choice(K.ENVELOPES + ["none"]),
                "scaling_factor": rng.choice([1, .5, 1.3]), "order_of_magnitude": rng.choice([1, 3]), "density": rng.choice([100, 250, 350])}
    if f == "mede":
        return {"sigma": sig, "sample_type": rng.choice(["s-RG1", "s-RG2", "s-FCDH", "s-XX"])}
    if f == "chandel":
        return {"sigma": sig, "sample_type": rng.choice(["FCsf", "FCso", "DH"])}
    if f == "adam":
        return {"x": sig, "scaling_factor": rng.choice([1, .5, 1.3]), "order_of_magnitude": rng.choice([1, 3])}
    if f == "schottner":
        return {"x": sig, "order_of_magnitude": rng.choice([1, 3]), "density": rng.choice([100, 250, 350])}
    if f == "toughness":
        return {"a": G.uni(rng, 0, 2), "b": G.uni(rng, 0, 2)}
    if f == "toughness_env":
        return {"g": [G.uni(rng, 0, 0.6) for _ in range(3)]}
    if f == "index":
        return {"li": lili(rng)[0], "x": G.uni(rng, 0, 3000)}
    if f == "split":
        li, ki = lili(rng)
        return {"li": li, "ki": ki}
    if f == "outline":
        return {"n": rng.randint(2, 5), "m": rng.randint(2, 5)}
    if f == "digits":
        return {"x": G.logu(rng, 1e-6, 1e6)}
    if f == "levels":
        return {"limit": G.logu(rng, 0.01, 100), "samples": rng.randint(4, 30), "tightness": G.uni(rng, 1, 2)}
    if f == "lighten":
        return {"color": rng.choice(["red", "k", "#009CDA", "nocolor"]), "amount": G.uni(rng, 0, 2)}
    if f == "styles":
        return {}
    if f == "norm":
        return {"lo": -G.logu(rng, 0.1, 10), "hi": G.logu(rng, 0.1, 10), "v": [G.uni(rng, -9, 9) for _ in range(3)]}
    p = {"snow_profile": [[rng.choice([120, 180, 240, 300]), rng.randint(40, 200)] for _ in range(rng.randint(1, 3))],
         "phi": G.uni(rng, 0, 45), "E": rng.choice([.1, .25, 1.0]), "t": rng.choice([10, 20, 30])}
    if f == "touchdown":
        d = {}
        if rng.random() < 0.8:
            d = {"layers": rng.choice([None, layers(rng), "h"]), "Ewl": G.logu(rng, 0.1, 1), "t": G.uni(rng, 8, 40), "phi": G.phi(rng)}
        if rng.random() < 0.4:
            d.update(C0=G.uni(rng, 4, 9), C1=G.uni(rng, 3.8, 5))
        if isinstance(d.get("layers"), list) and rng.random() < 0.4:
            d["form"] = "array"
        return d
    if f in ("propagation", "create", "anticrack", "force"):
        a = G.uni(rng, 50, 600)
        p.update(li=[G.uni(rng, 6000, 9000), a, a, G.uni(rng, 6000, 9000)], ki=[True, False, False, True],
                 w=rng.choice([0, 70, 200]))
        if f == "create":
            p["case"] = rng.choice(["crack", "nocrack", "cracked"])
        return p
    if f == "objective":
        return dict(p, a=G.uni(rng, 50, 2000))
    if f == "selfprop":
        return dict(p, hi=rng.choice([3000, 3000, 5]))
    return dict(K.problem(rng, fast=True), weight=rng.choice([80, 150]))


def prepare(f, a):
    """Live argument objects (what the caller owns)."""
    a = copy.deepcopy(a)
    if f in ("cog", "wedge"):
        lay = np.array(a["layers"], float)
        return {**a, "layers": lay if f == "cog" else np.column_stack([lay, lay[:, :1], lay[:, :1], lay[:, :1]])}
    for k in ("sigma", "tau", "rho", "x", "g", "v"):
        if isinstance(a.get(k), list):
            a[k] = np.array(a[k])
    if f == "touchdown" and a.pop("form", None) and isinstance(a["layers"], list):
        a["layers"] = np.array(a["layers"], float)
    if f == "outline":
        a["grid"] = np.arange(a["n"] * a["m"], dtype=float).reshape(a["n"], a["m"])
    return a


def call(f, a):
    o = dict(a)
    if f == "profile":
        return list(tools.load_dummy_profile(o["name"]))
    if f == "cog":
        return list(tools.calc_center_of_gravity(o["layers"]))
    if f == "wedge":
        return list(tools.calc_vertical_bc_center_of_gravity(o["layers"], o["phi"]))
    if f in ("bergfeld", "gerling", "scapozza"):
        return getattr(tools, f)(o.pop("rho"), **o)
    if f == "strength":
        return tools.tensile_strength_slab(o["rho"], unit=o["unit"])
    if f == "envelope":
        return crit.stress_envelope(o.pop("sigma"), o.pop("tau"), **o)
    if f == "mede":
        return crit.failure_envelope_mede(o["sigma"], sample_type=o["sample_type"])
    if f == "chandel":
        return crit.failure_envelope_chandel(o["sigma"], sample_type=o["sample_type"])
    if f == "adam":
        return crit.failure_envelope_adam_unpublished(o.pop("x"), **o)
    if f == "schottner":
        return crit.failure_envelope_schottner(o.pop("x"), **o)
    if f == "toughness":
        return crit.fracture_toughness_criterion(o["a"], o["b"])
    if f == "toughness_env":
        return crit.fracture_toughness_envelope(o["g"])
    if f == "index":
        return list(crit.find_segment_index(o["li"], o["x"]))
    if f == "split":
        return list(crit.split_segments_at_midpoint(o["li"], o["ki"]))
    if f == "outline":
        return plot.outline(o["grid"])
    if f == "digits":
        return plot.significant_digits(o["x"])
    if f == "levels":
        return plot.tight_central_distribution(o["limit"], o["samples"], o["tightness"])
    if f == "lighten":
        return list(plot.adjust_lightness(o["color"], o["amount"]))
    if f == "styles":
        return list(plot.set_plotstyles())
    if f == "norm":
        return plot.MidpointNormalize(o["lo"], o["hi"])(o["v"])
    if f == "touchdown":
        return list(tools.touchdown_distance(**o))
    if f == "propagation":
        return list(crit.check_crack_propagation_criterion(o["snow_profile"], o["phi"], {"li": o["li"], "ki": o["ki"]},
                                                           skier_weight=o["w"], E=o["E"], t=o["t"]))
    if f == "create":
        r = crit.create_skier_object(o["snow_profile"], o["w"], o["phi"], o["li"], o["ki"], crack_case=o["case"], E=o["E"], t=o["t"])
        return [K.model_key(r[0])] + list(r[1:])
    if f == "anticrack":
        r = crit.find_new_anticrack_length(o["snow_profile"], o["w"], o["phi"], o["li"], o["ki"], E=o["E"], t=o["t"])
        return [K.model_key(x) if isinstance(x, weac.Layered) else x for x in r]
    if f == "force":
        r = crit.find_minimum_force(o["snow_profile"], o["phi"], o["li"], [True] * 4, E=o["E"], t=o["t"])
        return K.plain(r)
    if f == "objective":
        return crit.g_delta_diff_objective(o["a"], o["snow_profile"], o["phi"], o["E"], o["t"])
    if f == "selfprop":
        return list(crit.find_min_crack_length_self_propagation(o["snow_profile"], o["phi"], o["E"], o["t"], initial_interval=(1, o["hi"])))
    w = o.pop("weight")
    return K.plain(K.search(crit, o, w))


def perturb(rng, a, f):
    a = copy.deepcopy(a)
    if rng.random() < 0.4:              # exactly one argument is another one
        new = args(rng, f)
        keys = [k for k in a if k in new and k not in ("li", "ki", "sigma", "tau")]
        if keys:
            k = rng.choice(keys)
            a[k] = new[k]
            return a
    lay = a.get("layers") if isinstance(a.get("layers"), list) else a.get("snow_profile")
    if lay and rng.random() < 0.4:      # same totals, another arrangement
        if len(lay) > 1 and rng.random() < 0.6:
            i, j = rng.sample(range(len(lay)), 2)
            lay[i], lay[j] = lay[j], lay[i]
        else:
            lay.insert(0, list(lay[-1]))
        return a
    for k in ("sigma", "tau", "rho", "x", "v", "g"):
        if isinstance(a.get(k), list) and len(a[k]) > 1 and rng.random() < 0.3:
            a[k] = a[k][::-1]
            return a
    if "name" in a and rng.random() < 0.7:
        same = [x for x in G.PROFILE_NAMES + ["A"] if x[0].lower() == a["name"][0].lower() and x != a["name"]]
        return {"name": rng.choice(same) if same else a["name"].upper()}
    for k, v in list(a.items()):
        if isinstance(v, float) and rng.random() < 0.3:
            a[k] = G.r3(v * rng.uniform(0.7, 1.3))
        elif isinstance(v, list) and v and isinstance(v[0], float) and rng.random() < 0.3:
            i = rng.randrange(len(v))
            v[i] = G.r3(v[i] * rng.uniform(0.7, 1.3))
        elif k in ("layers", "snow_profile") and isinstance(v, list) and rng.random() < 0.5:
            i = rng.randrange(len(v))
            v[i][rng.randrange(2)] = G.r3(v[i][rng.randrange(2)] * rng.uniform(0.8, 1.2))
        elif k in ("E", "t", "density", "scaling_factor", "order_of_magnitude") and rng.random() < 0.2:
            a[k] = {"E": rng.choice([.1, .25, 1.0]), "t": rng.choice([10, 20, 30]), "density": rng.choice([100, 250]),
                    "scaling_factor": rng.choice([1, .5]), "order_of_magnitude": rng.choice([1, 3])}[k]
    return a


def gen(rng, tier, i):
    threads = rng.random() < 0.4
    x = rng.random()
    if x < 0.6:
        pool = rng.sample(LIGHT, rng.randint(2, 5)) + rng.sample(MEDIUM, rng.choice([0, 1, 2]))
    else:       # few functions, many related calls
        pool = [rng.choice(MEDIUM)] if rng.random() < 0.35 else rng.sample(LIGHT, rng.choice([1, 1, 2]))
    if not threads and rng.random() < (0.12 if tier == "quick" else 0.3):
        pool.append(rng.choice(HEAVY))
    made, ops = {}, []
    light = all(f in LIGHT for f in pool)
    for _ in range(rng.randint(4, 12) * (2 if light else 1) if tier == "quick" else rng.randint(5, 30) * (2 if light else 1)):
        f = rng.choice(pool)
        if f in HEAVY and made.get(f) and len(made[f]) > 2:
            continue
        old = made.setdefault(f, [])
        x = rng.random()
        a = copy.deepcopy(rng.choice(old)) if old and x < 0.35 else (perturb(rng, rng.choice(old), f) if old and x < 0.75 else args(rng, f))
        old.append(a)
        op = {"op": "call", "f": f, "a": a}
        if rng.random() < 0.3:
            op["_scribble"] = True
        if rng.random() < 0.2 and (not threads):
            op["_fault"] = [rng.choice(["linalg", "alloc", "root", "quad"]), rng.choice([0, 0, 1, 2, rng.randint(0, 60)]),
                            rng.choice(["linalg", "memory", "runtime", "value"])]
        elif rng.random() < 0.1 and not threads:
            op["_bomb"] = rng.choice([rng.randint(1, 30), rng.randint(1, 2000)])
        if threads:
            op["th"] = rng.randrange(3)
        ops.append(op)
    s = {"threads": threads, "ops": ops, "_lists": ["switches", "ops"]}
    if threads:
        s["sched"] = {"seed": rng.randrange(1 << 30), "gap": rng.choice([2, 5, 20, 80]), "meet": rng.choice([None, rng.randrange(2000)])}
    return s


def clean(o):
    return S.Failed(Exception(o.type)) if isinstance(o, S.Failed) else o


def flat(o):
    """Plain comparable form; the order of dictionaries and container kinds is irrelevant."""
    if isinstance(o, dict):
        return {str(k): flat(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [flat(v) for v in o]
    if isinstance(o, np.ma.MaskedArray):
        return np.asarray(o.filled(np.nan))
    if isinstance(o, np.ndarray) and o.dtype.kind in "UO":
        return [flat(v) for v in o.tolist()]
    return o


def scribble(o, seen=None):
    """The caller reuses the memory of a finished call."""
    if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in "fciub":
        o[...] = 7 if o.dtype.kind != "b" else ~o
    elif isinstance(o, dict):
        for v in o.values():
            scribble(v)
        o.clear()
    elif isinstance(o, (list, tuple)):
        for v in o:
            scribble(v)
        if isinstance(o, list):
            o.clear()


def untouched(res, n, op, live):
    """A call leaves its arguments as they were."""
    d = S.differ(flat(live), flat(prepare(op["f"], op["a"])), rtol=0)
    if d:
        res.fail("argument changed", f"call {n} {op['f']}({str(op['a'])[:120]}): {d}", op=n)
    return d


def first(op):
    """The call as the first one of a process."""
    def f():
        return flat(clean(S.attempt(call, op["f"], prepare(op["f"], op["a"]))))
    return alone(f)


def run(scn, res):
    ops = scn["ops"]
    want = {}
    for op in ops:
        k = repr((op["f"], op["a"]))
        if k not in want:
            want[k] = first(op)
    (threaded if scn["threads"] else serial)(scn, res, want)


def judge(res, n, op, got, want, state):
    d = S.differ(got, want[repr((op["f"], op["a"]))], rtol=1e-9)
    res.log.append([n, op["f"], d])
    res.count("compared " + op["f"])
    res.states.append(state)
    if d:
        res.fail("depends", f"call {n} {op['f']}({str(op['a'])[:120]}): {d}", op=n)
    return d


def serial(scn, res, want):
    prev, failed, seen = None, False, {}
    for n, op in enumerate(scn["ops"]):
        f = op["f"]
        if "_fault" in op or "_bomb" in op:
            live = prepare(f, op["a"])
            if "_fault" in op:
                ctl = F.FaultAt(*op["_fault"])
                with F.use(ctl):
                    out = S.attempt(call, f, live)
            else:
                with F.LineBomb(op["_bomb"]) as ctl:
                    try:
                        out = S.attempt(call, f, live)
                    except F.InjectedInterrupt as e:
                        out = S.Failed(e)
            if ctl.fired:
                res.fault(("backend failure in " if "_fault" in op else "interrupt in ") + f)
                failed = failed or isinstance(out, S.Failed)
        live = prepare(f, op["a"])
        out = clean(S.attempt(call, f, live))
        if untouched(res, n, op, live):
            return
        if judge(res, n, op, flat(copy.deepcopy(out)), want, ["calls", f, prev, failed]):
            return
        if seen.get(f) or failed:
            res.nontrivial = True
        seen[f] = True
        if op.get("_scribble"):
            scribble(out)
            scribble(live)
            res.fault("caller overwrote arguments and results")
        prev = f


def threaded(scn, res, want):
    idx = [[n for n, op in enumerate(scn["ops"]) if op["th"] == j] for j in range(3)]
    idx = [x for x in idx if x]
    if not idx:
        return
    got = {}

    def body(ns):
        def f():
            for n in ns:
                op = scn["ops"][n]
                live = prepare(op["f"], op["a"])
                out = clean(S.attempt(call, op["f"], live))
                untouched(res, n, op, live)
                got[n] = flat(copy.deepcopy(out))
                if op.get("_scribble"):
                    scribble(out)
                    scribble(live)
        return f
    sc = Sched([body(x) for x in idx], seed=scn["sched"]["seed"], gap=scn["sched"]["gap"], meet=scn["sched"].get("meet"), switches=scn.get("switches"))
    sc.run()
    for e in sc.errors:
        if e is not None:
            raise e
    res.patch = {"switches": sc.made}
    n = len([x for x in sc.made if x[0] > 0])
    res.fault("thread preempted", n)
    res.count("scheduling points", sc.step)
    res.log.append([sc.made, sc.tstep])
    for me, fn, to in set(sc.sites):
        res.states.append(["threads", fn])
    for k in sorted(got):
        if judge(res, k, scn["ops"][k], got[k], want, ["threads", scn["ops"][k]["f"]]):
            return
    res.nontrivial = n > 0
