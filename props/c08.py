"""C08 touchdown stages, thresholds and contact lengths along saw-cut histories."""
import numpy as np

from sim import env
weac, seams = env.load()
from weac import tools  # noqa
from sim import gen as G, session as S, faults as F, ref  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 400, "cap": 170, "limit": 300}, "thorough": {"runs": 12000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded history of saw cuts (growing, repeated, jumping; lengths placed relative to the thresholds), "
        "reconfigurations and failing segmentation attempts on one touchdown model; after each cut thresholds, stage, "
        "collapse height, contact length and segment lengths are checked against an independent beam-on-springs model "
        "whose springs come from the reference boundary value solver (sign change of its contact condition within 1e-5 of "
        "the reported length). Non-trivial: at least two cuts were checked.")
STATE_MEASURE = "distinct (system, stage, previous stage, what happened since the last cut) tuples"
REAL = ["weac.Layered with touchdown=True, weac.tools.touchdown_distance", "numpy, scipy"]
STUBS = ["linear solver, eigen-solver, root finder and allocations fail at seeded calls of some attempts"]
ASSUMPTIONS = ["the contact model is that of the code's documentation: an unsupported beam on rotational and vertical "
               "substitute springs of the adjacent supported parts; the springs respond linearly without dead load",
               "cuts within 1e-6 of a threshold may fall on either side"]
EPS = 1e-5


def gen(rng, tier, i):
    if rng.random() < (0.06 if tier == "quick" else 0.12):
        return {"mode": "helper", "layers": rng.choice([None, G.layers(rng), G.layers(rng)]), "E": G.logu(rng, 0.05, 2),
                "t": G.uni(rng, 8, 50), "phi": G.phi(rng), "C0": G.uni(rng, 4, 9), "C1": G.uni(rng, 3.8, 5.0),
                "defaults": rng.random() < 0.2, "form": rng.choice(["list", "array"])}
    system = rng.choice(["pst-", "-pst"])
    ops = []
    cur = {"beam": None, "found": None}

    def conf():
        k = rng.choice(["beam", "found", "surf", "found"])
        if k == "beam":
            cur["beam"] = G.vary(rng, cur["beam"], G.beam(rng), 0.5)
            return {"op": "beam", **cur["beam"], "update": True}
        if k == "found":
            w = G.weak(rng)
            w["t"] = max(w["t"], 10)
            cur["found"] = G.same_stiffness(rng, cur["found"]) if cur["found"] and rng.random() < 0.15 else \
                G.vary(rng, cur["found"], w, 0.5)
            return {"op": "found", **cur["found"], "update": True}
        return {"op": "surf", "p": G.load(rng, True)}
    for _ in range(rng.randint(1, 3)):
        ops.append(conf())
    base = {"L": rng.choice([G.uni(rng, 3000, 9000), G.uni(rng, 8000, 30000)]), "phi": G.phi(rng)}
    if rng.random() < 0.5:
        base["cf"] = G.uni(rng, 0.25, 0.9)
    if rng.random() < 0.4:
        base["ratio"] = G.logu(rng, 20, 5000)
    n = rng.randint(3, 8) if tier == "quick" else rng.randint(4, 20)
    rel = 0.3
    n_cuts = 0
    for _ in range(n):
        x = rng.random()
        if x < 0.15:
            ops.append(conf())
        elif x < 0.25:
            ops.append({"op": "bad", "k": "td_impossible"})
        elif x < 0.35:
            base = dict(base, phi=G.phi(rng))
            if rng.random() < 0.5:
                base["L"] = G.uni(rng, 3000, 30000)
        z = rng.random()
        if z < 0.12:
            base["ratio"] = G.logu(rng, 20, 5000)
        elif z < 0.2:
            base["cf"] = G.uni(rng, 0.25, 0.9)
        elif z < 0.26:
            base.pop("ratio", None)
            base.pop("cf", None)
        y = rng.random()
        if y < 0.5:
            rel = G.r3(rel * rng.uniform(1.0, 1.4))        # saw on
        elif y < 0.8:
            rel = G.uni(rng, 0.1, 3.0)
        near = rng.choice([None, None, None, "a1", "a2"])
        cut = {"op": "cut", **base, "rel": rel if near is None else
               rng.choice([0.9, 0.99, 0.999, 0.9999, 1.0001, 1.001, 1.01, 1.1]), "of": near or "a1"}
        if n_cuts and rng.random() < 0.45:
            # same saw cut (or one slightly ahead of it) in whatever configuration is now in force
            cut["again"] = rng.choice([1.0, 1.0, 1.0001, G.uni(rng, 1.0, 1.3)])
            if rng.random() < 0.5:
                cut.update(rng.choice([{"cf": G.uni(rng, 0.1, 0.9)}, {"ratio": G.logu(rng, 20, 5000)},
                                       {"L": G.uni(rng, 3000, 30000)}, {"phi": G.phi(rng)}]))
                base.update({k: cut[k] for k in ("cf", "ratio", "L", "phi") if k in cut})
        n_cuts += 1
        if rng.random() < 0.25:
            cut["fault"] = {"kind": rng.choice(["root", "root", "linalg", "alloc"]), "exc": rng.choice(["linalg", "runtime", "value", "memory"]),
                            "n": rng.choice([0, 1, 2, rng.randint(0, 60)]), "span": rng.choice([1, 1, 1000])}
        ops.append(cut)
        if rng.random() < 0.2:
            ops.append({"op": "q", "k": rng.choice(["solve", "thresholds", "stiff"]), "case": "crack", "L": 800.0,
                        "support": rng.choice(["supported", "rested"]), "dof": rng.choice(["rot", "trans"])})
    return {"model": {"system": system, "touchdown": True, "cls": "Layered"}, "ctor": {"layers": None}, "ops": ops}


def crosses(f, x, lo=None, hi=None):
    """True if f changes sign around x (or x sits on the end of the admissible range)."""
    a, b = f(x * (1 - EPS)), f(x * (1 + EPS))
    return a * b <= 0, (a, b)


def expected_refusal(T, a, model_has):
    """A segmentation may be refused only where the reference has no contact length either."""
    L = T.L
    if not T.tc > 0:
        return True
    f = [T.f1(L / 1000), T.f1(L * 0.999), T.f2(L / 1000), T.f2(L * 0.999)]
    if f[0] * f[1] > 0 or f[2] * f[3] > 0:
        return True
    if T.f2(L / 1000) * T.f2(a) > 0:
        return False        # stage A or B: no contact length to be found
    return T.fC(a / 1000, a) * T.fC(a * 0.999, a) > 0


def run(scn, res):
    if scn.get("mode") == "helper":
        return run_helper(scn, res)
    r = S.Runner(weac, scn)
    prev, since, checked, last = None, [], 0, None
    seen = {}
    for n, op in enumerate(scn["ops"]):
        k = op["op"]
        if k in ("beam", "found", "surf"):
            out = S.attempt(r.apply, op)
            if isinstance(out, S.Failed):
                res.fail("setter", f"op {n} {k}: {out}", op=n)
                return
            since.append(k)
            continue
        if k == "bad":
            S.attempt(r.apply, op)
            since.append("failed")
            continue
        if k == "q":
            S.attempt(r.apply, op)
            since.append("query")
            continue
        # thresholds of this configuration, from a model of its own
        seg = {a: op[a] for a in ("L", "phi", "cf", "ratio") if a in op}
        slab = S.slab_of(r.cfg)
        T = ref.Touchdown(slab, seg["L"], seg.get("cf", 0.5), seg["phi"], seg.get("ratio", 1000))
        th = S.attempt(thresholds, r.cfg, seg)
        if isinstance(th, S.Failed):
            a = 0.3 * seg["L"]
        else:
            a = th[0 if op["of"] == "a1" else 1] * op["rel"]
        if op.get("again") and last:
            a = last * op["again"]
        a = float(min(max(a, 0.002 * seg["L"]), 0.9 * seg["L"]))
        seg["a"] = last = a
        if op.get("fault"):
            f = op["fault"]
            ctl = F.FaultAt(f["kind"], f["n"], f["exc"], f["span"])
            with F.use(ctl):
                out = S.attempt(r.apply, {"op": "seg", **seg})
            if ctl.fired:
                res.fault(f"{f['exc']} in {ctl.site} during calc_segments")
                since.append("fault")
                if not isinstance(out, S.Failed):
                    res.count("attempt completed despite the fault")
        out = S.attempt(r.apply, {"op": "seg", **seg})
        if isinstance(out, S.Failed):
            res.count("refused")
            if not expected_refusal(T, a, th):
                res.fail("refused", f"op {n}: cut {a} refused although contact lengths exist: {out}", op=n)
                return
            since.append("refused")
            continue
        mode, td = str(r.model.mode), float(r.model.td)
        a1, a2 = float(r.model.calc_a1()), float(r.model.calc_a2())
        res.log.append([n, mode, round(a, 6), round(td, 4), round(a1, 4), round(a2, 4)])
        res.count("cut checked")
        res.count("stage " + mode)
        checked += 1
        # 1. thresholds
        for name, f, x in (("a1", T.f1, a1), ("a2", T.f2, a2)):
            ok, ab = crosses(f, x)
            if not ok:
                res.fail("threshold", f"op {n}: contact condition does not change at {name}={x}: {ab} (tc={T.tc})", op=n)
                return
        # 2. stage
        lo, hi = a1 * (1 - 1e-6), a1 * (1 + 1e-6)
        lo2, hi2 = a2 * (1 - 1e-6), a2 * (1 + 1e-6)
        want = {m for m, c in (("A", a <= hi), ("B", lo < a <= hi2), ("C", a > lo2)) if c}
        if mode not in want:
            res.fail("stage", f"op {n}: stage {mode} for cut {a}, thresholds {a1}, {a2}", op=n)
            return
        # 3. contact length and collapse height
        if mode == "C":
            ok, ab = crosses(lambda x: T.fC(x, a), td)
            if not ok or not 0 < td < a:
                res.fail("contact", f"op {n}: slab does not come to rest flat at {td} of cut {a}: {ab}", op=n)
                return
        elif abs(td - a) > 1e-9 * a:
            res.fail("contact", f"op {n}: touchdown length {td} in stage {mode} of cut {a}", op=n)
            return
        if abs(float(r.model.tc) - T.tc) > 1e-8 * max(abs(T.tc), 1e-3):
            res.fail("height", f"op {n}: collapse height {r.model.tc} instead of {T.tc}", op=n)
            return
        # 4. segments
        for case in ("crack", "nocrack"):
            li = [float(x) for x in r.segs[case]["li"]]
            ki = [bool(x) for x in r.segs[case]["ki"]]
            exp = [seg["L"] - a, td] if scn["model"]["system"] == "pst-" else [td, seg["L"] - a]
            kexp = [True, False] if scn["model"]["system"] == "pst-" else [False, True]
            if case == "nocrack":
                kexp = [True, True]
            if max(abs(x - y) for x, y in zip(li, exp)) > 1e-9 * seg["L"] or ki != kexp:
                res.fail("segments", f"op {n}: segments {li} {ki} instead of {exp} {kexp}", op=n)
                return
        # 5. depends only on the cut
        key = repr(sorted((kk, repr(v)) for kk, v in r.cfg.items() if kk != "seg")) + repr(sorted(seg.items()))
        now = (mode, td, a1, a2)
        if key in seen and (seen[key][0] != mode or max(abs(x - y) for x, y in zip(seen[key][1:], now[1:])) > 1e-7 * a2):
            res.fail("history", f"op {n}: repeated cut gives {now}, before {seen[key]}", op=n)
            return
        seen[key] = now
        res.states.append([r.cfg["system"], mode, prev, since[-2:]])
        prev, since = mode, []
    res.nontrivial = checked >= 2


def thresholds(cfg, seg):
    """Thresholds of a new model (needed to place a cut relative to them)."""
    m, _ = S.fresh(weac, {k: v for k, v in cfg.items() if k != "seg"})
    m.calc_segments(**dict(seg, a=0.004 * seg["L"]))
    return float(m.calc_a1()), float(m.calc_a2())


def run_helper(scn, res):
    if scn["defaults"]:
        kw = {}
    else:
        kw = {"Ewl": scn["E"], "t": scn["t"], "phi": scn["phi"], "C0": scn["C0"], "C1": scn["C1"]}
        if scn["layers"]:
            kw["layers"] = scn["layers"]
    layers = kw.get("layers", [[240, 200]])
    if scn.get("form") == "array" and not isinstance(layers, str) and "layers" in kw:
        kw["layers"] = np.array(layers, float)
    slab = ref.Slab({"layers": layers, "nu_s": 0.25, "C0": kw.get("C0", 6.5), "C1": kw.get("C1", 4.4),
                     "t": kw.get("t", 10), "E": kw.get("Ewl", 0.25), "nu_w": 0.25, "p": 0.0})
    T = ref.Touchdown(slab, 1e5, 0.5, kw.get("phi", 0), 1000)
    out = S.attempt(tools.touchdown_distance, **kw)
    res.count("helper")
    if isinstance(out, S.Failed):
        res.log.append(["helper", "refused"])
        res.count("refused")
        if T.tc > 0 and T.f1(100) * T.f1(99900) < 0 and T.f2(100) * T.f2(99900) < 0:
            # the cut of five first contacts may exceed the column
            m = weac.Layered(system="pst-", touchdown=True)
            m.set_foundation_properties(E=kw.get("Ewl", 0.25), t=kw.get("t", 10), update=True)
            m.set_beam_properties(layers, C0=kw.get("C0", 6.5), C1=kw.get("C1", 4.4), update=True)
            m.calc_segments(L=1e5, a=500, phi=kw.get("phi", 0))
            if 5 * m.calc_a1() < 0.95e5 and T.fC(5 * m.calc_a1() / 1000, 5 * m.calc_a1()) * T.fC(0.999 * 5 * m.calc_a1(), 5 * m.calc_a1()) < 0:
                res.fail("helper", f"touchdown_distance refused although thresholds exist: {out}")
        return
    a1, a2, lc = map(float, out)
    res.log.append(["helper", round(a1, 4), round(a2, 4), round(lc, 4)])
    res.states.append(["helper", kw.get("phi", 0) > 0, isinstance(layers, str), len(layers)])
    for name, f, x in (("first contact", T.f1, a1), ("full contact", T.f2, a2), ("steady state", lambda x: T.fC(x, 5 * a1), lc)):
        ok, ab = crosses(f, x)
        if not ok:
            res.fail("helper", f"touchdown_distance: contact condition does not change at {name} {x}: {ab}")
            return
    res.nontrivial = True
