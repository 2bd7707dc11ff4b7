"""C02 every solution satisfies the boundary value problem, whatever the history and the backend's form."""
import numpy as np

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F, bvp  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1200, "cap": 170}, "thorough": {"runs": 30000, "cap": 2400}}
RULE = ("one run = one seeded session on one model with the eigen-solver answering in a seeded legal form "
        "(order, scale, phase, last-bit rounding; half of the runs); every solution is compared on all nodes with "
        "an independently solved boundary value problem of the configuration in force (first-order equilibrium "
        "form, multiple shooting), and the raster with the solution. Non-trivial: at least one solution was "
        "compared after a reconfiguration, or under a varied eigen-solver.")
STATE_MEASURE = "distinct (system, stage, cracked, number of segments, skier loads, previous two operations, backend form)"
REAL = ["weac.Layered / weac.Inverse: eigensystem, boundary conditions, assembly, raster", "numpy.linalg.solve"]
STUBS = ["numpy.linalg.eig answers are re-expressed in another legal form in half of the runs"]
ASSUMPTIONS = ["reference model sim/ref.py: Timoshenko beam equilibrium with the weak-layer kinematics documented in "
               "the code (u + h/2 psi - t/2 w')",
               "stage C contact spring and collapse height are evaluated with the reference model",
               "agreement within 2e-6 of the scale of displacements, slopes and curvature"]
TOL = 2e-6


def extreme(rng, s):
    """Configurations at the ends of what the documentation allows for: very soft or thick weak layers, very thick slabs."""
    kind = rng.choice(["soft", "soft", "stiff", "thick", "mixed"])
    for op in s["ops"]:
        if op["op"] == "found":
            if kind in ("soft", "mixed"):
                op["E"] = G.logu(rng, 0.003, 0.1)
                op["t"] = G.uni(rng, 20, 120)
            elif kind == "stiff":
                op["E"] = G.logu(rng, 5, 100)
                op["t"] = G.uni(rng, 1, 20)
        elif op["op"] == "beam" and kind in ("thick", "mixed"):
            op["layers"] = [[G.uni(rng, 250, 550), G.uni(rng, 100, 700)] for _ in range(rng.choice([1, 2, 3]))]
    if kind in ("soft", "mixed"):
        s["ops"].insert(1, {"op": "found", "t": G.uni(rng, 20, 120), "E": G.logu(rng, 0.003, 0.05), "update": True})
    elif kind == "stiff":
        s["ops"].insert(1, {"op": "found", "t": G.uni(rng, 1, 20), "E": G.logu(rng, 5, 100), "update": True})


def gen(rng, tier, i):
    s = G.session(rng, n_ops=(4, 14) if tier == "quick" else (4, 30), bad=0.05, kinds=["raster"], reconf=0.45)
    if not s["model"]["touchdown"] and rng.random() < 0.12:
        extreme(rng, s)
    s["eig"] = None if rng.random() < 0.5 else {
        "seed": rng.randrange(1 << 30), "order": rng.random() < 0.8, "scale": rng.random() < 0.8,
        "rounding": rng.random() < 0.5}
    return s


def run(scn, res):
    ctl = F.EigVariant(**scn["eig"]) if scn["eig"] else F.Counter()
    with F.use(ctl):
        _run(scn, res)
    if scn["eig"] and ctl.fired:
        res.fault("eigen-solver answer in another form", ctl.fired)


def _run(scn, res):
    r = S.Runner(weac, scn)
    hist = []
    for n, op in enumerate(scn["ops"]):
        k = op["op"]
        if k != "q":
            out = S.attempt(r.apply, op)
            res.log.append([n, k, isinstance(out, S.Failed)])
            hist.append(k)
            if isinstance(out, S.Failed) and k not in ("bad", "seg"):
                res.fail("refused", f"op {n} {k} failed: {out}", op=n)
                return
            if isinstance(out, S.Failed) and k == "seg" and not scn["model"]["touchdown"]:
                res.fail("refused", f"op {n}: valid segmentation refused: {out}", op=n)
                return
            continue
        if r.skip(op):
            res.count("skipped")
            continue
        case = op["case"]
        for case in ("crack", "nocrack", "single"):
            if case == "single":
                # one supported segment only
                seg = {"li": np.array([float(np.sum(r.segs["crack"]["li"]))]), "mi": np.array([]),
                       "ki": np.array([True])}
            else:
                seg = r.segs[case]
            slab = S.slab_of(r.cfg)
            try:
                C = r.model.assemble_and_solve(phi=r.phi, **seg)
            except Exception as e:      # pylint: disable=broad-except
                if not np.any(seg["ki"]):
                    continue
                res.fail("refused", f"op {n}: valid problem refused: {type(e).__name__}: {e}", op=n)
                return
            if C.shape != (6, len(seg["li"])):
                res.fail("shape", f"op {n}: constants have shape {C.shape} for {len(seg['li'])} segments", op=n)
                return
            td = bvp.touchdown_of(slab, r.cfg, r.model, case)
            err, where, sol, sc = bvp.check_solution(r.model, slab, r.cfg["system"], r.phi, seg, C, td)
            res.log.append([n, case, f"{err:.1e}"[-3:]])
            res.count("solutions compared")
            res.count(f"stage {r.model.mode}" if case == "crack" else case)
            res.count("largest error exponent %d" % (int(np.floor(np.log10(min(max(err, 1e-16), 1e16)))) if err == err else 99))
            if not err <= TOL:
                res.fail("bvp", f"op {n} {r.cfg['system']} {case} stage {r.model.mode}: error {err:.3g} at {where}", op=n)
                return
            num = op["num"]
            d = bvp.check_raster(r.model, r.phi, seg, C,
                                 r.model.rasterize_solution(C=C, phi=r.phi, num=num, **seg), num, sc)
            res.count("rasters compared")
            if d:
                res.fail("raster", f"op {n} {case}: {d}", op=n)
                return
            res.states.append([r.cfg["system"], str(r.model.mode), case, len(seg["li"]), int(np.sum(np.asarray(seg["mi"]) > 0)),
                               hist[-2:], bool(scn["eig"])])
            if len(hist) > 1 or scn["eig"]:
                res.nontrivial = True
        hist.append("q")
