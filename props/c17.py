"""C17 criterion verdicts are certified by their own results, in bounded work."""
import numpy as np

from sim import env
weac, seams = env.load()
crit = env.load_criterion()
from sim import faults as F, session as S, critlab as K, bvp  # noqa
from props import c18 as E  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 90, "cap": 150, "limit": 200}, "thorough": {"runs": 2500, "cap": 2400, "limit": 400}}
RULE = ("one run = one coupled criterion search (ordinary or dampened) with root searches that fail to converge or raise at "
        "seeded calls and legal variation of the eigen-solver, followed by a certificate check (the returned constants "
        "against an independent boundary value solver for the returned weight and cracked segments, energy, stress and "
        "crack edges re-evaluated independently), or one self-propagation search or propagation check with injected "
        "non-convergence; model solves are counted against a fixed bound. Non-trivial: a positive verdict was certified, or "
        "a fault fired and the answer was checked.")
STATE_MEASURE = "distinct (entry point, envelope, outcome class, fault kinds) tuples"
REAL = ["examples/criterion_check.py", "weac.Layered and all mixins", "numpy, scipy"]
STUBS = ["eigen-solver answers in another legal form, equal for equal matrices", "root searches that report or raise non-convergence at seeded calls"]
ASSUMPTIONS = ["a positive verdict flagged as self-collapse, pure stress failure, or with every segment cracked makes no "
               "statement about convergence of the energy criterion",
               "after a hand-over to the dampened search the certificate refers to the returned model (which problem a "
               "retry solves is C16)"]


def gen(rng, tier, i):
    x = rng.random()
    p = K.problem(rng)
    if x < 0.48:
        scn = dict(kind="search", level=None if rng.random() < 0.75 else rng.randint(1, 3))
        if p["envelope"].startswith("mede") and rng.random() < 0.5:
            p["envelope"] = "adam_unpublished"
        if rng.random() < 0.6:      # stiff, thin weak layers: both criteria matter
            p.update(E=rng.choice([.25, 1, 2]), t=rng.choice([5, 10, 20]))
        scn["weight"] = rng.choice([0, 80, 200])
    elif x < 0.86:
        scn = dict(kind="selfprop", interval=rng.choice([[1, 3000]] * 3 + [[50, 1500], [0.1, 5000], [1, 200]]))
        if sum(r[1] for r in p["snow_profile"]) < 60:
            p["snow_profile"].append([240, 80])
    else:
        n = rng.randint(1, 3)
        li = [round(rng.uniform(20, 600), 1) for _ in range(n)]
        ki = [False] * n if rng.random() < 0.6 else [rng.random() < 0.4 for _ in range(n)]
        scn = dict(kind="check", li=[8000.0] + li + [8000.0], ki=[True] + ki + [True],
                   weight=rng.choice([0, rng.randint(1, 200)]))
    scn["problem"] = p
    scn["eig"] = rng.randrange(1 << 30) if rng.random() < 0.5 else None
    scn["faults"] = []
    if scn["kind"] != "check" and rng.random() < (0.35 if scn["kind"] == "search" else 0.6):
        first = rng.randint(0, 12) if scn["kind"] == "search" else 0
        scn["faults"] = [[first, rng.choice([1, 1, 2, 50]), rng.choice(["flag", "flag", "raise", "runtime"]
                                                                       if scn["kind"] == "selfprop" else
                                                                       ["flag", "flag", "raise"])]]
    return scn


class Roots:
    """Root searches n .. n+span-1 report or raise non-convergence."""

    def __init__(self, faults):
        self.faults, self.n, self.fired = faults, 0, {}

    def call(self, kind, name, fn, a, k):
        if kind != "root":
            return fn(*a, **k)
        i, self.n = self.n, self.n + 1
        for first, span, how in self.faults:
            if first <= i < first + span:
                self.fired[how] = self.fired.get(how, 0) + 1
                if how == "raise":
                    raise ValueError("injected: no sign change")
                if how == "runtime":
                    raise RuntimeError("injected: failed to converge after 100 iterations")
                r = fn(*a, **k)
                if hasattr(r, "converged"):
                    r.converged, r.flag = False, "convergence error"
                    r.root = r.root * 1.3 + 1
                return r
        return fn(*a, **k)


def run(scn, res):
    roots = Roots(scn["faults"])
    eig = F.EigVariant(scn["eig"], same=True) if scn["eig"] is not None else None
    with F.use(F.Chain(roots, eig)), K.Watch(crit, limit=K.MAX_SOLVES) as w:
        try:
            out = S.attempt({"search": search, "selfprop": selfprop, "check": check}[scn["kind"]], scn)
        except K.Unbounded as e:
            res.fail("bound", f"{scn['kind']}: {e}")
            return
    for how, n in roots.fired.items():
        res.fault("root search: " + how, n)
    if eig and eig.fired:
        res.fault("eigen-solver answer in another form", eig.fired)
    res.count("solves", w.solves)
    res.count("kind " + scn["kind"])
    kinds = sorted(roots.fired)
    if scn["kind"] == "search":
        d, cls = certify(scn, out, w, roots, res)
        res.log.append(["search", cls, w.solves, K.summary(out)])
    elif scn["kind"] == "selfprop":
        d, cls = judge_selfprop(scn, out, roots, res)
        res.log.append(["selfprop", cls, w.solves])
    else:
        d, cls = judge_check(scn, out, res)
        res.log.append(["check", cls])
    res.count("class " + cls)
    res.states.append([scn["kind"], scn["problem"]["envelope"], cls, kinds])
    if d:
        res.fail("certificate", f"{scn['kind']} ({cls}): {d}")


def search(scn):
    return K.search(crit, scn["problem"], weight=scn["weight"], dampening=scn["level"])


def selfprop(scn):
    p = scn["problem"]
    return crit.find_min_crack_length_self_propagation(
        [list(r) for r in p["snow_profile"]], p["phi"], p["E"], p["t"], tuple(scn["interval"]))


def check(scn):
    p = scn["problem"]
    return crit.check_crack_propagation_criterion(
        [list(r) for r in p["snow_profile"]], p["phi"], {"li": list(scn["li"]), "ki": list(scn["ki"])},
        skier_weight=scn["weight"], E=p["E"], t=p["t"])


# ------------------------------------------------------------------------ coupled criterion
def certify(scn, out, w, roots, res):
    p = dict(scn["problem"])
    if isinstance(out, S.Failed):
        return f"the search failed: {out}", "failed"
    d = dict(zip(K.NAMES, out))
    if len(out) != len(K.NAMES):
        return f"{len(out)} results", "shape"
    limit = 50 if scn["level"] else 25
    handed = any(e[0].startswith("check") for e in w.entered) and not scn["level"]
    if handed:
        limit = 50
        res.count("hand-overs")
    if d["iterations"] > limit:
        return f"{d['iterations']} iterations", "iterations"
    if not d["result"]:
        # a negative verdict: weight and crack length are those of the last attempt
        return None, "negative"
    skier = d["skier"]
    if float(skier.t) != p["t"]:
        if not handed:
            return f"weak layer thickness {skier.t} in the result, {p['t']} asked for", "wrong problem"
        p["t"] = float(skier.t)
        res.count("retry with another thickness (C16)")
    slab = K.slab_of(p)
    sg = d["segments"]
    li, ki, mi = np.asarray(sg["li"], float), np.asarray(sg["ki"], bool), np.asarray(sg["mi"], float)
    W, crack, phi = float(d["skier_weight"]), float(d["crack_length"]), p["phi"]
    if not np.any(ki):
        return None, "everything cracked"
    open_ = float(li[~ki].sum())
    if not crack > 0:
        return f"positive verdict with crack length {crack} (energy criterion {d['g_delta']})", "empty"
    if abs(open_ - crack) > 1e-6 * max(1, crack):
        return f"unsupported segments amount to {open_}, crack length {crack}", "length"
    load = mi[mi != 0]
    if (W == 0 and load.size) or (W != 0 and (load.size != 1 or abs(load[0] - W) > 1e-9 * W)):
        return f"skier loads {mi.tolist()} for a weight of {W}", "weight"
    if W != 0:
        pos = float(np.cumsum(li)[:-1][mi != 0][0])
        if abs(pos - li.sum() / 2) > 1e-6 * li.sum():
            return f"skier stands at {pos} of {li.sum()}", "position"
    # the returned constants solve the slab problem
    worst, where, _, _ = bvp.check_solution(skier, slab, "skiers", phi, dict(li=li, mi=mi, ki=ki), d["C"])
    if not worst < 2e-5:
        return f"the returned solution is wrong by {worst:.2g}: {where}", "solution"
    res.count("solutions certified")
    # energy
    k0 = [True] * len(ki)
    cnt = E.counts_for(slab, li)
    R0 = E.RefSol(slab, "skiers", phi, list(map(float, li)), list(mi), k0, cnt)
    R1 = E.RefSol(slab, "skiers", phi, list(map(float, li)), list(mi), list(ki), cnt)
    idx = [i for i in range(len(ki)) if not ki[i] and li[i] > 0]
    want, ab, _ = E.ref_ginc(R0, R1, idx)
    lim = 1.2e-3 * ab        # the quadrature tolerance asked for is 1e-3
    lo = K.toughness_ref(*(1e3 * np.maximum(0, np.abs(want) - lim)))
    hi = K.toughness_ref(*(1e3 * (np.abs(want) + lim)))
    g = float(d["g_delta"])
    if not lo * 0.999 <= g <= hi * 1.001:
        return f"energy criterion {g} reported, independent evaluation between {lo} and {hi}", "energy"
    # stress of the uncracked slab under that weight
    sig, tau = stresses(slab, R0, li)
    dist = K.envelope_ref(crit, p, sig, tau)
    res.count("energy certified")
    if d["self_collapse"]:
        if W != 0:
            return f"self-collapse with weight {W}", "self-collapse"
        return None, "self-collapse"
    top, dm = float(dist.max()), float(d["dist_max"])
    if not (abs(dm) <= 1.02 * top + 1e-6):
        return f"stress criterion {dm} reported, at most {top} found", "stress"
    if d["pure_stress"]:
        if not (g > 1 or abs(g - 1) < 0.02):
            return f"pure stress failure with energy criterion {g}", "pure stress"
        res.nontrivial = True
        return None, "pure stress"
    if not abs(g - 1) <= 0.002 + 1e-9:
        return f"converged with energy criterion {g}", "convergence"
    if scn["problem"]["envelope"] in ("adam_unpublished", "schottner"):
        # crack edges lie on the stress envelope
        x = np.concatenate([[0], np.cumsum(li)])
        for j in range(len(ki) - 1):
            if ki[j] != ki[j + 1] and (li[j] > 0 and li[j + 1] > 0):
                y = R0.sides(x[j + 1])
                e = [float(K.envelope_ref(crit, p, *weak(slab, v))) for v in y]
                if not min(e) - 2e-3 <= 1 <= max(e) + 2e-3:
                    return f"crack edge at {x[j + 1]} where the stress criterion is {e}", "edge"
        res.count("edges certified")
    res.nontrivial = True
    return None, "converged"


def weak(slab, y):
    """Normal and shear stress (kPa) in the weak layer from a state."""
    dn, dt = ref_opening(slab, y)
    return 1e3 * slab.kn * dn, 1e3 * slab.kt * dt


def ref_opening(slab, y):
    w, psi, u, V = y[1], y[2], y[0], y[4]
    dw = V / slab.kA55 - psi
    return w, u + slab.h / 2 * psi - slab.t / 2 * dw


def stresses(slab, R, li):
    n, t = [], []
    for i, l in enumerate(li):
        if l > 0:
            v = weak(slab, R.gauss(i))
            n.append(np.ravel(v[0]))
            t.append(np.ravel(v[1]))
    tips = np.cumsum(li)[:-1]
    for x in tips:
        for y in R.sides(x):
            v = weak(slab, y)
            n.append(np.ravel(v[0]))
            t.append(np.ravel(v[1]))
    return np.concatenate(n), np.concatenate(t)


# ------------------------------------------------------------------------- self-propagation
def toughness_at(p, crack, slab):
    """Interval of the propagation criterion for a centred crack."""
    L = 1000.0 * sum(r[1] for r in p["snow_profile"])
    li = [L / 2 - crack / 2, crack / 2, crack / 2, L / 2 - crack / 2]
    ki = [True, False, False, True]
    R = E.RefSol(slab, "skiers", p["phi"], li, [0.0, 0.0, 0.0], ki, E.counts_for(slab, li))
    lo, hi, _ = E.ref_gdif(R, li, ki)
    return K.toughness_ref(*(1e3 * lo * (1 - 1e-5))), K.toughness_ref(*(1e3 * hi * (1 + 1e-5)))


def judge_selfprop(scn, out, roots, res):
    p = scn["problem"]
    slab = K.slab_of(p)
    a, b = scn["interval"]
    if roots.fired:
        res.nontrivial = True
        if out is not None and not isinstance(out, S.Failed):
            return f"crack length {out} although the root search did not converge", "unconverged"
        return None, "unconverged"
    if isinstance(out, S.Failed):
        ga, gb = toughness_at(p, a, slab), toughness_at(p, b, slab)
        if ga[1] < 1 - 1e-6 and gb[0] > 1 + 1e-6:
            return f"no crack length found ({out}) although the criterion runs from {ga} to {gb}", "none"
        return None, "no sign change"
    if out is None:
        return "no crack length although the root search converged", "none"
    if not a <= out <= b:
        return f"crack length {out} outside [{a}, {b}]", "outside"
    lo, hi = toughness_at(p, out, slab)
    if not lo - 1e-3 <= 1 <= hi + 1e-3:
        return f"propagation criterion at {out} between {lo} and {hi}", "equality"
    res.nontrivial = True
    return None, "found"


def judge_check(scn, out, res):
    p = scn["problem"]
    slab = K.slab_of(p)
    if isinstance(out, S.Failed):
        return f"failed: {out}", "failed"
    g, flag = out
    li, ki = scn["li"], scn["ki"]
    half, acc, at = sum(li) / 2, 0.0, None
    for i, l in enumerate(li):
        acc += l
        if acc >= half:
            at = i
            break
    mi = [0.0] * (len(li) - 1)
    mi[at] = scn["weight"]
    R = E.RefSol(slab, "skiers", p["phi"], list(map(float, li)), mi, ki, E.counts_for(slab, li))
    lo, hi, n = E.ref_gdif(R, li, ki)
    lo, hi = K.toughness_ref(*(1e3 * lo * (1 - 1e-5))), K.toughness_ref(*(1e3 * hi * (1 + 1e-5)))
    if bool(flag) != bool(g >= 1):
        return f"criterion {g} but verdict {flag}", "flag"
    if not lo * (1 - 1e-3) - 1e-9 <= float(g) <= hi * (1 + 1e-3) + 1e-9:
        return f"criterion {g}, independent evaluation between {lo} and {hi}", "value"
    res.nontrivial = n > 0
    return None, "checked"
