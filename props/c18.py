"""C18 energy release rates along crack-advance histories."""
import math

import numpy as np

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F, ref, bvp  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2000, "cap": 170}, "thorough": {"runs": 15000, "cap": 2400}}
RULE = ("one run = one crack-advance history on one model (several segments cracking in a seeded order, skier loads, "
        "reconfigured and touchdown models) with quadrature noise within tolerance and the eigen-solver answering in "
        "another legal form; incremental rates are compared with Gauss integrals over independently solved "
        "boundary value problems, with the energy balance of the whole history (sum over advances against the "
        "one-step advance, up to the imbalance of the kinematic model itself), differential rates with the tip energies of the reference solution. Non-trivial: at "
        "least two advances were evaluated, or one on a reconfigured or touchdown model.")
STATE_MEASURE = "distinct (system, stage, support pattern before, support pattern after, loads)"
REAL = ["weac.Layered: assembly, ginc, gdif", "scipy.integrate.quad"]
STUBS = ["quad results carry a relative error up to 8e-4", "eigen-solver answers in another legal form"]
ASSUMPTIONS = ["quadrature tolerance of the code (1e-3) is respected: agreement within 4e-3 of the integral of the "
               "absolute integrand plus the absolute quadrature tolerance",
               "at a skier load exactly above a crack tip either one-sided shear stress is accepted"]
QT = 4e-3


def gen(rng, tier, i):
    if rng.random() < 0.2:
        # PSTs (with touchdown) through calc_segments
        s = G.session(rng, n_ops=(3, 10), systems=["pst-", "-pst"], td_prob=0.8, bad=0.03, kinds=["ginc"], reconf=0.5)
    else:
        s = G.session(rng, n_ops=(1, 5), allow_td=False, bad=0.05, kinds=["ginc"], reconf=0.6)
        system = s["model"]["system"]
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        inf = system in ("skier", "skiers")
        mid = [G.uni(rng, 20, 600) if rng.random() < 0.9 else 0.0 for _ in range(n)]
        if inf:
            li = [G.uni(rng, 5000, 15000)] + mid + [G.uni(rng, 5000, 15000)]
            can = list(range(1, n + 1))
        else:
            k = rng.randrange(n + 1)
            li = mid[:k] + [G.uni(rng, 1500, 9000)] + mid[k:]
            can = [j for j in range(n + 1) if j != k]
        mi = [G.uni(rng, 10, 150) if rng.random() < 0.35 else 0 for _ in range(len(li) - 1)]
        order = list(can)
        rng.shuffle(order)
        steps = []
        while order:
            m = rng.randint(1, min(3, len(order)))
            steps.append(order[:m])
            order = order[m:]
        s["ops"] = [o for o in s["ops"] if o["op"] not in ("q",)]
        s["advance"] = {"li": li, "mi": mi, "steps": steps, "phi": G.phi(rng)}
    s["noise"] = rng.randrange(1 << 30) if rng.random() < 0.7 else None
    s["eig"] = rng.randrange(1 << 30) if rng.random() < 0.4 else None
    s["_lists"] = ["ops"]
    return s


def shrink(scn):
    import copy
    from sim import runner
    if "advance" in scn:
        a = scn["advance"]
        for i in range(len(a["steps"])):
            c = copy.deepcopy(scn)
            del c["advance"]["steps"][i]
            yield c
        for i, m in enumerate(a["mi"]):
            if m:
                c = copy.deepcopy(scn)
                c["advance"]["mi"][i] = 0
                yield c
        if a["phi"] != 0:
            c = copy.deepcopy(scn)
            c["advance"]["phi"] = 0.0
            yield c
    yield from runner.shrink_generic(scn)


class RefSol:
    """Reference solution with Gauss points in every element."""

    GX, GW = np.polynomial.legendre.leggauss(7)

    def __init__(self, slab, system, phi, li, mi, ki, counts, td=None):
        left, right = ref.ends(slab, system, phi, td)
        self.slab, self.phi, self.li, self.mi, self.ki = slab, phi, li, [float(m) for m in mi], ki
        self.sol = ref.solve_bvp(slab, phi, li, mi, ki, left, right, counts=counts)
        self.counts = counts
        self.first = {}
        e = 0
        for i, l in enumerate(li):
            if l > 0:
                self.first[i] = e
                e += counts[i]

    def gauss(self, i):
        """States y (6 x points) at all Gauss points of segment i."""
        n = self.counts[i]
        d = self.li[i] / n
        M = self.slab.rhs_matrix(bool(self.ki[i]), self.phi)
        out = []
        for g in self.GX:
            E = ref._expm(M * (d * (g + 1) / 2))
            e = np.arange(self.first[i], self.first[i] + n)
            y0 = self.sol.y[:, e] + self.sol.jumps[:, e]
            out.append(E[:6, :6] @ y0 + E[:6, [6]])
        return np.stack(out, axis=2)        # 6 x n x g

    def weights(self, i):
        return np.ones((self.counts[i], 1)) * self.GW[None, :] * self.li[i] / self.counts[i] / 2

    def opening(self, y):
        """Weak-layer stress-conjugate displacements (normal, shear)."""
        s = self.slab
        dw = y[4] / s.kA55 - y[2]
        return y[1], y[0] + s.h / 2 * y[2] - s.t / 2 * dw

    def sides(self, x):
        """States left and right of everything that acts at position x (node of the grid)."""
        k = np.where(np.abs(self.sol.x - x) < 1e-9 * max(1, self.sol.x[-1]))[0][0]
        y = self.sol.y[:, k]
        return y, y + (self.sol.jumps[:, k] if k < self.sol.jumps.shape[1] else self.sol.end_jump)

    def tip(self, j):
        """States left and right of transition j (loads at the same position act one after the other)."""
        xs = np.concatenate([[0], np.cumsum(self.li)])[1:-1]
        x = xs[j]
        here = [i for i in range(len(xs)) if abs(xs[i] - x) < 1e-9 * max(1, self.sol.x[-1])]
        m = sum(self.mi[i] for i in here)
        before = sum(self.mi[i] for i in here if i < j)
        f0, f1 = (before / m, (before + self.mi[j]) / m) if m else (0.0, 1.0)
        y, y1 = self.sides(x)
        jump = y1 - y
        return y + f0 * jump, y + f1 * jump


def ref_ginc(a, b, idx):
    """Work of the stresses of solution a on the displacements of solution b, over 2 da."""
    s = a.slab
    g = np.zeros(2)
    ab = np.zeros(2)
    da = sum(a.li[i] for i in idx)
    for i in idx:
        if a.li[i] == 0:
            continue
        n0, t0 = a.opening(a.gauss(i))
        n1, t1 = b.opening(b.gauss(i))
        W = a.weights(i)
        f1, f2 = s.kn * n0 * n1, s.kt * t0 * t1
        g += [np.sum(W * f1), np.sum(W * f2)]
        ab += [np.sum(W * np.abs(f1)), np.sum(W * np.abs(f2))]
    return g / (2 * da), ab / (2 * da), da


def ref_gdif(r, li, ki):
    """Interval of (I, II) tip energies: averaged over the tips of inner cracks."""
    s = r.slab
    tips = [j for j in range(len(li) - 1) if bool(ki[j]) != bool(ki[j + 1])]
    lo, hi = np.zeros(2), np.zeros(2)
    for n, j in enumerate(tips):
        wgt = 0.5 if len(tips) > 1 else 1.0
        if n == 0 and not ki[0] or n == len(tips) - 1 and not ki[-1]:
            wgt = 1.0
        v = []
        for y in r.tip(j):
            dn, dt = r.opening(y)
            v.append([s.kn * dn ** 2 / 2, s.kt * dt ** 2 / 2])
        lo += wgt * np.min(v, axis=0)
        hi += wgt * np.max(v, axis=0)
    return lo, hi, len(tips)


def counts_for(slab, li):
    rate = slab.rate(True)
    return [max(2, int(math.ceil(l * rate / 1.0))) if l > 0 else 0 for l in li]


UNITS = {"J/m^2": 1e3, "kJ/m^2": 1.0, "N/mm": 1.0}


def check_gdif(model, C, phi, seg, R, res, what):
    li, ki = np.asarray(seg["li"], float), np.asarray(seg["ki"])
    lo, hi, n = ref_gdif(R, li, ki)
    for unit, f in list(UNITS.items()) + [(None, 1.0)]:
        kw = {} if unit is None else {"unit": unit}
        g = np.asarray(model.gdif(C=C, phi=phi, li=seg["li"], ki=seg["ki"], **kw), float)
        if g.shape != (3,):
            return f"{what}: gdif has shape {g.shape}"
        want_lo = f * np.concatenate([[lo.sum()], lo])
        want_hi = f * np.concatenate([[hi.sum()], hi])
        tol = 2e-6 * f * hi.sum() + 1e-30
        if np.any(g < 0) or not np.all(np.isfinite(g)):
            return f"{what}: gdif {g}"
        if np.any(g < want_lo - tol) or np.any(g > want_hi + tol):
            return f"{what}: gdif ({unit}) {g.tolist()} outside [{want_lo.tolist()}, {want_hi.tolist()}]"
        if abs(g[0] - g[1] - g[2]) > 1e-9 * abs(g[0]) + 1e-300:
            return f"{what}: gdif total {g}"
    res.count("gdif compared")
    return None


def check_ginc(model, C0, C1, phi, seg, k0, k1, R0, R1, res, what, noise):
    idx = [i for i in range(len(k0)) if k0[i] and not k1[i]]
    g = np.asarray(model.ginc(C0=C0, C1=C1, phi=phi, li=seg["li"], ki=np.array(k1), k0=np.array(k0)), float)
    want, ab, da = ref_ginc(R0, R1, idx)
    lim = QT * ab + 1e-3 * len(idx) / (2 * da)
    if g.shape != (3,) or not np.all(np.isfinite(g)):
        return f"{what}: ginc {g}", None
    if np.any(np.abs(g[1:] - want) > lim):
        return f"{what}: ginc {g.tolist()} but work of crack opening is {[float(want.sum())] + want.tolist()} (limit {lim.tolist()})", None
    if abs(g[0] - g[1] - g[2]) > 1e-9 * (abs(g[1]) + abs(g[2])) + 1e-300:
        return f"{what}: ginc total {g}", None
    res.count("ginc compared")
    d = np.max(np.abs(g[1:] - want) / (lim))
    res.count("ginc error decile %d" % int(10 * d))
    return None, (g, da, want, lim)


def run(scn, res):
    quad = F.QuadNoise(scn["noise"]) if scn["noise"] is not None else None
    eig = F.EigVariant(scn["eig"]) if scn["eig"] is not None else None
    ctl = F.Chain(quad, eig)
    with F.use(ctl):
        _run(scn, res)
    if quad and quad.fired:
        res.fault("quadrature noise", quad.fired)
    if eig and eig.fired:
        res.fault("eigen-solver answer in another form", eig.fired)


def _run(scn, res):
    r = S.Runner(weac, scn)
    reconf = 0
    for n, op in enumerate(scn["ops"]):
        if op["op"] != "q":
            out = S.attempt(r.apply, op)
            res.log.append([n, op["op"], isinstance(out, S.Failed)])
            reconf += n > 0
            continue
        if r.skip(op) or "advance" in scn:
            continue
        # one-step advance of the segmentation in force (touchdown included)
        slab = S.slab_of(r.cfg)
        sg = r.segs["both"]
        li, mi, ki, k0 = (np.asarray(sg[k]) for k in ("li", "mi", "ki", "k0"))
        idx = [i for i in range(len(li)) if k0[i] and not ki[i]]
        if sum(li[i] for i in idx) <= 0 or not np.any(ki):
            continue
        cnt = counts_for(slab, li)
        td = bvp.touchdown_of(slab, r.cfg, r.model, "crack")
        m, phi = r.model, r.phi
        try:
            C0 = m.assemble_and_solve(phi=phi, **r.segs["nocrack"])
            C1 = m.assemble_and_solve(phi=phi, **r.segs["crack"])
            R0 = RefSol(slab, r.cfg["system"], phi, list(map(float, li)), mi, k0, cnt)
            R1 = RefSol(slab, r.cfg["system"], phi, list(map(float, li)), mi, ki, cnt, td)
            d, _ = check_ginc(m, C0, C1, phi, sg, k0, ki, R0, R1, res, f"op {n}", scn["noise"])
            d = d or check_gdif(m, C1, phi, r.segs["crack"], R1, res, f"op {n}")
        except Exception as e:      # pylint: disable=broad-except
            d = f"op {n}: {type(e).__name__}: {e}"
        if d:
            res.fail("energy", d, op=n)
            return
        res.log.append([n, "G"])
        res.states.append([r.cfg["system"], str(m.mode), li.size])
        if reconf or r.cfg["touchdown"]:
            res.nontrivial = True
    if "advance" in scn:
        advance(scn, r, res, reconf)


def advance(scn, r, res, reconf):
    if r.dirty:
        r.model.calc_fundamental_system()
        r.dirty = False
    adv = scn["advance"]
    slab = S.slab_of(r.cfg)
    system, phi, m = r.cfg["system"], adv["phi"], r.model
    li = np.array(adv["li"], float)
    mi = np.array(adv["mi"], float)
    cnt = counts_for(slab, li)
    k = [True] * len(li)
    states = [list(k)]
    for st in adv["steps"]:
        k = list(k)
        for j in st:
            k[j] = False
        states.append(k)
    Cs, Rs = [], []
    for k in states:
        Cs.append(m.assemble_and_solve(phi=phi, li=li, mi=mi, ki=np.array(k)))
        Rs.append(RefSol(slab, system, phi, list(li), list(mi), k, cnt))
    work, expected = 0.0, 0.0
    slack = 0.0
    done = 0
    for j in range(1, len(states)):
        seg = {"li": li, "mi": mi, "ki": np.array(states[j])}
        idx = [i for i in range(len(li)) if states[j - 1][i] and not states[j][i]]
        d = check_gdif(m, Cs[j], phi, seg, Rs[j], res, f"advance {j}")
        if d:
            res.fail("energy", d)
            return
        if sum(li[i] for i in idx) <= 0:
            continue
        d, v = check_ginc(m, Cs[j - 1], Cs[j], phi, seg, states[j - 1], states[j], Rs[j - 1], Rs[j], res,
                          f"advance {j}", scn["noise"])
        if d:
            res.fail("energy", d)
            return
        work += v[0][0] * v[1]
        expected += v[2].sum() * v[1]
        slack += v[3].sum() * v[1]
        done += 1
        res.states.append([system, states[j - 1], states[j], [x > 0 for x in mi]])
    if done > 1:
        seg = {"li": li, "mi": mi, "ki": np.array(states[-1])}
        d, v = check_ginc(m, Cs[0], Cs[-1], phi, seg, states[0], states[-1], Rs[0], Rs[-1], res, "whole history",
                          scn["noise"])
        if d:
            res.fail("energy", d)
            return
        total = v[0][0] * v[1]
        # the weak-layer kinematics (shear layer below a shear-flexible slab) leave a small imbalance of their own
        own = v[2].sum() * v[1] - expected
        if abs(total - work - own) > slack + v[3].sum() * v[1]:
            res.fail("balance", f"advances release {work}, the whole history {total} (imbalance of the model {own})")
            return
        res.count("histories balanced")
    res.log.append(["advance", done])
    if done > 1 or (done and reconf):
        res.nontrivial = True
