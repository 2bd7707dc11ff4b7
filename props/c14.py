"""C14 field quantities equal their definitions for the solution and configuration in force."""
import math

import numpy as np

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2500, "cap": 170}, "thorough": {"runs": 20000, "cap": 2400}}
RULE = ("one run = one seeded session on one model, with calls failing by themselves or by an injected backend fault; "
        "at every query all field getters and output helpers are compared with values computed from the queried "
        "solution, the units table and the slab, weak layer and inclination in force. Non-trivial: fields were "
        "compared after a reconfiguration or after a failed call.")
STATE_MEASURE = "distinct (system, stage, cracked, surface load, previous three operations)"
REAL = ["FieldQuantitiesMixin, AnalysisMixin stress fields, OutputMixin getters"]
STUBS = ["backend calls fail at seeded points of some operations"]
ASSUMPTIONS = ["slab stress fields are compared in supported regions and without surface load only",
               "axial slab stress within one mesh cell of own weight, transverse stress within the quadrature "
               "error of its mesh",
               "normalisation of slab stresses: tensile strength after Sigrist (2006) as documented"]
LEN = {"m": 1e-3, "cm": 1e-1, "mm": 1.0, "um": 1e3}
ANG = {"deg": 180 / math.pi, "degrees": 180 / math.pi, "rad": 1.0, "radians": 1.0}
STR = {"kPa": 1e3, "MPa": 1.0}
GU = {"J/m^2": 1e3, "kJ/m^2": 1.0, "N/mm": 1.0}
RT = 1e-8


def gen(rng, tier, i):
    s = G.session(rng, n_ops=(4, 14) if tier == "quick" else (4, 30), bad=0.08, kinds=["raster"], reconf=0.42)
    for op in s["ops"]:
        if op["op"] == "q":
            op["num"] = rng.choice([3, 12, 40])
            op["dz"] = rng.choice([5, 20, 60])
            op["z0"] = G.uni(rng, -150, 150)
            op["sc"] = G.uni(rng, 1, 5)
            op["u"] = [rng.choice(list(d)) for d in (LEN, ANG, STR, GU)]
        elif rng.random() < 0.15:
            op["_fault"] = {"kind": rng.choice(["linalg", "alloc", "root"]), "n": int(2 ** rng.uniform(0, 7)) - 1,
                            "exc": rng.choice(["linalg", "memory", "interrupt"])}
    return s


def close(a, b, scale, extra=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return "NaN pattern differs"
    e = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    lim = RT * scale + extra
    if np.any(e > lim):
        k = np.unravel_index(np.argmax(e - lim), e.shape)
        return f"{a[k]!r} instead of {b[k]!r} (scale {np.max(scale):.3g}) at {tuple(int(v) for v in k)}"
    return None


def mx(x):
    x = np.abs(np.asarray(x, float))
    return float(np.nanmax(x)) if x.size and not np.all(np.isnan(x)) else 0.0


def fields(model, slab, phi, z, op):
    """(name, got thunk, expected, scale) for all getters on solution vectors z."""
    ul, ua, us, ug = op["u"]
    cl, ca, cs, cg = LEN[ul], ANG[ua], STR[us], GU[ug]
    z0 = op["z0"]
    u, du, w, dw, psi, dpsi = z
    h2 = slab.h / 2
    A, B, D, K = slab.A11, slab.B11, slab.D11, slab.kA55
    sig = -slab.kn * w
    tau = slab.kt * (u + h2 * psi - slab.t / 2 * dw)
    ts = slab.kt * (mx(u) + h2 * mx(psi) + slab.t / 2 * mx(dw))
    ss = mx(sig)
    y = [
        ("w", lambda: model.w(z, unit=ul), cl * w, cl * mx(w)),
        ("dw_dx", lambda: model.dw_dx(z), dw, mx(dw)),
        ("psi", lambda: model.psi(z, unit=ua), ca * psi, ca * mx(psi)),
        ("dpsi_dx", lambda: model.dpsi_dx(z), dpsi, mx(dpsi)),
        ("u", lambda: model.u(z, z0=z0, unit=ul), cl * (u + z0 * psi), cl * (mx(u) + abs(z0) * mx(psi))),
        ("du_dx", lambda: model.du_dx(z, z0=z0), du + z0 * dpsi, mx(du) + abs(z0) * mx(dpsi)),
        ("N", lambda: model.N(z), A * du + B * dpsi, A * mx(du) + abs(B) * mx(dpsi)),
        ("M", lambda: model.M(z), B * du + D * dpsi, abs(B) * mx(du) + D * mx(dpsi)),
        ("V", lambda: model.V(z), K * (dw + psi), K * (mx(dw) + mx(psi))),
        ("sig", lambda: model.sig(z, unit=us), cs * sig, cs * ss),
        ("tau", lambda: model.tau(z, unit=us), cs * tau, cs * ts),
        ("eps", lambda: model.eps(z), -w / slab.t, mx(w) / slab.t),
        ("gamma", lambda: model.gamma(z), tau / (slab.kt * slab.t), ts / (slab.kt * slab.t)),
        ("Gi", lambda: model.Gi(z, unit=ug), cg * sig ** 2 / (2 * slab.kn), cg * ss ** 2 / slab.kn),
        ("Gii", lambda: model.Gii(z, unit=ug), cg * tau ** 2 / (2 * slab.kt), cg * ts ** 2 / slab.kt),
    ]
    # defaults of the unit arguments
    y += [
        ("w default unit", lambda: model.w(z), w, mx(w)),
        ("u default unit", lambda: model.u(z, z0=z0), u + z0 * psi, mx(u) + abs(z0) * mx(psi)),
        ("psi default unit", lambda: model.psi(z), psi, mx(psi)),
        ("sig default unit", lambda: model.sig(z), sig, ss),
        ("tau default unit", lambda: model.tau(z), tau, ts),
        ("Gi default unit", lambda: model.Gi(z), sig ** 2 / (2 * slab.kn), ss ** 2 / slab.kn),
        ("Gii default unit", lambda: model.Gii(z), tau ** 2 / (2 * slab.kt), ts ** 2 / slab.kt),
    ]
    for val, sg in (("min", -1), ("max", 1)):
        p = cs * (sig / 2 + sg * np.sqrt(sig ** 2 + 4 * tau ** 2) / 2)
        y.append((f"principal_stress_weaklayer {val}",
                  lambda val=val: model.principal_stress_weaklayer(z, unit=us, val=val), p, cs * (ss + ts)))
    p = 1e3 * (sig / 2 - np.sqrt(sig ** 2 + 4 * tau ** 2) / 2)
    y.append(("principal_stress_weaklayer normalized",
              lambda: model.principal_stress_weaklayer(z, sc=op["sc"], unit="kPa", val="min", normalize=True),
              p / op["sc"], 1e3 * (ss + ts) / op["sc"]))
    y.append(("principal_stress_weaklayer default strength",
              lambda: model.principal_stress_weaklayer(z, normalize=True), p / 2.6, 1e3 * (ss + ts) / 2.6))
    return y


def outputs(model, slab, z, x, xb, op):
    ul, ua, us, _ = op["u"]
    u, w, dw, psi = z[0], z[2], z[3], z[4]
    h2 = slab.h / 2
    sig = STR[us] * -slab.kn * w
    tau = STR[us] * slab.kt * (u + h2 * psi - slab.t / 2 * dw)
    tsc = STR[us] * slab.kt * (mx(u) + h2 * mx(psi) + slab.t / 2 * mx(dw))
    m = ~np.isnan(xb)
    y = []
    for name, f, sc in (("get_weaklayer_normalstress", sig, mx(sig)), ("get_weaklayer_shearstress", tau, tsc)):
        y.append((name, lambda name=name: getattr(model, name)(x=xb, z=z, unit=us),
                  (xb / 10, np.where(m, f, np.nan)), sc))
        y.append((name + " removeNaNs", lambda name=name: getattr(model, name)(x=xb, z=z, unit=us, removeNaNs=True),
                  (xb[m] / 10, f[m]), sc))
    for loc, z0 in (("top", -h2), ("mid", 0.0), ("bot", h2)):
        y.append((f"get_slab_displacement {loc}",
                  lambda loc=loc: model.get_slab_displacement(x=x, z=z, loc=loc, unit=ul),
                  (x / 10, LEN[ul] * (u + z0 * psi)), LEN[ul] * (mx(u) + h2 * mx(psi))))
    y.append(("get_slab_deflection", lambda: model.get_slab_deflection(x=x, z=z, unit=ul),
              (x / 10, LEN[ul] * w), LEN[ul] * mx(w)))
    y.append(("get_slab_rotation", lambda: model.get_slab_rotation(x=x, z=z, unit=ua),
              (x / 10, ANG[ua] * psi), ANG[ua] * mx(psi)))
    y.append(("get_slab_rotation default unit", lambda: model.get_slab_rotation(x=x, z=z),
              (x / 10, psi * 180 / math.pi), 180 / math.pi * mx(psi)))
    return y


def slab_stress(model, slab, phi, z, op):
    """Slab stress fields in supported regions, from traction-free top downwards."""
    us = op["u"][2]
    cs = STR[us]
    dz = op["dz"]
    mesh = np.asarray(model.get_zmesh(dz=dz), float)
    # mesh: both faces of every layer are grid points, cells no larger than dz, layer properties on the grid
    zi = mesh[:, 0]
    if abs(zi[0] + slab.h / 2) > 1e-9 * slab.h or abs(zi[-1] - slab.h / 2) > 1e-9 * slab.h:
        return "get_zmesh: mesh does not span the slab"
    step = np.diff(zi)
    if np.any(step < -1e-9) or np.any(step > dz * (1 + 1e-9)):
        return "get_zmesh: cells larger than dz or not ordered"
    layer = np.zeros(len(zi), int)
    j = 0
    for i in range(len(zi)):
        if i and step[i - 1] <= 1e-12 * slab.h and j + 1 < len(slab.zl) and abs(zi[i] - slab.zl[j][1]) < 1e-9 * slab.h:
            j += 1
        layer[i] = j
    if layer[-1] != len(slab.zl) - 1:
        return "get_zmesh: layer faces missing"
    rows = np.array(slab.rows)
    rho, E, nu = rows[layer, 0], rows[layer, 2], rows[layer, 4]
    for c, want in ((1, E), (2, nu), (3, rho)):
        d = close(mesh[:, c], want, mx(want))
        if d:
            return f"get_zmesh column {c}: {d}"
    f = math.radians(phi)
    qt, qn = -rho * 1e-12 * slab.g * math.sin(f), rho * 1e-12 * slab.g * math.cos(f)
    Q = E / (1 - nu ** 2)
    Mx = slab.rhs_matrix(True, phi)
    y = slab.z2y(z)
    Y = np.vstack([y, np.ones(z.shape[1])])
    Y1 = Mx @ Y
    Y2 = Mx @ Y1
    det = slab.A11 * slab.D11 - slab.B11 ** 2

    def dd(Yk):
        return ((slab.D11 * Yk[3] - slab.B11 * Yk[5]) / det, (-slab.B11 * Yk[3] + slab.A11 * Yk[5]) / det)
    u2, p2 = dd(Y1)
    u3, p3 = dd(Y2)
    Z = zi[:, None]
    sxx = Q[:, None] * (z[1] + Z * z[5])
    nrow = len(zi)
    txz = np.zeros((nrow, z.shape[1]))
    szz = np.zeros_like(txz)
    err = np.zeros(nrow)
    i1 = np.zeros_like(txz)
    for i in range(1, nrow):
        a, b = zi[i - 1], zi[i]
        d = b - a
        q = Q[i]
        txz[i] = txz[i - 1] + q * (u2 * d + p2 * (b * b - a * a) / 2) + qt[i] * d
        # exact double integral of the piecewise linear second derivative
        i1[i] = i1[i - 1] + q * (u3 * d + p3 * (b * b - a * a) / 2)
        szz[i] = szz[i - 1] + i1[i - 1] * d + q * (u3 * d * d / 2 + p3 * (
            (b ** 3 - a ** 3) / 6 - a * a * d / 2)) - qn[i] * d
        err[i] = err[i - 1] + q * d ** 3 / 12 * (mx(u3) + slab.h / 2 * mx(p3)) + 1e-12 * q * d
    cell = np.maximum(np.concatenate([np.abs(step), [0]]), np.concatenate([[0], np.abs(step)]))
    ex = np.abs(qt) * np.maximum(cell, dz) * 1.01
    sx, st, sz_ = mx(sxx), max(mx(txz), mx(u2) * mx(Q) * slab.h), max(mx(szz), mx(i1) * slab.h)
    for name, want, sc, extra in (("Sxx", sxx, sx, ex[:, None]), ("Txz", txz, st, 0.0),
                                  ("Szz", szz, sz_, 1.1 * err[:, None])):
        d = close(getattr(model, name)(z, phi=phi, dz=dz, unit=us), cs * want, cs * sc, cs * extra)
        if d:
            return f"{name} ({us}, dz={dz}): {d}"
    tot = sx + st + sz_
    extra = ex[:, None] + err[:, None] * 1.1
    for val, sg in (("max", 1), ("min", -1)):
        want = (sxx + szz) / 2 + sg * np.sqrt((sxx - szz) ** 2 + 4 * txz ** 2) / 2
        d = close(model.principal_stress_slab(z, phi=phi, dz=dz, unit=us, val=val), cs * want, cs * tot, cs * extra)
        if d:
            return f"principal_stress_slab {val}: {d}"
        if val == "max":
            st_ = cs * 1e-3 * 240 * (rho / 917) ** 2.44
            d = close(model.principal_stress_slab(z, phi=phi, dz=dz, unit=us, val=val, normalize=True),
                      cs * want / st_[:, None], cs * tot / st_[:, None], cs * extra / st_[:, None])
            if d:
                return f"principal_stress_slab normalized: {d}"
    return None


def run(scn, res):
    r = S.Runner(weac, scn)
    hist = []
    events = 0
    for n, op in enumerate(scn["ops"]):
        if op["op"] != "q":
            ctl = F.FaultAt(**op["_fault"]) if op.get("_fault") else F.Counter()
            op = {k: v for k, v in op.items() if k != "_fault"}
            with F.use(ctl):
                try:
                    out = r.apply(op)
                except (Exception, F.InjectedInterrupt) as e:      # pylint: disable=broad-except
                    out = S.Failed(e)
            if isinstance(ctl, F.FaultAt) and ctl.fired:
                res.fault(f"{ctl.exc} in {ctl.site}", ctl.fired)
                hist.append("failed " + op["op"])
                if isinstance(out, S.Failed) and op["op"] in ("beam", "found", "surf", "recompute"):
                    # a failed setter is unspecified until it is repeated
                    out = S.attempt(r.apply, op)
            res.log.append([n, op["op"], isinstance(out, S.Failed)])
            hist.append(op["op"])
            if n:
                events += 1
            continue
        if r.skip(op):
            res.count("skipped")
            continue
        slab = S.slab_of(r.cfg)
        seg = r.segs[op["case"]]
        model, phi = r.model, r.phi
        C = S.attempt(model.assemble_and_solve, phi=phi, **seg)
        if isinstance(C, S.Failed):
            continue
        x, z, xb = model.rasterize_solution(C=C, phi=phi, num=op["num"], **seg)
        z = np.asarray(z)
        # the mask of unsupported positions
        li, ki = np.asarray(seg["li"], float), np.asarray(seg["ki"])
        nz = li > 0
        lin, kin = li[nz], ki[nz]
        lic = np.concatenate([[0], np.cumsum(lin)])
        tol = 1e-9 * lic[-1]
        for j, xj in enumerate(x):
            sup = any(kin[i] and lic[i] - tol <= xj <= lic[i + 1] + tol for i in range(len(lin)))
            if sup == bool(np.isnan(xb[j])) or (sup and xb[j] != xj):
                res.fail("mask", f"op {n}: weak-layer coordinate {xb[j]} at x={xj}, supported={sup}", op=n)
                return
        todo = fields(model, slab, phi, z, op) + outputs(model, slab, z, x, xb, op)
        if z.shape[1] > 1:      # single solution vectors
            todo += [(nm + " (one position)", th, w, s) for nm, th, w, s in
                     fields(model, slab, phi, z[:, [z.shape[1] // 2]], op)]
        for name, thunk, want, scale in todo:
            try:
                got = thunk()
            except Exception as e:      # pylint: disable=broad-except
                res.fail("field", f"op {n} {name}: {type(e).__name__}: {e}", op=n)
                return
            if isinstance(want, tuple):
                d = close(got[0], want[0], mx(want[0])) or close(got[1], want[1], scale)
            else:
                d = close(got, want, scale)
            res.count("fields compared")
            if d:
                res.fail("field", f"op {n} {name} units {op['u']}: {d}", op=n)
                return
        if r.cfg["p"] == 0 and np.any(~np.isnan(xb)):
            d = slab_stress(model, slab, phi, z[:, ~np.isnan(xb)], op)
            res.count("slab stress fields compared")
            if d:
                res.fail("slabstress", f"op {n} {d}", op=n)
                return
        res.log.append([n, "q", z.shape[1]])
        res.states.append([r.cfg["system"], str(model.mode), op["case"], r.cfg["p"] != 0, hist[-3:]])
        if events:
            res.nontrivial = True
        hist.append("q")
