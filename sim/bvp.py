"""Compare a solution returned by the code under test with the reference boundary value problem."""
import numpy as np

from sim import ref


def touchdown_of(slab, cfg, model, case):
    """End conditions of the stage the model reports, with reference values for everything else."""
    op = cfg["seg"]
    if not cfg["touchdown"] or case != "crack" or str(model.mode) == "A":
        return None
    mode = str(model.mode)
    phi = op.get("phi", 0)
    qn, _, pn, _ = slab.loads(phi)
    td = dict(mode=mode, a=float(op["a"]), td=float(model.td),
              tc=op.get("cf", 0.5) * slab.t - (qn + pn) / slab.kn, kR=None)
    if mode == "C":
        td["kR"] = ref.substitute(slab, td["a"] - td["td"], op.get("ratio", 1000), "rot")
    return td


def reference(slab, system, phi, li, mi, ki, td=None):
    left, right = ref.ends(slab, system, phi, td)
    return ref.solve_bvp(slab, phi, list(map(float, li)), list(map(float, mi)), [bool(k) for k in ki],
                         left, right)


def scales(sol):
    """Scale of each state component; translations and their derivatives share physical scales."""
    z = np.abs(sol.z())
    s = z.max(axis=1)
    disp = max(s[0], s[2])
    slope = max(s[1], s[3], s[4], disp * 1e-4)
    out = np.array([disp, slope, disp, slope, slope, max(s[5], slope * 1e-4)])
    return np.maximum(out, 1e-300)


def check_solution(model, slab, system, phi, seg, C, td=None):
    """Largest error of the piecewise solution (relative to component scale); and the reference."""
    li, mi, ki = (np.asarray(seg[k]) for k in ("li", "mi", "ki"))
    sol = reference(slab, system, phi, li, mi, ki, td)
    want = sol.z()
    sc = scales(sol)
    lic = np.concatenate([[0], np.cumsum(li.astype(float))])
    worst, where = 0.0, None
    for i, l in enumerate(li):
        if l == 0:
            continue
        idx = np.where(sol.seg == i)[0]
        idx = idx[sol.x[idx] > lic[i]] if i > 0 else idx
        xs = sol.x[idx] - lic[i]
        got = np.asarray(model.z(list(xs), C[:, [i]], float(l), phi, bool(ki[i])), float)
        err = np.abs(got - want[:, idx]) / sc[:, None]
        err = np.where(np.isfinite(err), err, np.inf)
        m = float(err.max())
        if m > worst:
            r, c = np.unravel_index(np.argmax(err), err.shape)
            worst, where = m, dict(seg=i, x=float(sol.x[idx[c]]), component=int(r),
                                   got=float(got[r, c]), want=float(want[r, idx[c]]))
    return worst, where, sol, sc


def check_raster(model, phi, seg, C, out, num, sc):
    """Rasterized solution: grid covers the slab in order and carries the solution values."""
    x, z, xb = out
    li, ki = np.asarray(seg["li"], float), np.asarray(seg["ki"])
    lic = np.concatenate([[0], np.cumsum(li)])
    L = lic[-1]
    tol = 1e-9 * L
    if x.ndim != 1 or z.shape != (6, x.size) or xb.shape != x.shape:
        return f"shapes {x.shape} {z.shape} {xb.shape}"
    if abs(x[0]) > tol or abs(x[-1] - L) > tol or np.any(np.diff(x) < -tol):
        return f"grid does not run from 0 to {L}: {x[0]}..{x[-1]}"
    if x.size < num:
        return f"only {x.size} grid points, {num} requested"
    nz = [i for i in range(len(li)) if li[i] > 0]
    for i in nz:
        if np.min(np.abs(x - lic[i])) > tol:
            return f"segment start {lic[i]} is not on the grid"
    for j in range(x.size):
        ok = False
        err = None
        for i in nz:
            if lic[i] - tol <= x[j] <= lic[i + 1] + tol:
                w = np.asarray(model.z(float(min(max(x[j] - lic[i], 0), li[i])), C[:, [i]], float(li[i]), phi,
                                       bool(ki[i])), float)[:, 0]
                e = np.abs(w - z[:, j]) / sc
                if np.all(e < 1e-7):
                    ok = True
                    break
                err = float(np.max(e))
        if not ok:
            return f"grid point {j} (x={x[j]}) does not carry the solution (error {err})"
    return None
