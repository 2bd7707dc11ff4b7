"""Session executor: applies JSON operations to a model through its public API."""
import copy

import numpy as np

from sim import ref


class _Skip:
    """Marks an operation that was skipped (stays the same object when pickled)."""

    def __reduce__(self):
        return "SKIP"

    def __repr__(self):
        return "skipped"


SKIP = _Skip()


class Failed:
    """Result of an operation that raised."""

    def __init__(self, exc):
        self.type = type(exc).__name__
        self.exc = exc

    def __repr__(self):
        return f"Failed({self.type}: {str(self.exc)[:80]})"


def initial_cfg(m, ctor):
    if m["cls"] == "Inverse":
        c0, c1, ew = ctor["parameters"]
        return {"system": m["system"], "touchdown": False, "cls": "Inverse", "ctor": ctor,
                "layers": ctor["layers"], "C0": c0, "C1": c1, "nu_s": 0.25,
                "t": 30.0, "E": ew, "nu_w": 0.25, "p": 0.0}
    return {"system": m["system"], "touchdown": m["touchdown"], "cls": "Layered", "ctor": ctor,
            "layers": ctor["layers"] or [[240, 200]], "C0": 6.5, "C1": 4.4, "nu_s": 0.25,
            "t": 30.0, "E": 0.25, "nu_w": 0.25, "p": 0.0}


def track(cfg, op):
    """Configuration in force after a successful configuration operation."""
    k = op["op"]
    if k == "beam":
        cfg = dict(cfg, layers=op["layers"], C0=op.get("C0", 6.5), C1=op.get("C1", 4.4),
                   nu_s=op.get("nu", 0.25))
    elif k == "found":
        cfg = dict(cfg, t=op.get("t", 30.0), E=op.get("E", 0.25), nu_w=op.get("nu", 0.25))
    elif k == "surf":
        cfg = dict(cfg, p=op["p"])
    elif k == "seg":
        cfg = dict(cfg, seg=op)
    return cfg


def construct(weac, m, ctor):
    if m["cls"] == "Inverse":
        return weac.Inverse(system=m["system"], layers=copy.deepcopy(ctor["layers"]),
                            parameters=tuple(ctor["parameters"]))
    return weac.Layered(system=m["system"], layers=copy.deepcopy(ctor["layers"]),
                        touchdown=m["touchdown"])


def fresh(weac, cfg):
    """A newly built model in the given configuration. Returns (model, segments or None)."""
    if cfg["cls"] == "Inverse":
        m = weac.Inverse(system=cfg["system"], layers=[[200, 100]])
    else:
        m = weac.Layered(system=cfg["system"], touchdown=cfg["touchdown"])
    m.set_beam_properties(copy.deepcopy(cfg["layers"]), C0=cfg["C0"], C1=cfg["C1"], nu=cfg["nu_s"])
    m.set_foundation_properties(t=cfg["t"], E=cfg["E"], nu=cfg["nu_w"])
    m.set_surface_load(cfg["p"])
    m.calc_fundamental_system()
    s = None
    if "seg" in cfg:
        s = segment(m, cfg["seg"])
    return m, s


def segment(model, op):
    kw = {k: copy.deepcopy(v) for k, v in op.items() if k != "op" and not k.startswith("_")}
    return model.calc_segments(**kw)


def sl(z, name):
    return z


def query(model, segs, phi, q, weac=None):
    """Execute a query; returns a nested structure of arrays/floats."""
    k = q["k"]
    case = q.get("case", "crack")
    if k == "thresholds":
        return {"a1": model.calc_a1(), "a2": model.calc_a2()}
    if k == "stiff":
        return {"k": model.substitute_stiffness(q["L"], q["support"], q["dof"])}
    if k == "state":
        return {"mode": str(model.mode), "td": float(model.td), "tc": float(model.tc), "a": float(model.a)}
    if k == "zmesh":
        return {"z": model.get_zmesh(dz=q["dz"])}
    if k == "load":
        return {"w": np.array(model.get_weight_load(q["phi"])), "p": np.array(model.get_surface_load(q["phi"])),
                "s": np.array(model.get_skier_load(q["m"], q["phi"]))}
    if k == "ginc":
        C0 = model.assemble_and_solve(phi=phi, **segs["nocrack"])
        C1 = model.assemble_and_solve(phi=phi, **segs["crack"])
        return {"G": model.ginc(C0=C0, C1=C1, phi=phi, **segs["both"])}
    s = segs[case]
    C = model.assemble_and_solve(phi=phi, **s)
    if k == "gdif":
        return {"G": model.gdif(C=C, phi=phi, unit=q["unit"], **s)}
    num = q.get("num", 24)
    x, z, xb = model.rasterize_solution(C=C, phi=phi, num=num, **s)
    if k in ("solve", "raster"):
        return {"x": x, "z": z, "xb": xb}
    if k == "field":
        n = q["name"]
        kw = {a: q[a] for a in ("unit", "z0") if a in q}
        if n.startswith("dz_") or n.endswith("xdx") or n.endswith("xdxdx"):
            kw["phi"] = phi
            return {"f": getattr(model, n)(z, **kw)}
        return {"f": getattr(model, n)(z, **kw)}
    if k == "out":
        n = q["name"]
        kw = {a: q[a] for a in ("unit", "removeNaNs", "loc") if a in q}
        xo, f = getattr(model, n)(xb if "stress" in n else x, z, **kw)
        return {"x": xo, "f": f}
    if k == "stress":
        kw = {a: q[a] for a in ("unit", "dz", "val", "normalize") if a in q}
        return {"f": getattr(model, q["name"])(z, phi=phi, **kw)}
    if k == "pwl":
        kw = {a: q[a] for a in ("unit", "val", "normalize", "sc") if a in q}
        return {"f": model.principal_stress_weaklayer(z, **kw)}
    if k == "pot":
        L = q.get("L") or float(np.sum(segs["crack"]["li"]))
        return {"e": model.external_potential(C=C, phi=phi, L=L, **s),
                "i": model.internal_potential(C=C, phi=phi, L=L, **s),
                "t": model.total_potential(C=C, phi=phi, L=L, **s)}
    raise KeyError(k)


def bad(model, segs, phi, op, weac):
    """A call that must fail by itself and must leave no trace."""
    k = op["k"]
    if k == "nosupport":
        model.assemble_and_solve(phi=phi, li=np.array([100., 100.]), mi=np.array([0]), ki=np.array([False, False]))
    elif k == "mismatch":
        model.assemble_and_solve(phi=phi, li=np.array([100., 100., 5.]), mi=np.array([0]), ki=np.array([True, True]))
    elif k == "badunit":
        model.w(np.zeros((6, 3)), unit="furlong")
    elif k == "badfield":
        C = model.assemble_and_solve(phi=phi, **segs["crack"])
        model.gdif(C=C, phi=phi, unit="furlong", **segs["crack"])
        model.sig(np.zeros((6, 3)), unit="furlong")
    elif k == "badprofile":
        model.set_beam_properties("no such profile zzz", update=True)
    elif k == "badpos":
        model.eqs(np.zeros((6, 1)), np.zeros((6, 1)), True, "elsewhere")
    elif k == "badprincipal":
        model.principal_stress_slab(np.zeros((6, 3)), phi=phi, val="median")
    elif k == "td_impossible":
        if getattr(model, "touchdown", False):
            # collapse height below the settled slab: no threshold exists
            model.calc_segments(L=5000, a=500, phi=phi, cf=-1.0)
        else:
            raise ValueError("n/a")
    return "returned"


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:      # pylint: disable=broad-except
        return Failed(e)


# ---------------------------------------------------------------------------- comparison
def differ(a, b, rtol=1e-7, path=""):
    """First difference between two results, or None. Arrays are compared on the scale of each row."""
    if a is SKIP or b is SKIP:
        return None if a is b else f"{path}: {a!r} vs {b!r}"[:200]
    if isinstance(a, Failed) or isinstance(b, Failed):
        if isinstance(a, Failed) and isinstance(b, Failed):
            return None
        return f"{path}: {a if isinstance(a, Failed) else 'value'} vs {b if isinstance(b, Failed) else 'value'}"
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return f"{path}: keys differ"
        for k in a:
            d = differ(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, (str, bool, type(None))):
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    A, B = np.asarray(a), np.asarray(b)
    if A.shape != B.shape:
        return f"{path}: shape {A.shape} vs {B.shape}"
    if A.size == 0:
        return None
    if A.dtype == bool or B.dtype == bool:
        return None if np.array_equal(A, B) else f"{path}: flags differ"
    A, B = A.astype(float), B.astype(float)
    if not np.array_equal(np.isnan(A), np.isnan(B)):
        return f"{path}: NaN pattern differs"
    if not np.array_equal(np.isinf(A), np.isinf(B)):
        return f"{path}: inf pattern differs"
    fin = np.isfinite(A) & np.isfinite(B)
    A, B = np.where(fin, A, 0), np.where(fin, B, 0)
    if A.ndim == 2:
        sc = np.maximum(np.abs(A).max(axis=1), np.abs(B).max(axis=1))[:, None]
    else:
        sc = max(np.abs(A).max(), np.abs(B).max())
    err = np.abs(A - B)
    lim = rtol * sc + 1e-13
    if np.any(err > lim):
        i = np.unravel_index(np.argmax(err - lim), err.shape) if err.ndim else ()
        return f"{path}: {A[i]!r} vs {B[i]!r} (scale {np.max(sc):.3g})"
    return None


def slab_of(cfg):
    return ref.Slab({k: cfg[k] for k in ("layers", "nu_s", "C0", "C1", "t", "E", "nu_w", "p")})


class Runner:
    """Drives one model through a session and keeps the configuration in force."""
    free = False

    def __init__(self, weac, scenario):
        self.weac = weac
        self.m, self.ctor = scenario["model"], scenario["ctor"]
        self.model = construct(weac, self.m, self.ctor)
        self.cfg = initial_cfg(self.m, self.ctor)
        self.segs = None
        self.phi = 0.0
        self.dirty = False      # a setter was deferred (update=False): no queries until recomputed
        self.stale = True       # touchdown model: no queries until the segmentation is renewed
        self.free = scenario.get("free", False)     # queries also in states whose results are unspecified

    def skip(self, op):
        """Operations whose result is unspecified in the present state are skipped."""
        k = op["op"]
        td = self.m["touchdown"]
        if self.free:
            return k in ("q", "bad") and self.segs is None
        if k == "q" or (k == "bad" and op["k"] in ("badfield",)):
            return self.dirty or self.segs is None or (td and self.stale)
        if k == "seg" or (k == "bad" and op["k"] == "td_impossible"):
            return td and self.dirty
        return False

    def apply(self, op):
        """Apply one operation; exceptions propagate (configuration is then unchanged)."""
        k, model = op["op"], self.model
        if self.skip(op):
            return SKIP
        if k == "seg":
            segs = segment(model, op)
            self.segs, self.phi = segs, op.get("phi", 0)
            self.cfg = track(self.cfg, op)
            self.stale = False
            return None
        if k == "beam":
            kw = {a: copy.deepcopy(op[a]) for a in ("layers", "C0", "C1", "nu") if a in op}
            model.set_beam_properties(update=op.get("update", False), **kw)
            self.cfg = track(self.cfg, op)
            self.stale = True
            self.dirty = not op.get("update", False)
            return None
        if k == "found":
            kw = {a: op[a] for a in ("t", "E", "nu") if a in op}
            model.set_foundation_properties(update=op.get("update", False), **kw)
            self.cfg = track(self.cfg, op)
            self.stale = True
            self.dirty = not op.get("update", False)
            return None
        if k == "surf":
            model.set_surface_load(op["p"])
            self.cfg = track(self.cfg, op)
            self.stale = True
            return None
        if k == "recompute":
            model.calc_fundamental_system()
            self.dirty = False
            return None
        if k == "bad":
            return bad(model, self.segs, self.phi, op, self.weac)
        if k == "q":
            if self.segs is None:
                raise ValueError("no segments")
            return query(model, self.segs, self.phi, op, self.weac)
        raise KeyError(k)
