"""C07 caller data is neither modified nor retained."""
import copy
import os
import random
import warnings

import numpy as np

from sim import env
weac, seams = env.load()
from weac import tools, plot  # noqa
from sim import gen as G, session as S, faults as F  # noqa
from sim.battery import battery  # noqa
crit = env.load_criterion()

LEVEL = "exploration"
PLAN = {"quick": {"runs": 2000, "cap": 170, "limit": 300}, "thorough": {"runs": 20000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded session in which every argument and every result of every call is kept by the caller and "
        "compared with a private copy after each later call (some calls fail by injection), and the caller overwrites "
        "some of them between calls; afterwards the model is compared with a new one. Non-trivial: at least one "
        "overwrite followed by a comparison.")
STATE_MEASURE = "distinct (call, argument container kind, failed or not, what was overwritten before) tuples"
REAL = ["weac.Layered / weac.Inverse, weac.tools, weac.plot.deformed and plot wrappers, examples/criterion_check.py"]
STUBS = ["numerical backend calls and allocations fail at seeded calls"]
ASSUMPTIONS = ["results of one call may share memory with each other; the caller stops watching an object after "
               "overwriting it"]




# ------------------------------------------------------------------------------ watching
def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and \
            np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) is type(b) and a == b


def scribble(o, rng, arrays):
    """Overwrite a mutable object in place; memory touched is appended to arrays."""
    if isinstance(o, np.ndarray):
        if o.size and o.flags.writeable:
            arrays.append(o)
            if o.dtype == bool:
                o[...] = ~o
            elif o.dtype.kind in "iu":
                o[...] = o * 3 + 7
            elif o.dtype.kind in "fc":
                o[...] = rng.choice([np.nan, 1e12, -3.5, 0.0])
    elif isinstance(o, dict):
        for v in list(o.values()):
            scribble(v, rng, arrays)
        if rng.random() < 0.5:
            o.clear()
    elif isinstance(o, list):
        for v in o:
            scribble(v, rng, arrays)
        for i, v in enumerate(o):
            if isinstance(v, bool):
                o[i] = not v
            elif isinstance(v, (int, float)):
                o[i] = v * 2 + 3
        if rng.random() < 0.4:
            o.append(o[-1] if o else 5)
    elif isinstance(o, tuple):
        for v in o:
            scribble(v, rng, arrays)


def mutable(o):
    if isinstance(o, (np.ndarray, list, dict)):
        return True
    return isinstance(o, tuple) and any(mutable(v) for v in o)


def arrays_of(o, out):
    if isinstance(o, np.ndarray):
        out.append(o)
    elif isinstance(o, dict):
        for v in o.values():
            arrays_of(v, out)
    elif isinstance(o, (list, tuple)):
        for v in o:
            arrays_of(v, out)
    return out


def containers_of(o, out):
    if isinstance(o, dict):
        out.add(id(o))
        for v in o.values():
            containers_of(v, out)
    elif isinstance(o, (list, tuple)):
        if isinstance(o, list):
            out.add(id(o))
        for v in o:
            containers_of(v, out)
    return out


class Caller:
    """Keeps everything it passed and got."""

    def __init__(self, rng, res):
        self.rng, self.res = rng, res
        self.kept = []      # [label, group, object, private copy]
        self.group = 0
        self.last = "-"
        self.history = []   # calls whose answer must not change while the configuration stays

    def watch(self, label, group, o):
        if mutable(o):
            self.kept.append([label, group, o, copy.deepcopy(o)])

    def check(self, after):
        for lab, grp, o, c in self.kept:
            if not same(o, c):
                return f"{lab} was modified by {after}"
        return None

    def ask_again(self):
        """Repeat a recent call with equal arguments and compare with its first answer."""
        if not self.history:
            return None
        name, fn, args, kw, first = self.rng.choice(self.history[-8:])
        with F.use(None):
            out = S.attempt(fn, *copy.deepcopy(args), **copy.deepcopy(kw))
        d = S.differ(out, first)
        self.res.count("calls repeated")
        return d and f"{name} answers differently after the caller overwrote {self.last}: {d}"

    def call(self, name, fn, *args, **kw):
        """Call with all arguments watched. Returns a private copy of the result."""
        self.group += 1
        pure = fn
        priv_args, priv_kw = args, kw
        args, kw = copy.deepcopy(args), copy.deepcopy(kw)      # every call gets objects of its own
        for i, a in enumerate(args):
            self.watch(f"argument {i} of call {self.group} {name}", self.group, a)
        for k, a in kw.items():
            self.watch(f"argument {k} of call {self.group} {name}", self.group, a)
        kinds = sorted({type(a).__name__ for a in list(args) + list(kw.values()) if mutable(a)})
        try:
            out = fn(*args, **kw)
        except Exception as e:      # pylint: disable=broad-except
            out = S.Failed(e)
        failed = isinstance(out, S.Failed)
        self.res.count("call failed" if failed else "call")
        self.res.states.append([name, kinds, failed, self.last])
        self.bad = self.check(f"call {self.group} {name}" + (f" (which raised {out})" if failed else ""))
        priv = out if failed else copy.deepcopy(out)
        if not failed:
            self.watch(f"result of call {self.group} {name}", -self.group, out)
            if name not in ("calc_segments", "set_beam_properties", "set_foundation_properties") and ":" not in name:
                self.history.append((name, pure, copy.deepcopy(priv_args), copy.deepcopy(priv_kw), copy.deepcopy(priv)))
        return priv

    def overwrite(self):
        """Scribble over the arguments or the results of one earlier call."""
        if not self.kept:
            return None
        i = self.rng.randrange(max(0, len(self.kept) - 12), len(self.kept))
        lab, grp, o, _ = self.kept.pop(i)
        touched = []
        ids = containers_of(o, set())
        scribble(o, self.rng, touched)
        self.res.fault("caller overwrote its data")
        self.last = lab.split(" of ")[0].split(" ")[0] + " " + lab.split(" ")[-1]
        # objects of the same call, or containing the same object, may legitimately share memory
        keep = []
        for e in self.kept:
            shares = any(np.may_share_memory(x, y) for x in arrays_of(e[2], []) for y in touched) or \
                (containers_of(e[2], set()) & ids)
            if shares and e[1] != grp and not same(e[2], e[3]):
                return f"{e[0]} changed when the caller overwrote {lab}"
            if not (shares and e[1] == grp):
                keep.append(e)
        self.kept = keep
        bad = self.check(f"overwriting {lab}")
        if bad:
            return bad.replace("was modified by", "changed on")
        return None


# ------------------------------------------------------------------------------ scenario
def gen(rng, tier, i):
    x = rng.random()
    if x < 0.05:
        num = rng.choice([float, int])
        return {"mode": "tools", "seed": rng.randrange(1 << 30), "n": rng.randint(4, 10), "form": rng.choice(["list", "list", "array"]),
                "layers": [[num(G.uni(rng, 150, 300)), num(G.uni(rng, 60, 200))] for _ in range(rng.choice([1, 2, 3]))],
                "slow": rng.random() < (0.3 if tier == "quick" else 0.6)}
    s = G.session(rng, n_ops=(4, 12) if tier == "quick" else (4, 25), bad=0.06, td_prob=0.15,
                  systems=["skiers", "skiers", "skiers", "skier", "pst-", "-pst", "vpst-", "-vpst"])
    for op in s["ops"]:
        op["_form"] = rng.randrange(1 << 20)
        if rng.random() < 0.12:
            op["_fault"] = {"kind": rng.choice(["linalg", "alloc", "alloc", "quad"]), "n": rng.choice([0, 1, 2, 3, rng.randint(0, 30)]),
                            "exc": rng.choice(["linalg", "memory", "value"])}
    s["plots"] = rng.random() < 0.08
    s["seed"] = rng.randrange(1 << 30)
    return s


def shape(v, rng, allow=("list", "tuple", "float", "array")):
    """The same sequence in another container."""
    k = rng.choice(allow)
    if k == "list":
        return copy.deepcopy(v)
    if k == "tuple":
        return tuple(copy.deepcopy(v))
    return np.array(v, dtype=float) if k == "float" and not isinstance(v[0], bool) else np.array(v)


def seq(seg, rng, names):
    """Private copies of segment arrays, in seeded containers."""
    kind = rng.choice(["array", "array", "array", "list"])
    out = {}
    for n in names:
        a = np.array(seg[n])
        out[n] = a if kind == "array" else a.tolist()
    return out


def twist(v, rng):
    """Unusual content of the same type and size: signs, zeros, NaN, infinities, other number types."""
    if isinstance(v, list):
        if not v:
            return v
        a = np.array(v)
        return twist(a, rng).tolist() if a.dtype.kind in "bif" else v
    if not isinstance(v, np.ndarray) or not v.size or v.dtype.kind not in "bifc":
        return v
    v = v.copy()
    if v.dtype.kind == "b":
        return rng.choice([v.astype(int), v.astype(float), ~v, v])
    k = rng.choice(["sign", "sign", "zero", "nan", "inf", "int", "big", "view", "f32"])
    i = tuple(rng.randrange(n) for n in v.shape)
    if k == "sign":
        v[i] = -v[i] if v[i] else v[i]
    elif k == "zero":
        v[i] = 0
    elif k in ("nan", "inf") and v.dtype.kind in "fc":
        v[i] = np.nan if k == "nan" else np.inf
    elif k == "int" and v.dtype.kind == "f" and np.isfinite(v).all():
        v = v.astype(int)
    elif k == "big":
        v[i] = v[i] * 1e6
    elif k == "f32" and v.dtype.kind == "f":
        v = v.astype(np.float32)
    elif k == "view":
        v = np.repeat(v, 2, axis=v.ndim - 1)[..., ::2]
    return v


def run(scn, res):
    if scn.get("mode") == "tools":
        return run_tools(scn, res)
    rng = random.Random(scn["seed"])
    c = Caller(rng, res)
    m, ctor = scn["model"], scn["ctor"]
    layers = copy.deepcopy(ctor["layers"])
    cls = weac.Inverse if m["cls"] == "Inverse" else weac.Layered
    kw = {"parameters": list(ctor["parameters"])} if m["cls"] == "Inverse" else {"touchdown": m["touchdown"]}
    c.group += 1
    for k, v in dict(kw, layers=layers).items():
        c.watch(f"argument {k} of the constructor", c.group, v)
    model = cls(system=m["system"], layers=layers, **kw)
    # the runner only keeps track of the configuration; calls are made here
    r = S.Runner.__new__(S.Runner)
    r.weac, r.m, r.ctor, r.model = weac, m, ctor, model
    r.cfg = S.initial_cfg(m, copy.deepcopy(ctor))
    r.segs, r.phi, r.dirty, r.stale = None, 0.0, False, True
    system, td = m["system"], m["touchdown"]
    for n, op in enumerate(scn["ops"]):
        f = op.get("_fault")
        frng = random.Random(op["_form"])
        op = {k: v for k, v in op.items() if not k.startswith("_")}
        if r.skip(op):
            continue
        ctl = F.FaultAt(f["kind"], f["n"], f["exc"]) if f else None
        if op["op"] != "q":
            c.history = []
        with F.use(ctl):
            bad = perform(c, r, op, frng, res)
        if ctl and ctl.fired:
            res.fault(f"{f['exc']} in {ctl.site}")
        res.log.append([n, op["op"], op.get("k"), len(c.kept), bad])
        if bad == "stop":
            return
        if bad:
            res.fail("modified", f"op {n} {op['op']} {op.get('k', '')}: {bad}", op=n)
            return
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 4])):
                bad = c.overwrite()
                if bad:
                    res.fail("aliased", f"op {n}: {bad}", op=n)
                    return
            if not r.dirty:
                bad = c.ask_again() or c.ask_again()
                if bad:
                    res.fail("retained", f"op {n}: {bad}", op=n)
                    return
            if r.segs is not None and not r.dirty and not (td and r.stale):
                want = S.attempt(S.fresh, weac, r.cfg)
                if isinstance(want, S.Failed):
                    continue
                d = S.differ(battery(model, system, td, [(copy.deepcopy(r.segs), r.phi)]),
                             battery(want[0], system, td, [(want[1], r.phi)]))
                res.count("model compared after overwriting")
                res.nontrivial = True
                if d:
                    res.fail("retained", f"op {n}: after overwriting {c.last} the model answers differently: {d}", op=n)
                    return
    if scn["plots"] and r.segs is not None and not r.dirty and not (td and r.stale):
        bad = plots(c, r)
        if bad:
            res.fail("modified", bad)


def perform(c, r, op, rng, res):
    model, k = r.model, op["op"]
    c.bad = None
    if k == "seg":
        kw = {a: copy.deepcopy(v) for a, v in op.items() if a != "op"}
        for a in ("li", "mi", "ki", "k0"):
            if a in kw:
                kw[a] = shape(kw[a], rng)
        out = c.call("calc_segments", model.calc_segments, **kw)
        if not isinstance(out, S.Failed):
            r.segs, r.phi = out, op.get("phi", 0)
            r.cfg = S.track(r.cfg, op)
            r.stale = False
    elif k == "beam":
        kw = {a: copy.deepcopy(op[a]) for a in ("layers", "C0", "C1", "nu") if a in op}
        lay = kw.pop("layers")
        if not isinstance(lay, str):
            lay = {"list": lambda: lay, "tuples": lambda: [tuple(x) for x in lay], "tuple": lambda: tuple(map(tuple, lay)),
                   "array": lambda: np.array(lay), "fortran": lambda: np.asfortranarray(np.array(lay)),
                   "int": lambda: np.array(lay)}[rng.choice(["list", "tuples", "tuple", "array", "array", "fortran"])]()
        if isinstance(lay, np.ndarray) and rng.random() < 0.4:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with F.use(None):
                    other = weac.Layered()
                c.call("set_beam_properties:unusual", other.set_beam_properties, twist(lay, rng),
                       update=rng.random() < 0.5, **kw)
            if c.bad:
                return c.bad
        out = c.call("set_beam_properties", model.set_beam_properties, lay, update=op.get("update", False), **kw)
        if isinstance(out, S.Failed):
            return c.bad or redo(c, r, op, res)
        r.cfg = S.track(r.cfg, op)
        r.stale, r.dirty = True, not op.get("update", False)
    elif k == "found":
        kw = {a: op[a] for a in ("t", "E", "nu") if a in op}
        out = c.call("set_foundation_properties", model.set_foundation_properties, update=op.get("update", False), **kw)
        if isinstance(out, S.Failed):
            return c.bad or redo(c, r, op, res)
        r.cfg = S.track(r.cfg, op)
        r.stale, r.dirty = True, not op.get("update", False)
    elif k in ("surf", "recompute"):
        out = S.attempt(r.apply, op)
        if isinstance(out, S.Failed):
            return redo(c, r, op, res)
    elif k == "bad":
        segs = copy.deepcopy(r.segs)
        c.call("bad:" + op["k"], lambda s: S.bad(model, s, r.phi, op, weac), segs)
    elif k == "q":
        return query(c, r, op, rng)
    return c.bad


def redo(c, r, op, res):
    """A setter failed by injection: repeat it without the fault."""
    with F.use(None):
        out = S.attempt(r.apply, op)
    if isinstance(out, S.Failed):
        res.count("setter impossible")
        return "stop"
    return None


def query(c, r, q, rng):
    model, k, phi = r.model, q["k"], r.phi
    P = []

    def do(name, fn, *a, **kw):
        if rng.random() < 0.3:
            # the same call with unusual data; whatever it answers, the caller's objects stay as they are
            args, kws = [twist(v, rng) for v in a], {n: twist(v, rng) for n, v in kw.items()}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c.call(name + ":unusual", fn, *args, **kws)
            if c.bad and not P:
                P.append(c.bad)
        out = c.call(name, fn, *a, **kw)
        if c.bad and not P:
            P.append(c.bad)
        return out
    if k in ("thresholds", "stiff", "state"):
        S.attempt(S.query, model, r.segs, phi, q)
        return c.check(k)
    if k == "zmesh":
        do("get_zmesh", model.get_zmesh, dz=q["dz"])
        return P[0] if P else None
    if k == "load":
        mm = np.array([q["m"], 2 * q["m"]])
        do("get_skier_load", model.get_skier_load, mm, q["phi"])
        do("get_load_vector", model.get_load_vector, q["phi"])
        do("calc_system_matrix", model.calc_system_matrix)
        do("get_ply_coordinates", model.get_ply_coordinates)
        return P[0] if P else None

    def solve(case):
        return do("assemble_and_solve", model.assemble_and_solve, phi=phi, **seq(r.segs[case], rng, ("li", "mi", "ki")))
    if k == "ginc":
        C0, C1 = solve("nocrack"), solve("crack")
        one = rng.random()
        if one < 0.5:
            # a slab of a single segment
            li, mi, ki = [float(np.sum(r.segs["crack"]["li"]))], [], [True]
            if one < 0.25:
                li, mi, ki = np.array(li), np.array(mi), np.array(ki)
            do("assemble_and_solve", model.assemble_and_solve, phi, li, mi, ki)
        if not (isinstance(C0, S.Failed) or isinstance(C1, S.Failed)):
            do("ginc", model.ginc, C0=C0, C1=C1, phi=phi, **seq(r.segs["both"], rng, ("li", "ki", "k0", "mi")))
        return P[0] if P else None
    case = q.get("case", "crack")
    C = solve(case)
    if isinstance(C, S.Failed):
        return P[0] if P else None
    if k == "gdif":
        do("gdif", model.gdif, C=C, phi=phi, unit=q["unit"], **seq(r.segs[case], rng, ("li", "ki", "mi")))
        return P[0] if P else None
    out = do("rasterize_solution", model.rasterize_solution, C=C, phi=phi, num=q.get("num", 24),
             **seq(r.segs[case], rng, ("li", "ki", "mi")))
    if isinstance(out, S.Failed):
        return P[0] if P else None
    x, z, xb = out
    if rng.random() < 0.3:
        do("z", model.z, rng.choice([x[:3].tolist(), x[:3].copy(), float(x[0])]), C[:, [0]], float(r.segs[case]["li"][0]),
           phi, bool(r.segs[case]["ki"][0]))
        do("zh", model.zh, float(x[0]), float(r.segs[case]["li"][0]), bool(r.segs[case]["ki"][0]))
        do("zp", model.zp, float(x[0]), phi, bool(r.segs[case]["ki"][0]))
    if k == "field":
        nme = q["name"]
        kw = {a: q[a] for a in ("unit", "z0") if a in q}
        if nme.startswith("dz_") or nme.endswith("xdx") or nme.endswith("xdxdx"):
            kw["phi"] = phi
        do(nme, getattr(model, nme), z, **kw)
    elif k == "out":
        kw = {a: q[a] for a in ("unit", "removeNaNs", "loc") if a in q}
        do(q["name"], getattr(model, q["name"]), xb if "stress" in q["name"] else x, z, **kw)
    elif k == "stress":
        kw = {a: q[a] for a in ("unit", "dz", "val", "normalize") if a in q}
        do(q["name"], getattr(model, q["name"]), z, phi=phi, **kw)
    elif k == "pwl":
        kw = {a: q[a] for a in ("unit", "val", "normalize", "sc") if a in q}
        do("principal_stress_weaklayer", model.principal_stress_weaklayer, z, **kw)
    elif k == "pot":
        L = float(np.sum(r.segs["crack"]["li"]))
        for nme in ("external_potential", "internal_potential", "total_potential"):
            do(nme, getattr(model, nme), C, phi, L, **seq(r.segs[case], rng, ("li", "ki", "mi")))
    return P[0] if P else None


def plots(c, r):
    d = os.path.join(os.environ["VERIF_RUN_SCRATCH"], f"c07-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    out = S.attempt(lambda: r.model.assemble_and_solve(phi=r.phi, **r.segs["crack"]))
    if isinstance(out, S.Failed):
        return None
    x, z, xb = r.model.rasterize_solution(C=out, phi=r.phi, num=40, **r.segs["crack"])
    seg = copy.deepcopy(r.segs["crack"])
    rng = c.rng
    for _ in range(3):
        k = rng.choice(["deformed", "deformed", "disp", "forces", "stresses", "profile", "fea_disp", "fea_stress", "err_comp",
                        "err_modes", "stress_criteria"])
        if k == "deformed":
            c.call("plot.deformed", lambda a, b, e: plot.deformed(
                r.model, a, b, e, r.phi, dz=40, levels=12, window=1e4, normalize=False,
                field=rng.choice(["u", "w", "Sxx", "Txz", "Szz", "principal", "none"])), x, xb, z)
        elif k == "profile":
            c.call("plot.slab_profile", plot.slab_profile, r.model)
        elif k.startswith("fea"):
            fea = np.column_stack([np.linspace(0, 900, 60)] + [np.cos(np.linspace(0, j + 1, 60)) for j in range(6)])
            fn = getattr(plot, k)
            c.call("plot." + k, lambda a, e, f: fn(r.model, a, e, f), x if k == "fea_disp" else xb, z, fea)
        elif k in ("err_comp", "err_modes", "stress_criteria"):
            da = np.linspace(1, 400, 90)
            G = np.array([da**2 * 1e-6, da**2 * 7e-7, da**2 * 3e-7])
            if k == "err_comp":
                c.call("plot.err_comp", plot.err_comp, da, G, G * 1.2, mode=rng.randrange(3))
            elif k == "err_modes":
                c.call("plot.err_modes", plot.err_modes, da, G, kind=rng.choice(["inc", "dif"]))
            else:
                c.call("plot.stress_criteria", plot.stress_criteria, da, G[0] * 1e3, li=np.array([100.0, 300.0]),
                       mi=np.array([80]), ki=np.array([True, False]))
        else:
            fn = {"disp": plot.displacements, "forces": plot.section_forces, "stresses": plot.stresses}[k]
            c.call("plot." + k, lambda a, e, **kw: fn(r.model, a, e, **kw), xb if k == "stresses" else x, z, **seg)
        if c.bad:
            return c.bad
    return None


def run_tools(scn, res):
    import contextlib
    import io
    rng = random.Random(scn["seed"])
    c = Caller(rng, res)
    lay = scn["layers"]
    slab = weac.Layered("pst-", layers=copy.deepcopy(lay)).slab.copy()
    first = {}
    for n in range(scn["n"]):
        k = rng.choice(["profile", "cog", "vcog", "bergfeld", "gerling", "scapozza", "strength", "find_crack", "split",
                        "envelope", "skier_object"] + (["td", "coupled", "min_force", "propagation"] if scn["slow"] and n == 0 else []))
        li, ki = [8000.0, 150.0, 150.0, 8000.0], [True, False, False, True]
        rho = np.array([l[0] for l in lay])
        calls = {
            "profile": lambda: c.call("load_dummy_profile", tools.load_dummy_profile, "b"),
            "cog": lambda: c.call("calc_center_of_gravity", tools.calc_center_of_gravity, np.array(lay)),
            "vcog": lambda: c.call("calc_vertical_bc_center_of_gravity", tools.calc_vertical_bc_center_of_gravity, slab.copy(), 30.0),
            "bergfeld": lambda: c.call("bergfeld", tools.bergfeld, rho),
            "gerling": lambda: c.call("gerling", tools.gerling, rho),
            "scapozza": lambda: c.call("scapozza", tools.scapozza, rho),
            "strength": lambda: c.call("tensile_strength_slab", tools.tensile_strength_slab, rho, unit="MPa"),
            "td": lambda: c.call("touchdown_distance", tools.touchdown_distance, layers=lay_copy, t=20, phi=20),
            "find_crack": lambda: c.call("find_new_anticrack_length", crit.find_new_anticrack_length, lay_copy, 250, 30.0, li, ki,
                                         envelope="mede_s-RG1", E=0.4, t=20),
            "split": lambda: c.call("split_segments_at_midpoint", crit.split_segments_at_midpoint, li, ki),
            "envelope": lambda: c.call("stress_envelope", crit.stress_envelope, rho * 1e-2, rho * 0.5e-2, "mede_s-RG1"),
            "skier_object": lambda: strip(c.call("create_skier_object", lambda *a: crit.create_skier_object(
                *a, "crack", E=0.4, t=20)[1:], lay_copy, 200, 30.0, li, ki)),
            "propagation": lambda: c.call("check_crack_propagation_criterion", crit.check_crack_propagation_criterion,
                                          lay_copy, 30.0, seg, 200, E=0.4, t=20),
            "min_force": lambda: c.call("find_minimum_force", lambda a, b, d: crit.find_minimum_force(
                a, 30.0, b, d, E=0.4, t=20, envelope="mede_s-RG1")[0], lay_copy, li, ki),
            "coupled": lambda: c.call("check_coupled_criterion", lambda a: [v for i, v in enumerate(
                crit.check_coupled_criterion_anticrack_nucleation(a, 30.0, 200, envelope="mede_s-RG1", E=0.4, t=20))
                if i in (0, 1, 2, 6, 11, 12, 18)], lay_copy),
        }
        lay_copy = np.array(lay) if scn.get("form") == "array" and k == "td" else copy.deepcopy(lay)
        seg = {"li": list(li), "ki": list(ki), "mi": None}
        with contextlib.redirect_stdout(io.StringIO()):
            out = calls[k]()
        res.log.append([n, k, c.bad])
        res.nontrivial = True
        if c.bad:
            res.fail("modified", f"{k}: {c.bad}")
            return
        if k in first:
            d = S.differ(out, first[k])
            if d:
                res.fail("retained", f"{k} answers differently after the caller overwrote {c.last}: {d}")
                return
        first.setdefault(k, copy.deepcopy(out))
        for _ in range(rng.choice([0, 1, 2])):
            bad = c.overwrite()
            if bad:
                res.fail("aliased", f"{k}: {bad}")
                return


def strip(o):
    return o
