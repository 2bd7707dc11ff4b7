"""Scenario generation: pure functions of a random.Random, JSON-able results."""

import copy

SYSTEMS = ["pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"]
PROFILE_NAMES = ["a", "b", "c", "d", "e", "f", "h", "soft", "medium", "hard", "comp"]


def r3(x):
    return float(f"{x:.4g}")


def uni(rng, a, b):
    return r3(rng.uniform(a, b))


def logu(rng, a, b):
    import math
    return r3(math.exp(rng.uniform(math.log(a), math.log(b))))


def layers(rng):
    if rng.random() < 0.12:
        return rng.choice(["profile ", "database ", ""]) + rng.choice(PROFILE_NAMES)
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
    return [[uni(rng, 80, 420), uni(rng, 15, 300 if n < 3 else 150)] for _ in range(n)]


def weak(rng):
    return {"t": uni(rng, 5, 60), "E": logu(rng, 0.05, 2.0), "nu": uni(rng, 0.05, 0.4)}


def beam(rng):
    d = {"layers": layers(rng)}
    if rng.random() < 0.5:
        d.update(C0=uni(rng, 4, 9), C1=uni(rng, 3.8, 5.0))
    if rng.random() < 0.5:
        d["nu"] = uni(rng, 0.1, 0.4)
    return d


def height(lay):
    if isinstance(lay, str):
        return 200 if lay.split()[-1] == "comp" else 360
    return sum(l[1] for l in lay)


def phi(rng):
    return rng.choice([0.0, uni(rng, -50, 50), uni(rng, 20, 45), -uni(rng, 20, 45)])


def seg(rng, system, touchdown=False, h=200):
    p = phi(rng)
    if not touchdown and rng.random() < 0.05:
        p = rng.choice([-1, 1]) * uni(rng, 50, 80)
    if system == "skiers":
        n = rng.choice([0, 1, 1, 2, 3, 4, 5])
        li = [uni(rng, 5000, 15000)] + [uni(rng, 5, 800) for _ in range(n)] + [uni(rng, 5000, 15000)]
        if n and rng.random() < 0.2:
            li[rng.randrange(1, n + 1)] = rng.choice([0.0, logu(rng, 0.01, 3)])
        ki = [True] + [rng.random() < 0.5 for _ in range(n)] + [True]
        mi = [uni(rng, 10, 150) if rng.random() < 0.5 else 0 for _ in range(n + 1)]
        k0 = [True if (rng.random() < 0.7 or k) else k for k in ki]
        return {"li": li, "mi": mi, "ki": ki, "k0": k0, "phi": p}
    if system == "skier":
        return {"L": uni(rng, 12000, 30000), "a": rng.choice([0.0, uni(rng, 20, 1500)]),
                "m": rng.choice([0, uni(rng, 10, 150)]), "phi": p}
    if touchdown:
        L = rng.choice([uni(rng, 3000, 12000), uni(rng, 8000, 30000)])
        d = {"L": L, "a": r3(rng.choice([rng.uniform(0.02, 0.15), rng.uniform(0.1, 0.7)]) * L), "phi": p}
        if rng.random() < 0.4:
            d["cf"] = uni(rng, 0.2, 0.9)
        if rng.random() < 0.3:
            d["ratio"] = logu(rng, 20, 5000)
        return d
    L = uni(rng, 1000, 15000)
    return {"L": L, "a": rng.choice([0.0, uni(rng, 20, min(2500, 0.8 * L)), uni(rng, 20, min(900, 0.8 * L))]),
            "phi": p}


def load(rng, touchdown=False):
    return 0.0 if rng.random() < 0.4 else uni(rng, 0, 0.05 if touchdown else 1.5)


def model(rng, allow_td=True, systems=None, td_prob=0.35):
    s = rng.choice(systems or SYSTEMS)
    td = allow_td and s in ("pst-", "-pst") and rng.random() < td_prob
    return {"system": s, "touchdown": td, "cls": "Inverse" if (not td and rng.random() < 0.12) else "Layered"}


QUERIES = ["solve", "raster", "ginc", "gdif", "field", "out", "stress", "pwl", "zmesh", "load"]
FIELDS = ["w", "u", "psi", "dw_dx", "dpsi_dx", "du_dx", "N", "M", "V", "sig", "tau", "eps", "gamma",
          "Gi", "Gii", "dz_dx", "dz_dxdx", "du0_dxdx", "dpsi_dxdx", "du0_dxdxdx", "dpsi_dxdxdx"]
LEN_UNITS = ["m", "cm", "mm", "um"]
ANG_UNITS = ["deg", "degree", "degrees", "rad", "radian", "radians"]
G_UNITS = ["J/m^2", "kJ/m^2", "N/mm"]
S_UNITS = ["kPa", "MPa"]
OUTS = ["get_weaklayer_shearstress", "get_weaklayer_normalstress", "get_slab_displacement",
        "get_slab_deflection", "get_slab_rotation"]


def query(rng, system, touchdown, kinds=None):
    ks = list(kinds or QUERIES)
    if kinds is None:
        if touchdown:
            ks += ["thresholds", "stiff", "state", "pot"]
        elif system in ("pst-", "-pst"):
            ks += ["pot"] if False else []
    k = rng.choice(ks)
    q = {"op": "q", "k": k, "case": rng.choice(["crack", "crack", "nocrack"])}
    if k == "raster":
        q["num"] = rng.choice([1, 7, 30, 100])
    elif k == "gdif":
        q["unit"] = rng.choice(G_UNITS)
    elif k == "field":
        n = rng.choice(FIELDS)
        q["name"] = n
        if n in ("w",):
            q["unit"] = rng.choice(LEN_UNITS)
        elif n == "u":
            q["unit"] = rng.choice(LEN_UNITS)
            q["z0"] = uni(rng, -150, 150)
        elif n == "du_dx":
            q["z0"] = uni(rng, -150, 150)
        elif n == "psi":
            q["unit"] = rng.choice(ANG_UNITS)
        elif n in ("sig", "tau"):
            q["unit"] = rng.choice(S_UNITS)
        elif n in ("Gi", "Gii"):
            q["unit"] = rng.choice(G_UNITS)
    elif k == "out":
        n = rng.choice(OUTS)
        q["name"] = n
        if "stress" in n:
            q["unit"] = rng.choice(S_UNITS)
            q["removeNaNs"] = rng.random() < 0.5
        elif n == "get_slab_rotation":
            q["unit"] = rng.choice(ANG_UNITS)
        else:
            q["unit"] = rng.choice(LEN_UNITS)
            if n == "get_slab_displacement":
                q["loc"] = rng.choice(["top", "mid", "bot"])
    elif k == "stress":
        q["name"] = rng.choice(["Sxx", "Txz", "Szz", "principal_stress_slab"])
        q["unit"] = rng.choice(S_UNITS)
        q["dz"] = rng.choice([10, 25, 60])
        if q["name"] == "principal_stress_slab":
            q["val"] = rng.choice(["min", "max"])
            q["normalize"] = q["val"] == "max" and rng.random() < 0.5
    elif k == "pwl":
        q["unit"] = rng.choice(S_UNITS)
        q["val"] = rng.choice(["min", "max"])
        q["normalize"] = q["val"] == "min" and q["unit"] == "kPa" and rng.random() < 0.5
        if q["normalize"] and rng.random() < 0.5:
            q["sc"] = uni(rng, 1, 5)
    elif k == "zmesh":
        q["dz"] = rng.choice([2, 7, 30])
    elif k == "load":
        q["m"] = uni(rng, 1, 200)
        q["phi"] = phi(rng)
    elif k == "stiff":
        q["L"] = uni(rng, 200, 5000)
        q["support"] = rng.choice(["supported", "rested"])
        q["dof"] = rng.choice(["rot", "trans"])
    return q


def vary(rng, cur, new, prob):
    """The new parameters, or with the given probability the current ones with a single one replaced."""
    if not cur or rng.random() >= prob:
        return new
    k = rng.choice(sorted(set(new)))
    if rng.random() < 0.3 and cur.get(k):
        return dict(cur, **{k: nudge(rng, cur[k])})
    return dict(cur, **{k: new[k]})


def same_stiffness(rng, w):
    """Another weak layer with the same stiffness in one or both directions."""
    t, E, nu = w.get("t", 30.0), w.get("E", 0.25), w.get("nu", 0.25)
    if rng.random() < 0.6:
        f = uni(rng, 0.4, 2.5)
        return dict(w, t=t * f, E=E * f)
    n = uni(rng, 0.05, 0.4)
    return dict(w, t=t, nu=n, E=E * ((1 - n**2) / (1 - nu**2) if rng.random() < 0.5 else (1 + n) / (1 + nu)))


def same_moduli(rng, b):
    """Other densities whose moduli are the same, by another parametrisation."""
    f = uni(rng, 0.8, 1.25)
    C0, C1 = b.get("C0", 6.5), b.get("C1", 4.4)
    return dict(b, layers=[[l[0] * f, *l[1:]] for l in b["layers"]], C0=C0 * f**-C1, C1=C1)


def nudge(rng, v):
    """Almost the same value: a change that a tolerance in a comparison of inputs would overlook."""
    f = 1 + rng.choice([3e-6, -3e-6, 1e-4, -2e-3, 1e-2])
    if isinstance(v, list):
        v = copy.deepcopy(v)
        i = rng.randrange(len(v))
        if isinstance(v[i], list):
            v[i][rng.randrange(len(v[i]))] *= f
        elif not isinstance(v[i], bool):
            v[i] *= f
        return v
    return v * f if isinstance(v, float) else v


def related_layers(rng, lay):
    """A layering that shares sums with the given one."""
    lay = [list(l) for l in lay]
    if len(lay) == 1:
        h = lay[0][1]
        d = r3(0.3 * lay[0][0])
        return [[lay[0][0] - d, h / 2], [lay[0][0] + d, h / 2]]
    if rng.random() < 0.5:
        return lay[::-1]
    i, j = rng.sample(range(len(lay)), 2)
    if rng.random() < 0.5:
        lay[i], lay[j] = lay[j], lay[i]
    else:
        lay[i][0], lay[j][0] = lay[j][0], lay[i][0]
    return lay


def related_seg(rng, s):
    """The same segmentation again, or its mirror image, or one that shares sums with it."""
    s = copy.deepcopy(s)
    x = rng.random()
    if x < 0.4:
        return s
    if x < 0.6:
        s["phi"] = -s["phi"]
    elif "li" in s:
        if x < 0.8:
            for k in ("li", "ki", "mi", "k0"):
                s[k] = s[k][::-1]
        elif len(s["mi"]) > 1:
            s["mi"] = s["mi"][1:] + s["mi"][:1]
    elif "m" in s:
        s["m"] = 0 if s["m"] else 75.0
    return s


BAD = ["nosupport", "mismatch", "badunit", "badfield", "badprofile", "badpos", "badprincipal", "td_impossible"]


def session(rng, n_ops=(6, 22), allow_td=True, systems=None, td_prob=0.35, bad=0.08, kinds=None,
            reconf=0.35):
    """A session on one model: construction, then a list of operations ending in queries."""
    m = model(rng, allow_td, systems, td_prob)
    td = m["touchdown"]
    ops = []
    cur_h = [200]
    cur = {"beam": None, "found": None, "seg": None}

    def seg_op():
        s = seg(rng, m["system"], td, cur_h[0])
        x = rng.random()
        if cur["seg"] and x < 0.25:
            s = related_seg(rng, cur["seg"])
        elif m["system"] != "skiers":
            s = vary(rng, cur["seg"], s, 0.35)
        if s["phi"] and m["system"] == "skiers" and cur["seg"] and rng.random() < 0.3:
            s = dict(cur["seg"], phi=s["phi"])
        if s.get("a", 0) >= 0.9 * s.get("L", 1e9):
            s["a"] = r3(0.5 * s["L"])
        cur["seg"] = s
        return {"op": "seg", **s}

    def beam_op(update):
        b = beam(rng)
        if cur["beam"] and not isinstance(cur["beam"]["layers"], str) and rng.random() < 0.3:
            b = same_moduli(rng, cur["beam"]) if rng.random() < 0.25 else \
                dict(cur["beam"], layers=related_layers(rng, cur["beam"]["layers"]))
        else:
            b = vary(rng, cur["beam"], b, 0.4)
        cur["beam"] = b
        cur_h[0] = height(b["layers"])
        return {"op": "beam", **b, "update": update}

    def reconfigure(n):
        out = []
        for _ in range(n):
            k = rng.choice(["beam", "found", "surf", "found"])
            if k == "beam":
                out.append(beam_op(rng.random() < 0.6))
            elif k == "found":
                w = weak(rng)
                if rng.random() < 0.3:
                    w.pop("nu")
                if rng.random() < 0.2:
                    w.pop("E", None)
                w = same_stiffness(rng, cur["found"]) if cur["found"] and rng.random() < 0.15 else \
                    vary(rng, cur["found"], w, 0.4)
                cur["found"] = w
                out.append({"op": "found", **w, "update": rng.random() < 0.6})
            else:
                p = nudge(rng, cur["surf"]) if cur.get("surf") and rng.random() < 0.15 else load(rng, td)
                cur["surf"] = p
                out.append({"op": "surf", "p": p})
        # whatever was deferred takes effect before the next query
        if any(o["op"] in ("beam", "found") for o in out) and not (
                out[-1].get("update") or (out[-1]["op"] == "surf" and len(out) > 1 and False)):
            out.append({"op": "recompute"})
        out.append(seg_op()
                   if td or rng.random() < 0.5 else {"op": "nop"})
        return [o for o in out if o["op"] != "nop"]

    if m["cls"] == "Inverse":
        ctor = {"layers": [[uni(rng, 100, 400), uni(rng, 30, 250)] for _ in range(rng.choice([1, 2, 3]))],
                "parameters": [uni(rng, 4, 9), uni(rng, 3.8, 5), logu(rng, 0.05, 2)]}
    else:
        lay = None if rng.random() < 0.3 else layers(rng)
        ctor = {"layers": lay}
    ops.append(seg_op())
    n = rng.randint(*n_ops)
    while len(ops) < n:
        x = rng.random()
        if x < reconf:
            ops += reconfigure(rng.choice([1, 1, 2, 3]))
        elif x < reconf + 0.12:
            ops.append(seg_op())
        elif x < reconf + 0.12 + bad:
            ops.append({"op": "bad", "k": rng.choice(BAD)})
        else:
            ops.append(query(rng, m["system"], td, kinds))
    for _ in range(2):
        ops.append(query(rng, m["system"], td, kinds))
    return {"model": m, "ctor": ctor, "ops": ops}


def loosen(rng, s, p=0.3):
    """Let some sessions ask for results while a deferred update is pending (any answer, but always the same)."""
    if rng.random() < p:
        s["free"] = True
        s["ops"] = [o for o in s["ops"] if o["op"] != "recompute" or rng.random() < 0.3]
    return s
