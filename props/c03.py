"""C03 failed or interrupted calls leave the model fully old or fully new."""
from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F  # noqa
from sim.battery import battery  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 800, "cap": 170}, "thorough": {"runs": 15000, "cap": 2400}}
RULE = ("one run = one seeded session on one model in which operations are hit by a failing backend call (at a seeded "
        "call of that operation) or by an asynchronous exception at a seeded executed source line; afterwards a "
        "battery of queries is compared with the answers before the call (failed calls, interrupted queries), with "
        "either those or the answers of a model that completed the call (interrupted segmentations), or, after the "
        "setter was repeated, with a new model. Non-trivial: at least one fault fired inside a model operation.")
STATE_MEASURE = "distinct (system, stage, operation hit, fault kind, place of the fault: backend call or source line)"
REAL = ["weac.Layered / weac.Inverse and all mixins", "numpy, scipy apart from the injected failures"]
STUBS = ["linear solver, eigen-solver, root finder, quadrature and array allocation fail at seeded calls",
         "asynchronous exceptions are raised at seeded source lines of the code under test"]
ASSUMPTIONS = ["asynchronous exceptions arrive between source lines of the code under test",
               "a setter that was interrupted is unspecified until it is repeated"]
SETTERS = ("beam", "found", "surf", "recompute")


def gen(rng, tier, i):
    s = G.session(rng, n_ops=(4, 9) if tier == "quick" else (4, 18), bad=0.03, td_prob=0.6,
                  systems=["pst-", "-pst", "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"])
    system, td = s["model"]["system"], s["model"]["touchdown"]
    ops, h = [], 200
    for op in s["ops"]:
        if op["op"] == "beam":
            h = G.height(op["layers"])
        ops.append(op)
        if op["op"] in ("q", "seg") and rng.random() < (0.35 if td else 0.1):
            ops.append({"op": "seg", **G.seg(rng, system, td, h)})
    s["ops"] = ops
    left = 4
    for j, op in enumerate(s["ops"]):
        if j and op["op"] != "bad" and left and rng.random() < (0.7 if op["op"] == "seg" else 0.4):
            left -= 1
            if rng.random() < 0.5:
                f = {"type": "line", "exc": rng.choice(["interrupt", "memory", "interrupt"])}
                m = rng.random()
                f["at"] = rng.random() if m < 0.5 else (-rng.randint(1, 80) if m < 0.75 else rng.randint(1, 80))
            else:
                f = {"type": "call", "kind": rng.choice(
                    ["linalg", "root", "alloc", "alloc"] if op["op"] == "seg" and s["model"]["touchdown"] else
                    ["alloc"] if op["op"] == "seg" else ["linalg", "alloc"] if op["op"] != "q" else
                    ["quad", "linalg", "alloc"] if op["k"] == "ginc" else ["root", "linalg"] if op["k"] == "thresholds"
                    else ["linalg", "linalg", "alloc"]),
                     "exc": rng.choice(["linalg", "memory", "runtime", "value", "interrupt"])}
                m = rng.random()
                f["at"] = rng.random() if m < (0.3 if f["kind"] == "alloc" and op["op"] == "seg" else 0.6) else (-rng.randint(1, 5) if m < 0.85 else rng.randint(1, 5))
            op["_fault"] = f
    return s


def place(at, total):
    """Position of a fault among `total` instants."""
    if isinstance(at, float):
        return min(total - 1, int(at * total))
    return max(0, min(total - 1, at if at > 0 else total + at))


def dry_run(op, f, r):
    """Count the instants of the operation on a new model in the same configuration."""
    try:
        m, segs = S.fresh(weac, r.cfg)
    except Exception:       # pylint: disable=broad-except
        return 0
    q = S.Runner.__new__(S.Runner)
    q.__dict__.update(r.__dict__)
    q.model, q.segs = m, segs
    if f["type"] == "line":
        with F.LineBomb(0, only_count=True) as b:
            S.attempt(q.apply, op)
        return b.i
    c = F.Counter()
    with F.use(c):
        S.attempt(q.apply, op)
    return c.n.get(f["kind"], 0)


def run(scn, res):
    r = S.Runner(weac, scn)
    td = scn["model"]["touchdown"]
    system = scn["model"]["system"]
    for n, op in enumerate(scn["ops"]):
        f = op.get("_fault")
        op = {k: v for k, v in op.items() if k != "_fault"}
        k = op["op"] + (":" + op["k"] if "k" in op else "")
        if r.skip(op):
            res.count("skipped")
            continue
        if not f:
            out = S.attempt(r.apply, op)
            res.log.append([n, k, isinstance(out, S.Failed)])
            continue
        total = dry_run(op, f, r)
        if not total:
            res.count("nothing to hit")
            S.attempt(r.apply, op)
            continue
        setter = op["op"] in SETTERS
        usable = r.segs is not None and not r.dirty and not (td and r.stale)
        old_segs = (r.segs, r.phi) if usable else None
        new_segs = None
        new = None
        if op["op"] == "seg":
            w = S.attempt(S.fresh, weac, S.track(r.cfg, op))
            if not isinstance(w, S.Failed):
                new_segs = (w[1], op.get("phi", 0))
        seglist = [x for x in (old_segs, new_segs) if x]
        comparable = not r.dirty and not (td and r.stale)
        if not setter and comparable:
            old = battery(r.model, system, td, seglist)
            if op["op"] == "seg" and new_segs:
                new = battery(w[0], system, td, seglist)
        site = None
        if f["type"] == "line":
            b = F.LineBomb(place(f["at"], total), f["exc"])
            with b:
                out = attempt_all(r.apply, op)
            fired, site = b.fired, b.site
            if site:
                site = site.split(":")[0]
        else:
            c = F.FaultAt(f["kind"], place(f["at"], total), f["exc"])
            with F.use(c):
                out = attempt_all(r.apply, op)
            fired, site = c.fired, c.site
        res.log.append([n, k, f["type"], fired, site, isinstance(out, S.Failed)])
        if not fired:
            res.count("fault not reached")
            continue
        failed = isinstance(out, S.Failed)
        res.fault(f"{f['type']} {f['exc']} in {op['op']}")
        res.count(f"hit in {site}")
        res.states.append([system, str(r.model.mode), k, f["type"], f["exc"], site])
        res.nontrivial = True
        if not failed:
            # the fault was absorbed: whether that is right is property C04; nothing is known here
            res.count("call completed despite the fault")
        if setter:
            again = S.attempt(r.apply, op)
            if isinstance(again, S.Failed):
                res.fail("setter", f"op {n} {k}: repeating it after the fault in {site} fails: {again}", op=n)
                return
            if r.dirty:
                r.model.calc_fundamental_system()
                r.dirty = False
            seg = dict(r.cfg["seg"]) if "seg" in r.cfg else None
            if seg is None:
                continue
            mine = S.attempt(S.segment, r.model, seg)
            his = S.attempt(S.fresh, weac, r.cfg)
            if isinstance(mine, S.Failed) or isinstance(his, S.Failed):
                if isinstance(mine, S.Failed) != isinstance(his, S.Failed):
                    res.fail("setter", f"op {n} {k}: after repeating, segmentation: {mine} versus new model {his}", op=n)
                    return
                r.segs, r.stale = None, True
                continue
            r.segs, r.phi, r.stale = mine, seg.get("phi", 0), False
            d = S.differ(battery(r.model, system, td, [(mine, r.phi)]),
                         battery(his[0], system, td, [(his[1], r.phi)]))
            res.count("setter repeated")
            if d:
                res.fail("setter", f"op {n} {k}: fault in {site}, repeated, but differs from a new model: {d}", op=n)
                return
            continue
        if not comparable:
            continue
        now = battery(r.model, system, td, seglist)
        d_old = S.differ(now, old)
        res.count("compared after fault")
        if d_old is None:
            if op["op"] == "seg" and not failed:
                r.segs, r.phi = out_segs(r)
            continue
        asyn = f["type"] == "line" or f["exc"] == "interrupt"
        if op["op"] == "seg" and new is not None and (asyn or not failed):
            d_new = S.differ(now, new)
            if d_new is None:
                # completed: adopt the new segmentation
                res.count("interrupted but fully new")
                r.segs, r.phi, r.stale = new_segs[0], new_segs[1], False
                r.cfg = S.track(r.cfg, op)
                continue
            res.fail("mixture", f"op {n} {k}: {f['exc']} in {site}: neither as before ({d_old}) nor as completed ({d_new})",
                     op=n)
            return
        res.fail("changed", f"op {n} {k}: {f['exc']} in {site}: answers changed: {d_old}", op=n)
        return


def out_segs(r):
    return r.segs, r.phi


def attempt_all(fn, op):
    try:
        return fn(op)
    except F.InjectedInterrupt as e:
        return S.Failed(e)
    except Exception as e:      # pylint: disable=broad-except
        return S.Failed(e)
