"""C01 history independence."""
from sim import env
weac, seams = env.load()
from sim import gen as G, session as S  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1500, "cap": 170}, "thorough": {"runs": 12000, "cap": 2400}}
RULE = ("one run = one seeded session (construct, reconfigure with immediate or deferred update, segment, "
        "query, self-failing calls) on one model; every query is compared with a new model given only the "
        "final configuration. Non-trivial: at least one query was compared after at least one reconfiguration "
        "or repeated segmentation.")
STATE_MEASURE = "distinct (system, touchdown, previous three operation kinds, query kind) tuples compared"
REAL = ["weac.Layered / weac.Inverse and all mixins", "numpy, scipy"]
STUBS = []
ASSUMPTIONS = [
    "queries while an update is deferred (update=False) are unspecified and not compared",
    "for touchdown models the latest segmentation is part of the configuration",
    "results agree within 1e-7 of the scale of each component"]


def gen(rng, tier, i):
    return G.session(rng, n_ops=(6, 24) if tier == "quick" else (6, 50))


def run(scn, res):
    r = S.Runner(weac, scn)
    hist, reconf = [], 0
    for n, op in enumerate(scn["ops"]):
        out = S.attempt(r.apply, op)
        k = op["op"] + (":" + op["k"] if "k" in op else "")
        res.log.append([n, k, repr(out)[:40] if not isinstance(out, dict) else "dict"])
        res.count("op " + k)
        if out is S.SKIP:
            res.count("skipped")
            continue
        if op["op"] == "q":
            want = S.attempt(compare, r.cfg, op)
            d = S.differ(out, want)
            if d:
                res.fail("history", f"op {n} {k}: {d}", op=n)
                return
            res.count("compared")
            if isinstance(out, S.Failed):
                res.count("both failed")
            res.states.append([r.cfg["system"], r.cfg["touchdown"], hist[-3:], k])
            if reconf:
                res.nontrivial = True
        elif op["op"] == "bad":
            if not isinstance(out, S.Failed):
                res.count("bad call accepted")
        elif op["op"] == "seg":
            if isinstance(out, S.Failed):
                # a segmentation that cannot be made: a new model must refuse it as well
                cfg = S.track(r.cfg, op)
                w = S.attempt(S.fresh, weac, cfg)
                res.count("segmentation refused")
                if not isinstance(w, S.Failed):
                    res.fail("history", f"op {n} segmentation fails only on the used model: {out}", op=n)
                    return
        elif isinstance(out, S.Failed):
            res.fail("setter", f"op {n} {k} failed: {out}", op=n)
            return
        hist.append(k)
        if op["op"] != "q" and n > 0:
            reconf += 1


def compare(cfg, op):
    m, segs = S.fresh(weac, cfg)
    return S.query(m, segs, cfg["seg"].get("phi", 0), op, weac)
