"""C16 retries after non-convergence solve the problem that was asked."""
from sim import env
weac, seams = env.load()
crit = env.load_criterion()
from sim import session as S, critlab as K  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 40, "cap": 150, "limit": 200}, "thorough": {"runs": 1500, "cap": 2400, "limit": 400}}
RULE = ("one run = one undampened coupled criterion or minimum force search whose convergence is prevented from a seeded "
        "evaluation on (root searches that do not converge or raise, energy or stress evaluations kept off the tolerance), "
        "or naturally failing; once the search hands over to a dampened retry (minimum force: at a seeded level) the "
        "faults stop and the result is compared with the dampened search called directly with the caller's arguments. "
        "Non-trivial: a hand-over took place and at least one argument differs from its default.")
STATE_MEASURE = "distinct (search, how convergence was prevented, evaluation it was prevented from, level, verdict) tuples"
REAL = ["examples/criterion_check.py", "weac.Layered and all mixins", "numpy, scipy"]
STUBS = ["root searches, energy and stress evaluations while convergence is prevented"]
ASSUMPTIONS = ["a retry is recognised by the entry into one of the public dampened functions"]
DEFAULT = dict(envelope="adam_unpublished", scaling_factor=1, E=0.25, order_of_magnitude=1, density=250, t=30)


def gen(rng, tier, i):
    x = rng.random()
    if x < 0.4:
        scn = dict(kind="force", how="stress", level=rng.choice([1, 1, 1, 2, 2, 3] + ([] if tier == "quick" else [4, 5])),
                   start=rng.choice([0, 0, rng.randint(0, 30)]), ki_cracked=rng.random() < 0.2)
    else:
        scn = dict(kind="search", how=rng.choice(["energy"] * 5 + ["roots", "roots raise", "natural", "natural"]),
                   start=rng.choice([0, 0, 1, 2, 4]))
    p = K.problem(rng)
    if scn["how"] == "natural":
        p.update(t=5, E=rng.choice([1, 2]), scaling_factor=rng.choice([.5, 1]), order_of_magnitude=3,
                 envelope=rng.choice(["adam_unpublished", "mede_s-FCDH"]))
    if scn["kind"] == "search" and p["envelope"].startswith("mede") and rng.random() < 0.7:
        p["envelope"] = rng.choice(["adam_unpublished", "schottner"])
    scn["problem"] = p
    return scn


class Roots:
    """Root searches of the criterion module do not converge."""

    def __init__(self, start, raising):
        self.start, self.raising = start, raising
        self.on, self.n, self.fired = True, 0, 0

    def call(self, kind, name, fn, a, k):
        if kind != "root" or not self.on:
            return fn(*a, **k)
        self.n += 1
        if self.n <= self.start:
            return fn(*a, **k)
        self.fired += 1
        if self.raising:
            raise ValueError("injected: no sign change")
        r = fn(*a, **k)
        if hasattr(r, "converged"):
            r.converged = False
            r.flag = "convergence error"
        return r


def run(scn, res):
    if scn["kind"] == "force":
        return run_force(scn, res)
    p, how = scn["problem"], scn["how"]
    state = dict(on=how != "natural", n=0, fired=0, before=True, evals=0)
    roots = Roots(scn["start"], how == "roots raise") if how.startswith("roots") else None

    def spoil(old):
        def fracture_toughness_criterion(a, b):
            g = old(a, b)
            if state["before"]:
                state["evals"] += 1
            if state["on"]:
                state["n"] += 1
                if state["n"] == 1 and g > 0.5:     # a pure stress failure converges at once: keep it searching
                    state["fired"] += 1
                    return 0.5
                if how == "energy" and state["n"] > scn["start"] and abs(g - 1) < 0.01:
                    state["fired"] += 1
                    return 0.9 if g < 1 else 1.1
            return g
        return fracture_toughness_criterion
    with K.Watch(crit) as w, K.Patch(crit, "fracture_toughness_criterion", spoil):
        def enter(name, a, k):
            if name.startswith("check"):
                state["on"] = state["before"] = False
                if roots:
                    roots.on = False
        w.on_enter = enter
        old, seams.CTL = seams.CTL, roots
        try:
            out = S.attempt(K.search, crit, p)
        finally:
            seams.CTL = old
    fired = state["fired"] + (roots.fired if roots else 0)
    if fired:
        for kind, k in (("energy kept off the tolerance", state["fired"]),
                        ("root search raised" if how == "roots raise" else "root search did not converge",
                         roots.fired if roots else 0)):
            if k:
                res.fault(kind, k)
    handed = [e for e in w.entered if e[0].startswith("check")]
    res.count("searches")
    res.log.append([how, len(handed), K.summary(out)])
    if not handed:
        res.count("converged anyway")
        return
    res.count("hand-overs")
    with K.Watch(crit):
        want = S.attempt(K.search, crit, p, dampening=1)
    d = S.differ(K.plain(out), K.plain(want))
    if d:
        # the recorded finding: at the iteration limit the retry solves the problem with t = 30 mm
        if state["evals"] >= 25 and p["t"] != DEFAULT["t"]:
            wrong = K.search(crit, p, dampening=1, t=DEFAULT["t"])
            if not S.differ(K.plain(out), K.plain(wrong)):
                res.known.append("C16-thickness")
                res.count("known finding C16-thickness")
                res.nontrivial = True
                return
        res.fail("retry", f"hand-over ({how}): {d}")
        return
    res.count("retries compared")
    res.states.append(["search", how, scn["start"], None if isinstance(out, S.Failed) else bool(out[0])])
    res.nontrivial = any(p[k] != v for k, v in DEFAULT.items())


def run_force(scn, res):
    p = scn["problem"]
    L = 100 * sum(r[1] for r in p["snow_profile"])
    li = [L / 2, 0, 0, L / 2]
    ki = [True, not scn["ki_cracked"], not scn["ki_cracked"], True]
    state = dict(on=True, n=0, fired=0)

    def spoil(old):
        import numpy as np

        def stress_envelope(*a, **k):
            r = old(*a, **k)
            if state["on"]:
                state["n"] += 1
                m = float(np.max(r))
                if state["n"] > scn["start"] and abs(m - 1) < 0.02:
                    state["fired"] += 1
                    return r * 1.08
            return r
        return stress_envelope
    with K.Watch(crit) as w, K.Patch(crit, "stress_envelope", spoil):
        def enter(name, a, k):
            if name.startswith("find") and k.get("dampening", 1) >= scn["level"]:
                state["on"] = False
        w.on_enter = enter
        out = S.attempt(K.force, crit, p, li, ki)
    handed = [e for e in w.entered if e[0].startswith("find") and e[2].get("dampening", 1) >= scn["level"]]
    if state["fired"]:
        res.fault("stress kept off the tolerance", state["fired"])
    res.count("force searches")
    res.log.append(["force", len(handed), K.summary(out)])
    if not handed:
        res.count("converged anyway")
        return
    res.count("hand-overs")
    with K.Watch(crit):
        want = S.attempt(K.force, crit, p, li, ki, dampening=scn["level"])
    d = S.differ(K.plain(out), K.plain(want))
    if d:
        res.fail("retry", f"minimum force, level {scn['level']}: {d}")
        return
    res.count("retries compared")
    res.states.append(["force", scn["start"], scn["level"]])
    res.nontrivial = any(p[k] != v for k, v in DEFAULT.items())


PROBES = [
    dict(kind="search", how="energy", start=0, problem=dict(
        snow_profile=[[240, 200]], phi=30.0, envelope="adam_unpublished", scaling_factor=1, E=0.25,
        order_of_magnitude=1, density=250, t=10))]


def probe_findings():
    """Show the recorded findings on fixed inputs."""
    from sim.runner import Result
    out = []
    for scn in PROBES:
        res = Result()
        run(scn, res)
        out += res.known
    return out
