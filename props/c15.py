"""C15 nothing depends on the clock."""
import numpy as np

from sim import env
weac, seams = env.load()
crit = env.load_criterion()
from sim import gen as G, session as S, critlab as K  # noqa
from sim.alone import alone  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 180, "cap": 170, "limit": 200}, "thorough": {"runs": 6000, "cap": 2400, "limit": 400}}
RULE = ("one run = one coupled criterion search, minimum force search or self-propagation search, or one session of model "
        "calls, executed under a simulated clock (slow, stalled, coarse, jumping forwards and backwards, far from the "
        "epoch) and compared with the same calls under the ordinary clock in a process of its own. Non-trivial: the code "
        "read a simulated clock that did not run normally, or a session whose calls were separated by simulated clock jumps.")
STATE_MEASURE = "distinct (entry point, clock behaviour, iterations or operation kinds) tuples"
REAL = ["examples/criterion_check.py", "weac.Layered / weac.Inverse and all mixins", "numpy, scipy"]
STUBS = ["clock: time.*, timeit.default_timer and time.sleep as seen by the code under test"]
ASSUMPTIONS = ["elapsed_times is the only output that may depend on the clock",
               "results agree within 1e-7 of the scale of each component"]


def gen(rng, tier, i):
    scn = {"clock": K.clock_script(rng), "warm": rng.random() < 0.5}
    x = rng.random()
    if x < 0.3:
        scn.update(kind="search", problem=K.problem(rng, fast=True))
    elif x < 0.36:
        scn.update(kind="dampened", problem=K.problem(rng, fast=True), level=rng.randint(1, 5))
    elif x < 0.5:
        scn.update(kind="selfprop", problem=K.problem(rng, fast=True))
    else:
        s = G.loosen(rng, G.session(rng, n_ops=(5, 16) if tier == "quick" else (6, 40)))
        for op in s["ops"]:
            if rng.random() < 0.5:
                op["_clock"] = round(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 9), 3)
        scn.update(kind="session", **s)
    return scn


def act(scn, clock=None):
    """The calls of the scenario; returns (comparable, log)."""
    k = scn["kind"]
    if k == "session":
        r = S.Runner(weac, scn)
        out = []
        for op in scn["ops"]:
            if clock and "_clock" in op:
                clock.now += op["_clock"]
                clock.span += abs(op["_clock"])
            v = S.attempt(r.apply, {a: b for a, b in op.items() if not a.startswith("_")})
            out.append(S.Failed(Exception(v.type)) if isinstance(v, S.Failed) else v)
        return out, None
    p = scn["problem"]
    if k == "selfprop":
        v = S.attempt(crit.find_min_crack_length_self_propagation, p["snow_profile"], p["phi"], p["E"], p["t"])
        return (S.Failed(Exception(v.type)) if isinstance(v, S.Failed) else v), None
    v = S.attempt(K.search, crit, p, dampening=scn.get("level"))
    if isinstance(v, S.Failed):
        return S.Failed(Exception(v.type)), None
    return K.plain(v), [len(v[10]), len(v[11]), bool(np.all(np.isfinite(np.asarray(v[10], float)))), K.summary(v)]


def run(scn, res):
    want, wlog = alone(lambda: act(scn))
    clock = K.Clock(scn["clock"])
    if scn["warm"] and scn["kind"] == "session":
        act(scn)        # caches filled under the ordinary clock
    with K.use_clock(clock):
        got, log = act(scn, clock)
    d = S.differ(got, want)
    res.count("kind " + scn["kind"])
    res.count("clock readings", clock.reads)
    res.simtime += clock.span
    jumps = sum("_clock" in op for op in scn.get("ops", []))
    if jumps:
        res.fault("clock jump between calls", jumps)
    if clock.reads and scn["clock"]["mode"] != "normal":
        res.fault("clock " + scn["clock"]["mode"], clock.reads)
    if clock.back:
        res.fault("clock ran backwards", clock.back)
    res.log.append([scn["kind"], log])
    if d:
        res.fail("clock", f"{scn['kind']} under a {scn['clock']['mode']} clock: {d}")
        return
    if log:
        if log[0] != log[1] or not log[2]:
            res.fail("elapsed", f"{log[1]} iterations but {log[0]} elapsed times (finite: {log[2]})")
            return
        res.states.append(["search", scn["clock"]["mode"], log[1]])
    else:
        res.states.append([scn["kind"], scn["clock"]["mode"], [o["op"] for o in scn.get("ops", [])][:4]])
    res.nontrivial = bool(jumps or (clock.reads and scn["clock"]["mode"] != "normal"))
