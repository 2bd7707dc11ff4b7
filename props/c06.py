"""C06 distinct models do not influence each other."""
import copy
import gc

from sim import env
weac, seams = env.load()
from weac import tools  # noqa
from sim import gen as G, session as S, faults as F  # noqa
from sim.alone import alone  # noqa
from sim.sched import Sched  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 500, "cap": 170, "limit": 300}, "thorough": {"runs": 12000, "cap": 2400, "limit": 600}}
RULE = ("one run = 2-4 sessions on distinct models (related configurations: parts are copied from each other), "
        "interleaved either operation by operation or as threads preempted at source lines, with backend failures and "
        "asynchronous exceptions in some sessions and models being dropped and rebuilt; every result is compared with "
        "that of the same session run alone in a process of its own. Non-trivial: the sessions really interleaved.")
STATE_MEASURE = "distinct (interleaving kind, operation preempted or followed, operation resumed) tuples"
REAL = ["weac.Layered / weac.Inverse, weac.tools (profiles, touchdown_distance)", "numpy, scipy"]
STUBS = ["the thread scheduler: one thread holds the baton, a seeded scheduler moves it",
         "numerical backend calls fail at seeded calls in some sessions"]
ASSUMPTIONS = ["sessions do not share objects", "preemption at source lines of the code under test"]


def sub(rng, tier, td_prob):
    s = G.session(rng, n_ops=(2, 7) if tier == "quick" else (3, 14), bad=0.05, td_prob=td_prob,
                  kinds=["solve", "ginc", "gdif", "field", "stress", "pwl", "out", "load", "zmesh"])
    G.loosen(rng, s)
    if rng.random() < 0.25:
        s["ops"].append({"op": "profile", "name": rng.choice(G.PROFILE_NAMES)})
    return s


def perturb(rng, s):
    """A session like s with some parameters changed."""
    s = copy.deepcopy(s)
    for op in s["ops"]:
        for k, v in list(op.items()):
            if isinstance(v, float) and v and rng.random() < 0.2:
                # clearly different, or almost the same
                op[k] = G.r3(v * rng.uniform(0.7, 1.3)) if rng.random() < 0.75 else v * (1 + rng.choice([1e-8, -1e-7, 3e-6]))
            elif k == "layers" and isinstance(v, list) and rng.random() < 0.4:
                i = rng.randrange(len(v))
                v[i][rng.randrange(2)] *= rng.uniform(0.8, 1.2)
                v[i] = [G.r3(x) for x in v[i]]
            elif k == "phi" and rng.random() < 0.2:
                op[k] = G.phi(rng)
    if rng.random() < 0.2 and s["model"]["system"] in ("pst-", "-pst"):
        s["model"]["system"] = "-pst" if s["model"]["system"] == "pst-" else "pst-"
    return s


def almost(rng, s):
    """The same session with one kind of parameter changed by next to nothing."""
    s = copy.deepcopy(s)
    k = rng.choice(["E", "t", "layers", "phi", "p", "a", "L", "C0", "li"])
    f = 1 + rng.choice([1e-8, -1e-8, 2e-8, 1e-7, 1e-6])
    for op in s["ops"]:
        v = op.get(k)
        if isinstance(v, float):
            op[k] = v * f
        elif isinstance(v, list):
            op[k] = [[x * f for x in row] if isinstance(row, list) else row * f for row in v]
    return s


def collide(rng, s):
    """The same session with other weak layers of the same stiffness, or other slabs of the same moduli."""
    s = copy.deepcopy(s)
    fw, fb = rng.random() < 0.7, rng.random() < 0.7
    state = rng.getstate()
    for op in s["ops"]:
        if op["op"] == "found" and fw:
            rng.setstate(state)
            op.update(G.same_stiffness(rng, {k: op[k] for k in ("t", "E", "nu") if k in op}))
        elif op["op"] == "beam" and fb and isinstance(op["layers"], list):
            op.update(G.same_moduli(rng, {k: op[k] for k in ("layers", "C0", "C1", "nu") if k in op}))
    return s


def gen(rng, tier, i):
    mode = rng.choice(["calls", "threads", "threads"])
    td_prob = 0.1 if mode == "threads" else 0.25
    n = rng.choice([2, 2, 3, 4])
    base = sub(rng, tier, td_prob)
    sessions = []
    for j in range(n):
        parts = []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            parts.append(almost(rng, base) if x < 0.12 else collide(rng, base) if x < 0.2 else perturb(rng, base) if x < 0.7 else sub(rng, tier, td_prob))
        se = {"parts": parts}
        if rng.random() < 0.15:
            se["fault"] = {"kind": rng.choice(["linalg", "alloc", "quad"]), "n": rng.choice([0, 2, 5, rng.randint(0, 120)]),
                           "exc": rng.choice(["linalg", "memory", "runtime"])}
        elif mode == "threads" and rng.random() < 0.08:
            se["bomb"] = rng.randint(1, 4000)
        sessions.append(se)
    scn = {"mode": mode, "sessions": sessions, "_lists": ["switches", "sessions", "order"]}
    if mode == "calls":
        tot = [sum(len(p["ops"]) + 1 for p in se["parts"]) for se in sessions]
        order = [j for j, t in enumerate(tot) for _ in range(t)]
        rng.shuffle(order)
        scn["order"] = order
    else:
        scn["sched"] = {"seed": rng.randrange(1 << 30), "gap": rng.choice([5, 20, 60, 200, 800]), "meet": rng.choice([None, rng.randrange(1000)])}
    return scn


def clean(o):
    if isinstance(o, S.Failed):
        return S.Failed(Exception(o.type))
    return o


def steps(se):
    """Generator that performs one operation of a session per step and yields (label, result)."""
    for part in se["parts"]:
        r = S.attempt(S.Runner, weac, part)
        gc.collect()
        yield "new", isinstance(r, S.Failed)
        for op in part["ops"]:
            if isinstance(r, S.Failed):
                return
            k = op["op"] + (":" + op["k"] if "k" in op else "")
            try:
                if op["op"] == "profile":
                    layers, weak = tools.load_dummy_profile(op["name"])
                    out = {"l": layers.copy(), "w": weak}
                    layers[:] = 1e9      # the caller's own result
                else:
                    out = r.apply(op)
            except Exception as e:      # pylint: disable=broad-except
                out = S.Failed(e)
            except F.InjectedInterrupt as e:
                out = S.Failed(e)
            yield k, clean(out)
        del r


def hit(o):
    """The injected error an operation ended with, if any."""
    s = str(o.exc) if isinstance(o, S.Failed) else ""
    return s if s.startswith("Injected") else (isinstance(o, S.Failed) or o is True)


def fault_of(se):
    f = se.get("fault")
    return F.FaultAt(f["kind"], f["n"], f["exc"]) if f else None


def solo(se):
    def f():
        out = []
        if se.get("bomb"):
            sc = Sched([lambda: out.extend(steps(se))], switches=[], bombs={0: se["bomb"]})
            sc.run()
            if sc.errors[0] is not None and not isinstance(sc.errors[0], F.InjectedInterrupt):
                raise sc.errors[0]
            return out
        with F.use(fault_of(se)):
            out.extend(steps(se))
        return out
    return alone(f)


def run(scn, res):
    sessions = scn["sessions"]
    if not sessions:
        return
    want = [solo(se) for se in sessions]
    got = [[] for _ in sessions]
    if scn["mode"] == "calls":
        its = [steps(se) for se in sessions]
        ctl = [fault_of(se) for se in sessions]
        prev = None
        order = list(scn["order"])
        order += [j for j in range(len(sessions)) for _ in range(1 + sum(len(p["ops"]) + 1 for p in sessions[j]["parts"]))]
        for j in order:
            if j >= len(its):
                continue
            with F.use(ctl[j]):
                x = next(its[j], None)
            if x is None:
                continue
            got[j].append(x)
            if prev is not None and prev[0] != j:
                res.states.append(["calls", prev[1], x[0]])
                res.nontrivial = True
                res.count("alternations")
            prev = (j, x[0])
    else:
        now = {}

        def body(j):
            def f():
                for x in steps(sessions[j]):
                    got[j].append(x)
                    now[j] = x[0]
            return f
        ctl = {j: fault_of(se) for j, se in enumerate(sessions) if se.get("fault")}
        bombs = {j: se["bomb"] for j, se in enumerate(sessions) if se.get("bomb")}
        sc = Sched([body(j) for j in range(len(sessions))], seed=scn["sched"]["seed"], gap=scn["sched"]["gap"], meet=scn["sched"].get("meet"),
                   switches=scn.get("switches"), bombs=bombs, ctls=ctl)
        sc.run()
        for e in sc.errors:
            if e is not None and not isinstance(e, F.InjectedInterrupt):
                raise e
        res.patch = {"switches": sc.made}
        res.log.append([sc.made, sc.tstep])
        n = len([x for x in sc.made if x[0] > 0])
        res.fault("thread preempted", n)
        res.count("scheduling points", sc.step)
        for me, fn, to in set(sc.sites):
            res.states.append(["threads", fn])
        if n:
            res.nontrivial = True
        if sc.bombed:
            res.fault("asynchronous exception in a thread", len(sc.bombed))
        ctl = ctl.values()
    for c in ctl:
        if c is not None and c.fired:
            res.fault("backend failure in a session")
    for j, se in enumerate(sessions):
        # faults are placed by counting: a session with a fault of its own is compared as long as the fault
        # hits the same operation (a cache shared in a harmless way may take it elsewhere)
        faulty = bool(se.get("fault") or se.get("bomb"))
        if len(got[j]) != len(want[j]) and not faulty:
            res.fail("differs", f"session {j}: {len(got[j])} steps instead of {len(want[j])}")
            return
        for i, (g, w) in enumerate(zip(got[j], want[j])):
            if faulty and hit(g[1]) != hit(w[1]):
                res.count("fault hit another operation")
                break
            res.count("results compared")
            if g[0] != w[0]:
                res.fail("differs", f"session {j} step {i}: {g[0]} instead of {w[0]}")
                return
            if isinstance(g[1], S.Failed) and isinstance(w[1], S.Failed) and str(g[1].exc) != str(w[1].exc):
                d = f"{g[1].exc} instead of {w[1].exc}"
            elif g[1] is S.SKIP or w[1] is S.SKIP:
                d = None if g[1] == w[1] else "skipped"
            else:
                d = S.differ(g[1], w[1], rtol=1e-9)
            res.log.append([j, i, g[0], d])
            if d:
                res.fail("differs", f"session {j} step {i} {g[0]}: {d}")
                return
