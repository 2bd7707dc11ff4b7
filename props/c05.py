"""C05 concurrent queries on one shared model."""
import copy

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F  # noqa
from sim.sched import Sched  # noqa
from sim.battery import battery  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1000, "cap": 170, "limit": 300}, "thorough": {"runs": 12000, "cap": 2400, "limit": 600}}
RULE = ("one run = one configured model shared by 2-4 threads that each make 1-5 queries, under a seeded schedule that "
        "preempts at source lines (or bytecode instructions) of the code under test, with failing backend calls and "
        "asynchronous exceptions injected into some threads; every completed query is compared with the same query "
        "on a new model used by nobody else, and so is the model after the threads ended. Non-trivial: at least one "
        "preemption inside a query.")
STATE_MEASURE = "distinct (system, stage, preempted function, query in progress, query resumed) tuples"
REAL = ["weac.Layered / weac.Inverse and all mixins, run by real threads", "numpy, scipy"]
STUBS = ["the thread scheduler: one thread holds the baton, a seeded scheduler moves it",
         "numerical backend calls fail at seeded calls in some threads"]
ASSUMPTIONS = ["preemption at source lines or bytecode instructions of the code under test; library calls are atomic",
               "for touchdown models all threads use the latest segmentation, other models are queried with several "
               "segmentations and inclinations at once"]


FOCUS = ["solve", "raster", "ginc", "gdif", "field", "out", "stress", "stress", "stress", "pwl", "zmesh", "load"]
MEET = {"solve": "assemble_and_solve", "raster": "rasterize_solution", "ginc": "ginc", "gdif": "gdif",
        "pwl": "principal_stress_weaklayer", "zmesh": "get_zmesh", "load": "get_skier_load"}


def gen(rng, tier, i):
    s = G.session(rng, n_ops=(1, 5), bad=0, td_prob=0.6, kinds=["solve"], reconf=0.6,
                  systems=["pst-", "-pst", "pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"])
    system, td = s["model"]["system"], s["model"]["touchdown"]
    ops = [o for o in s["ops"] if o["op"] != "q"]
    h = 200
    for o in ops:
        if o["op"] == "beam":
            h = G.height(o["layers"])
    if td:
        # stage C needs long cuts; make it frequent
        last = dict(G.seg(rng, system, td, h))
        if rng.random() < 0.5:
            last["a"] = G.r3(last["L"] * rng.uniform(0.4, 0.75))
        ops.append({"op": "seg", **last})
    segs = [] if td else [G.seg(rng, system, td, h) for _ in range(rng.choice([1, 1, 2, 3]))]
    threads = []
    focus = G.query(rng, system, False, FOCUS) if rng.random() < 0.6 else None     # all threads ask much the same
    if focus and not td and len(segs) < 2:
        segs.append(G.seg(rng, system, td, h))
    for t in range(rng.choice([2, 2, 3, 4])):
        qs = []
        for _ in range(rng.randint(1, 4)):
            if focus and rng.random() < 0.7:
                q = G.query(rng, system, False, [focus["k"]])
                if "name" in focus and rng.random() < 0.7:
                    q = dict(focus)
            elif td and rng.random() < 0.45:
                q = G.query(rng, system, td, ["stiff"])
            elif td and rng.random() < 0.06:
                q = {"op": "q", "k": "thresholds"}
            else:
                q = G.query(rng, system, False)
                if q["k"] == "ginc" and rng.random() < 0.5:
                    q = {"op": "q", "k": "gdif", "case": "crack", "unit": "J/m^2"}
            q["si"] = (t if focus and rng.random() < 0.7 else rng.randrange(len(segs))) if segs else 0
            qs.append(q)
        th = {"qs": qs}
        if rng.random() < 0.15:
            th["fault"] = {"kind": rng.choice(["linalg", "alloc", "quad"]), "n": rng.choice([0, 1, 2, 5, rng.randint(0, 40)]),
                           "exc": rng.choice(["linalg", "memory", "runtime"])}
        elif rng.random() < 0.1:
            th["bomb"] = rng.choice([rng.randint(1, 60), rng.randint(1, 1500)])
        threads.append(th)
    twin = bool(segs) and rng.random() < 0.25
    if twin:
        # everybody asks the same questions about the same cases in the same order, back and forth
        qs = [dict(G.query(rng, system, False, [rng.choice(FOCUS)])) for _ in range(rng.choice([1, 2]))]
        qs = [dict(q, si=j % max(2, len(segs))) for q in qs for j in range(rng.choice([2, 3]))]
        if len(segs) < 2:
            segs.append(G.seg(rng, system, td, h))
        threads = [dict(th, qs=copy.deepcopy(qs)) for th in threads[:rng.choice([2, 2, 3])]]
        focus = qs[0]
    return {"model": s["model"], "ctor": s["ctor"], "ops": ops, "segs": segs, "threads": threads,
            "sched": {"seed": rng.randrange(1 << 30), "gap": rng.choice([3, 10, 30, 100, 300]),
                      "opcodes": rng.random() < 0.15,
                      "meet": rng.randrange(2000) if twin and rng.random() < 0.8 else rng.choice([None, rng.randrange(1000)] + ([MEET.get(focus["k"], focus.get("name"))] * 2
                                                                         if focus else [])),},
            "_lists": ["switches", "threads", "ops", "segs"]}


def label(q):
    return q["k"] + (":" + q.get("name", "") if q.get("name") else "")


def run(scn, res):
    r = S.Runner(weac, scn)
    for op in scn["ops"]:
        o = S.attempt(r.apply, op)
        if isinstance(o, S.Failed) and op["op"] != "seg":
            return
    if r.segs is None or r.dirty or r.stale and scn["model"]["touchdown"]:
        res.count("model not usable")
        return
    system, td = scn["model"]["system"], scn["model"]["touchdown"]
    segs = [(r.segs, r.phi)]
    if scn["segs"]:
        segs = []
        for sg in scn["segs"]:
            x = S.attempt(S.segment, r.model, {"op": "seg", **sg})
            if not isinstance(x, S.Failed):
                segs.append((x, sg["phi"], sg))
        if not segs:
            return
    threads = scn["threads"]
    if not threads:
        return
    # what each query answers alone, on a new model
    want = []
    for th in threads:
        w = []
        for q in th["qs"]:
            sg = segs[q["si"] % len(segs)]
            cfg = dict(r.cfg)
            if len(sg) > 2:
                cfg["seg"] = {"op": "seg", **sg[2]}
            m, s = S.fresh(weac, cfg)
            w.append(S.attempt(S.query, m, s, sg[1], q, weac))
        want.append(w)

    def execute(model, switches):
        current = {}
        got = [[] for _ in threads]

        def body(t):
            def f():
                for q in threads[t]["qs"]:
                    current[t] = label(q)
                    sg = segs[q["si"] % len(segs)]
                    try:
                        o = S.query(model, sg[0], sg[1], q, weac)
                    except Exception as e:      # pylint: disable=broad-except
                        o = S.Failed(e)
                    except F.InjectedInterrupt as e:
                        o = S.Failed(e)
                    got[t].append(o)
                current[t] = "-"
            return f
        ctls = {t: F.FaultAt(th["fault"]["kind"], th["fault"]["n"], th["fault"]["exc"])
                for t, th in enumerate(threads) if th.get("fault")}
        bombs = {t: th["bomb"] for t, th in enumerate(threads) if th.get("bomb")}
        sc = Sched([body(t) for t in range(len(threads))], seed=scn["sched"]["seed"], gap=scn["sched"]["gap"],
                   switches=switches, meet=scn["sched"].get("meet"), opcodes=scn["sched"]["opcodes"], bombs=bombs, ctls=ctls)
        pairs = set()
        orig = sc._switch       # pylint: disable=protected-access

        def spy(me, to):
            pairs.add((me, to, current.get(me, "-"), current.get(to, "start")))
            orig(me, to)
        sc._switch = spy        # pylint: disable=protected-access
        sc.run()
        for e in sc.errors:
            if e is not None:
                raise e
        bad, n = None, 0
        for t, th in enumerate(threads):
            faulty = (t in ctls and ctls[t].fired) or t in sc.bombed
            for j, q in enumerate(th["qs"]):
                o = got[t][j]
                if isinstance(o, S.Failed) and o.type.startswith("Injected"):
                    continue
                d = S.differ(o, want[t][j])
                n += 1
                if d and not (isinstance(o, S.Failed) and faulty):
                    bad = bad or f"thread {t} query {j} {label(q)}: {d}"
        return sc, ctls, pairs, bad, n
    sc, ctls, pairs, bad, n = execute(r.model, scn.get("switches"))
    res.patch = {"switches": sc.made}
    res.log.append(["switches", sc.made, "steps", sc.step, sc.tstep, "bad", bad])
    res.count("scheduling points", sc.step)
    res.count("queries compared", n)
    pre = [x for x in sc.made if x[0] > 0]
    res.count("preemptions", len(pre))
    res.fault("thread preempted", len(pre))
    for c in ctls.values():
        if c.fired:
            res.fault("backend failure in a thread")
    for _ in sc.bombed:
        res.fault("asynchronous exception in a thread")
    mode = str(r.model.mode)
    for me, fn, to in set(sc.sites):
        res.states.append([system, mode if td else "-", fn])
    for me, to, a, b in pairs:
        res.states.append([system, mode if td else "-", a, b])
    if pre:
        res.nontrivial = True
    faults = any(c.fired for c in ctls.values()) or sc.bombed
    if bad and faults:
        # damage that a failing call does without any interleaving is the subject of C03
        r2 = S.Runner(weac, scn)
        for op in scn["ops"]:
            S.attempt(r2.apply, op)
        for sg in scn["segs"]:
            S.attempt(S.segment, r2.model, {"op": "seg", **sg})
        if execute(r2.model, [])[3]:
            res.count("difference without interleaving")
            return
    if bad:
        res.fail("differs", f"{bad}; schedule of {len(pre)} preemptions, in {[s[1] for s in sc.sites][-5:]}")
        return
    if faults:
        return
    # the model itself afterwards
    sg = segs[0]
    cfg = dict(r.cfg)
    if len(sg) > 2:
        cfg["seg"] = {"op": "seg", **sg[2]}
    m, s = S.fresh(weac, cfg)
    d = S.differ(battery(r.model, system, td, [(sg[0], sg[1])], full=not td),
                 battery(m, system, td, [(s, sg[1])], full=not td))
    res.log.append(["after", d])
    if d:
        res.fail("after", f"after the threads ended the model answers differently: {d}")
