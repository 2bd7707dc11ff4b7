"""C13 concurrent processes can plot into the same directory."""
import os

from sim import env
weac, seams = env.load()
from sim import plotlab as P, lockstep  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 400, "cap": 170, "limit": 300}, "thorough": {"runs": 8000, "cap": 2400, "limit": 600}}
RULE = ("one run = two to four processes plotting into one working directory (the same or different figures, repeatedly), plus an "
        "outsider creating the plots directory, advanced one file-system operation at a time in a seeded order with short "
        "writes and processes killed between operations; every call of a surviving process must return, and at its return and "
        "at the end every written name must hold a complete image of a figure requested under that name. Non-trivial: at "
        "least two processes were inside a plot call at the same time.")
STATE_MEASURE = ("distinct complete interleavings (order of (process, operation)), plus distinct (operation left, operation entered, "
                 "directory present, same name) at switches")
REAL = ["weac.plot in several processes", "matplotlib (Agg), Pillow, Python's buffered files", "a real scratch directory (tmpfs)"]
STUBS = ["process scheduling (lockstep at every file operation)", "raw file device with short writes", "process kill"]
ASSUMPTIONS = ["the operating system's own operations (mkdir, open, write, rename) are atomic",
               "other processes may create the plots directory but do not delete or corrupt it"]
N_CAT = {"quick": 40, "thorough": 160}
CAT = []


def setup(tier):
    P.install()
    CAT[:] = P.catalogue(N_CAT.get(tier, 40), salt=13)
    P.prerender(CAT)


def gen(rng, tier, i):
    same = rng.random() < 0.6
    first = rng.choice(CAT)
    pool = [r for r in CAT if P.name_of(r) == P.name_of(first)] if same else CAT
    reqs = [first] + [rng.choice(pool) for _ in range(3)]
    procs = [[rng.randrange(4) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3, 4]))]
    s = {"requests": reqs, "procs": procs, "sched": rng.randrange(1 << 30), "p": rng.choice([0.1, 0.3, 0.6, 0.9]),
         "mkdir_at": rng.choice([None, None, 0, 1, 2, 3, 4, rng.randint(0, 20)]), "exists": rng.random() < 0.3,
         "kill": None, "short": None}
    if rng.random() < 0.3:
        s["kill"] = [rng.randrange(len(procs)), rng.randint(1, 25)]
    if rng.random() < 0.3:
        s["short"] = rng.randint(100, 9000)
    return s


def shrink(scn):
    import copy
    from sim.runner import shrink_generic
    for k, v in (("kill", None), ("short", None), ("mkdir_at", None), ("exists", False)):
        if scn[k] != v:
            yield dict(copy.deepcopy(scn), **{k: v})
    for i, p in enumerate(scn["procs"]):
        if len(p) > 1:
            c = copy.deepcopy(scn)
            c["procs"][i] = p[:1]
            yield c
    yield from shrink_generic(scn)


def verdict(scn, names, res, when):
    """Every name must hold a complete image of some figure requested under it."""
    for name in names:
        ok = {P.reference(r)["img"] for r in scn["requests"] if P.name_of(r) == name}
        img = P.attempt_img(name)
        if img not in ok:
            res.fail("image", f"{when}: plots/{name}.png is " + (img if img.startswith("no image") else "not one of the requested figures"))
            return False
    return True


def run(scn, res):
    P.install()
    for r in scn["requests"]:
        w = P.reference(r)
        if "error" in w:
            res.fail("valid request fails", f"{r['fn']}: in a fresh process: {w['error']}")
            return
        if r["fn"] not in ("crit", "err", "modes"):
            P.prepare(r)
    with P.workdir() as root:
        if scn["exists"]:
            os.mkdir("plots")
        procs = [lockstep.Proc(root, [lambda r=scn["requests"][j]: P.call(r) and None for j in js]) for js in scn["procs"]]
        sched = lockstep.Scheduler(scn["sched"], scn["p"], scn.get("switches"))
        written, overlap, steps = set(), False, 0
        own = [[P.name_of(scn["requests"][j]) for j in js] for js in scn["procs"]]
        count = [0] * len(procs)
        try:
            while True:
                run_ = [i for i, p in enumerate(procs) if not p.done]
                if not run_:
                    break
                if scn["mkdir_at"] == steps and not os.path.isdir("plots"):
                    os.mkdir("plots")
                    res.fault("outsider created plots/")
                    res.log.append(["outsider"])
                prev = sched.cur
                i = sched.pick(run_)
                p = procs[i]
                at = p.at
                steps += 1
                if steps > 6000:
                    res.fail("progress", f"no end after {steps} file operations; process {i} is at {at[:2]}")
                    return
                count[i] += 1
                if i != prev and at[0] == "op":
                    o = procs[prev]
                    if not o.done and o.at[0] == "op":
                        overlap = True
                        res.states.append([o.at[1], at[1], os.path.isdir("plots"), own[i] == own[prev]])
                    res.fault("switch at a file operation")
                res.log.append([i, at[:2]])
                if scn["kill"] and scn["kill"][0] == i and scn["kill"][1] == count[i] and at[0] == "op":
                    p.kill()
                    res.fault("process killed before " + at[1])
                    continue
                if at[0] == "op" and at[1] == "write" and scn["short"] and at[3] > scn["short"]:
                    p.go(scn["short"])
                    res.fault("short write")
                else:
                    p.go()
                if not p.done and p.at[0] == "result":
                    name = own[i][p.at[1]]
                    if p.at[2] is not None:
                        res.fail("failed", f"process {i}: plot {name} failed: {p.at[2]}")
                        return
                    written.add(name)
                    res.count("calls completed")
                    if not verdict(scn, [name], res, f"when the call of process {i} returned"):
                        return
            verdict(scn, sorted(written), res, "at the end")
            res.states.append([e[:2] if len(e) == 1 else [e[0], e[1][:2]] for e in res.log])
            res.nontrivial = overlap
            res.count("file operations", steps)
        finally:
            res.patch = {"switches": sched.made}
            for p in procs:
                if not p.done:
                    p.kill()
