"""C11 a failed plot never leaks into later plots."""
import random

from sim import env
weac, seams = env.load()
from sim import faults as F, plotlab as P, vfs  # noqa
from props.c10 import gen_faults  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 400, "cap": 170, "limit": 300}, "thorough": {"runs": 6000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded history of plot calls in one process, many of which fail (invalid requests, data of wrong shape, "
        "failing disk, failing rendering, failing allocation, interrupt during rendering); after every call no figure may be "
        "open and all style parameters must be at their defaults, and every call that returns must produce the image a fresh "
        "process produces. Non-trivial: at least one failed call followed by a compared image.")
STATE_MEASURE = "distinct (plot function, cause of failure or none, previous failure) tuples"
REAL = ["weac.plot", "matplotlib (Agg), Pillow", "a real scratch directory"]
STUBS = ["raw file device with seeded errors", "failures raised at seeded matplotlib calls, renderer calls and allocations",
         "front end (get_ipython, plt.show)"]
ASSUMPTIONS = ["interrupts arrive while matplotlib is at work, not inside the cleanup itself",
               "style parameters are those of matplotlib's style system (backend and interactive settings excluded)"]
N_CAT = {"quick": 44, "thorough": 260}
CAT = []


def setup(tier):
    P.install()
    CAT[:] = P.catalogue(N_CAT.get(tier, 44))
    P.prerender(CAT, (False, True))


def gen_failure(rng, r):
    """Why a call is going to fail: a field of the operation."""
    x = rng.random()
    if x < 0.35:
        return {"broken": rng.choice(["request", "shape", "none"])}
    if x < 0.5:
        return {"faults": gen_faults(rng), "fseed": rng.randrange(1 << 30)}
    if x < 0.85:
        return {"render": P.gen_render_fault(rng, r)}
    return {"alloc": rng.choice([0, 1, 2, rng.randint(0, 30)])}


def gen(rng, tier, i):
    pool = rng.sample(CAT, 4)
    dark = [r for r in CAT if r.get("kw", {}).get("dark")]
    if dark and rng.random() < 0.6:
        pool[0] = rng.choice(dark)
    ops = []
    for _ in range(rng.randint(4, 8)):
        j = rng.randrange(4)
        op = {"op": "plot", "r": j, "nb": rng.random() < 0.15}
        if rng.random() < 0.6:
            op.update(gen_failure(rng, pool[j]))
        ops.append(op)
    ops.append({"op": "plot", "r": rng.randrange(4), "nb": False})
    return {"requests": pool, "ops": ops}


def do_plot(root, r, op, name=None):
    """Issue a plot call with the failures of an operation. Returns (exception or None, cause)."""
    seams.NOTEBOOK[0] = op["nb"]
    P.SHOW_MODE[0] = op.get("show", "keep")
    del P.SHOWN[:]
    full = [f for f in op.get("faults", []) if f["kind"] == "full"]
    hook = vfs.Faults([f for f in op.get("faults", []) if f["kind"] != "full"], random.Random(op.get("fseed", 0)))
    disk = vfs.VFS(root, hook)
    if full:
        disk.cap = full[0]["bytes"]
    rf = P.RenderFault(**op["render"]) if op.get("render") else None
    P.RENDER[0] = rf
    ctl = F.FaultAt("alloc", op["alloc"], "memory") if "alloc" in op else None
    try:
        with vfs.mounted(disk), F.use(ctl):
            exc = P.attempt(P.call, r, op.get("broken"))
    finally:
        P.RENDER[0] = None
        seams.NOTEBOOK[0] = False
    cause = None
    if rf and rf.fired:
        cause = f"{op['render']['exc']} in {rf.fired}"
    elif ctl and ctl.fired:
        cause = f"memory in {ctl.site}"
    elif any(e[0] == "disk full" for e in disk.events):
        cause = "disk full"
    elif [f for f in hook.fired if f != "short write"]:
        cause = [f for f in hook.fired if f != "short write"][0]
    elif exc is not None and op.get("broken"):
        cause = "bad " + op["broken"]
    return exc, cause


def run(scn, res):
    P.install()
    for r in scn["requests"]:
        if r["fn"] not in ("crit", "err", "modes"):
            P.prepare(r)
    with P.workdir() as root:
        last = None
        for n, op in enumerate(scn["ops"]):
            r = scn["requests"][op["r"]]
            label = f"op {n} {r['fn']}"
            exc, cause = do_plot(root, r, op)
            if cause:
                res.fault(cause)
            res.log.append([n, r["fn"], op["nb"], cause, type(exc).__name__ if exc else "ok"])
            res.states.append([r["fn"], cause, last])
            what = f"{label} {'failed (' + str(cause) + ')' if exc else 'returned'}"
            figs = P.plt.get_fignums()
            if figs:
                res.fail("open figures", f"{what} and left figures {figs} open", op=n)
                return
            st = P.style_changes()
            if st:
                res.fail("styles", f"{what} and left styles changed: {st[:4]}", op=n)
                return
            if P.matplotlib.is_interactive():
                res.fail("styles", f"{what} and left interactive mode on", op=n)
                return
            if exc is None and op.get("broken") is None:
                want = P.reference(r, op["nb"])
                if "error" in want:
                    res.fail("valid request fails", f"{label}: in a fresh process: {want['error']}", op=n)
                    return
                if op["nb"]:
                    img = P.SHOWN[-1] if P.SHOWN else "nothing shown"
                else:
                    img = P.attempt_img(P.name_of(r))
                if img != want["img"]:
                    res.fail("image", f"{label} after failure '{last}' differs from the image of a fresh process ({img})", op=n)
                    return
                res.count("image compared")
                if last:
                    res.nontrivial = True
            elif exc is not None:
                last = cause or "unexplained"
                if cause is None and op.get("broken") is None:
                    res.fail("refused", f"{label} after failure '{last}' fails although nothing is in the way: {type(exc).__name__}: {exc}", op=n)
                    return
