"""C10 a plot call that returns has written a complete image."""
import os
import random
import shutil

from sim import env
weac, seams = env.load()
from sim import plotlab as P, vfs  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 400, "cap": 170, "limit": 300}, "thorough": {"runs": 6000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded history of plot calls (all plot functions, terminal and notebook) over a simulated disk "
        "that refuses, fills up, writes short or fails at seeded operations, with stale, missing, replaced and linked "
        "plot directories, changes of the working directory and processes killed in the middle of a plot call; every "
        "call that returns must have left a complete PNG equal to the image a fresh process makes of that request, "
        "and every call that meets no obstacle must return. Non-trivial: at least two images compared and one fault fired.")
STATE_MEASURE = "distinct (plot function, notebook, obstacle, fault that fired, outcome) tuples"
REAL = ["weac.plot, weac.tools.isnotebook, weac.Layered / weac.Inverse", "matplotlib (Agg), Pillow, Python's buffered files",
        "a real scratch directory"]
STUBS = ["raw file device with seeded errors, short writes and limited capacity", "front end (get_ipython, plt.show)",
         "process kill at seeded file operations"]
ASSUMPTIONS = ["no claim about data loss by a machine crash after the call returned",
               "the content of an image is checked by the curves and field ranges it shows; images are compared pixel by pixel "
               "with those of a fresh process of the same code"]
N_CAT = {"quick": 44, "thorough": 260}
CAT = []


def setup(tier):
    P.install()
    CAT[:] = P.catalogue(N_CAT.get(tier, 44))
    P.prerender(CAT, (False, True))


ERRNO = ["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"]


def gen_faults(rng):
    x = rng.random()
    if x < 0.3:
        return [{"kind": "short"}]
    if x < 0.5:
        return [{"kind": "full", "bytes": rng.choice([0, 10, 1000, 8192, rng.randint(0, 30000)])}]
    k = rng.choice(["mkdir", "open", "write", "write", "write", "close", "replace", "rename", "stat"])
    out = [{"kind": k, "n": rng.choice([0, 0, 1, 2, rng.randint(0, 12)]), "errno": rng.choice(ERRNO), "span": rng.choice([1, 1, 1000])}]
    if rng.random() < 0.3:
        out.append({"kind": "short"})
    return out


def gen(rng, tier, i):
    pool = rng.sample(CAT, 4)
    same = [r for r in CAT if P.name_of(r) == P.name_of(pool[0]) and r is not pool[0]]
    if same:
        pool[1] = rng.choice(same)
    ops = []
    for _ in range(rng.randint(4, 8)):
        x = rng.random()
        if x < 0.12:
            ops.append({"op": "chdir", "to": rng.choice(["a", "b", "."])})
        elif x < 0.2:
            ops.append({"op": "rmplots"})
        elif x < 0.34:
            ops.append({"op": "obstacle", "k": rng.choice(["file instead of directory", "dangling link", "linked directory",
                                                           "directory under the name", "empty file under the name",
                                                           "longer file under the name"]), "r": rng.randrange(4)})
        elif x < 0.44:
            ops.append({"op": "killed", "r": rng.randrange(4), "at": rng.choice([0, 1, 2, 3, rng.randint(0, 12)])})
        else:
            op = {"op": "plot", "r": rng.randrange(4), "nb": rng.random() < 0.2}
            if rng.random() < 0.5:
                op["faults"] = gen_faults(rng)
                op["fseed"] = rng.randrange(1 << 30)
            elif rng.random() < 0.4:
                op["render"] = P.gen_render_fault(rng, pool[op["r"]])
            ops.append(op)
    ops.append({"op": "plot", "r": rng.randrange(4), "nb": False})
    return {"requests": pool, "ops": ops}


def obstacle(kind, name):
    """Put something in the way. Returns whether a plot of that name can still succeed."""
    for p in ("plots",):
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            shutil.rmtree(p)
    target = os.path.join("plots", name + ".png")
    if kind == "file instead of directory":
        with open("plots", "w", encoding="utf-8") as f:
            f.write("not a directory")
        return False
    if kind == "dangling link":
        os.symlink("nowhere", "plots")
        return False
    if kind == "linked directory":
        os.makedirs("elsewhere", exist_ok=True)
        os.symlink("elsewhere", "plots")
        return True
    os.mkdir("plots")
    if kind == "directory under the name":
        os.mkdir(target)
        return False
    with open(target, "wb") as f:
        if kind.startswith("longer"):
            f.write(os.urandom(0) + b"x" * 300000)
    return True


def run(scn, res):
    P.install()
    with P.workdir() as root:
        for d in ("a", "b"):
            os.mkdir(os.path.join(root, d))
        blocked = {}        # directory -> request name that cannot succeed there (None: any)
        compared = 0
        for n, op in enumerate(scn["ops"]):
            k = op["op"]
            if k == "chdir":
                os.chdir(os.path.join(root, op["to"]))
                continue
            if k == "rmplots":
                if os.path.islink("plots") or os.path.isfile("plots"):
                    os.unlink("plots")
                else:
                    shutil.rmtree("plots", ignore_errors=True)
                blocked.pop(os.getcwd(), None)
                continue
            r = scn["requests"][op["r"]]
            name = P.name_of(r)
            if k == "obstacle":
                blocked.pop(os.getcwd(), None)
                if not obstacle(op["k"], name):
                    blocked[os.getcwd()] = name if op["k"].startswith("directory") else None
                res.fault(op["k"])
                res.log.append([n, op["k"]])
                continue
            if k == "killed":
                killed(root, r, op["at"], res)
                continue
            out = plot(scn, n, op, r, name, root, blocked, res)
            if out is None:
                return
            compared += out
        res.nontrivial = compared >= 2 and sum(res.faults.values()) >= 1


def killed(root, r, at, res):
    """Another process plots the same request here and is killed at its at-th file operation."""
    pid = os.fork()
    if pid == 0:
        try:
            count = [0]

            def hook(kind, rel, size):
                if count[0] == at:
                    os._exit(9)
                count[0] += 1
            with P.vfs.mounted(P.vfs.VFS(root, hook)):
                P.call(r)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    if os.WEXITSTATUS(st) == 9:
        res.fault("process killed while plotting")
    res.log.append(["killed", os.WEXITSTATUS(st)])


def plot(scn, n, op, r, name, root, blocked, res):
    """One plot call and its verdict: None after a violation, else the number of images compared."""
    nb = op["nb"]
    want = P.reference(r, nb)
    label = f"op {n} {r['fn']} ({'notebook' if nb else 'terminal'})"
    if "error" in want:
        res.fail("valid request fails", f"{label}: in a fresh process without faults: {want['error']}", op=n)
        return None
    if want["problem"]:
        res.fail("content", f"{label}: the image does not show what was requested: {want['problem']}", op=n)
        return None
    seams.NOTEBOOK[0] = nb
    P.SHOW_MODE[0] = "keep"
    del P.SHOWN[:]
    before = P.tree(root)
    hook = vfs.Faults([f for f in op.get("faults", []) if f["kind"] != "full"], random.Random(op.get("fseed", 0)))
    disk = vfs.VFS(root, hook)
    full = [f for f in op.get("faults", []) if f["kind"] == "full"]
    if full:
        disk.cap = full[0]["bytes"]
    rf = P.RenderFault(**op["render"]) if op.get("render") else None
    P.RENDER[0] = rf
    try:
        with vfs.mounted(disk):
            exc = P.attempt(P.call, r)
    finally:
        P.RENDER[0] = None
        seams.NOTEBOOK[0] = False
    fired = list(dict.fromkeys(hook.fired)) + (["disk full"] if any(e[0] == "disk full" for e in disk.events) else []) \
        + ([op["render"]["exc"] + " in " + rf.fired] if rf and rf.fired else [])
    for f in fired:
        res.fault(f)
    hard = [f for f in fired if f != "short write"]
    here = os.getcwd()
    stuck = here in blocked and blocked[here] in (None, name)
    after = P.tree(root)
    res.log.append([n, r["fn"], nb, fired, type(exc).__name__ if exc else "ok", stuck])
    res.states.append([r["fn"], nb, stuck, fired, type(exc).__name__ if exc else "ok"])
    if nb:
        if after != before:
            res.fail("notebook", f"{label}: files changed: {sorted(set(after.items()) ^ set(before.items()))[:3]}", op=n)
            return None
        if exc is None and (not P.SHOWN or P.SHOWN[-1] != want["img"]):
            res.fail("notebook", f"{label}: returned without showing the figure", op=n)
            return None
        if exc is not None and not hard:
            res.fail("refused", f"{label}: fails although nothing is in the way: {type(exc).__name__}: {exc}", op=n)
            return None
        res.count("figure shown" if exc is None else "call raised")
        return 0
    if exc is not None:
        res.count("call raised")
        if not hard and not stuck:
            res.fail("refused", f"{label}: fails although nothing is in the way: {type(exc).__name__}: {exc}", op=n)
            return None
        return 0
    path = os.path.join("plots", name + ".png")
    try:
        img = P.read_png(path)
    except (OSError, ValueError, SyntaxError) as e:
        res.fail("incomplete", f"{label} returned, but plots/{name}.png is not a complete image: {e}; faults: {fired}", op=n)
        return None
    if img != want["img"]:
        res.fail("image", f"{label} returned, but plots/{name}.png is not the requested figure; faults: {fired}", op=n)
        return None
    # images under other names are not touched
    mine = {os.path.relpath(os.path.realpath(path), root), os.path.relpath(os.path.join(here, path), root)}
    for f, h in before.items():
        if f.endswith(".png") and f not in mine and h != "dir" and after.get(f) != h:
            res.fail("name", f"{label}: changed {f} as well", op=n)
            return None
    res.count("image compared")
    return 1
