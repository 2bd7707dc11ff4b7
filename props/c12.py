"""C12 plots leave the user's own figures and colormaps untouched."""
import numpy as np

from sim import env
weac, seams = env.load()
from sim import plotlab as P  # noqa
from props.c11 import do_plot, gen_failure  # noqa

plt = P.plt
LEVEL = "exploration"
PLAN = {"quick": {"runs": 350, "cap": 170, "limit": 300}, "thorough": {"runs": 6000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded interleaving of a user working on figures of his own (opening numbered and named figures, drawing, "
        "selecting, adding subplots and twin axes, closing, registering colormaps) with plot calls that succeed or fail, in "
        "terminal and notebook; around every plot call the open figures, their pixels, the current figure and axes and all "
        "registered colormaps must be unchanged, and the image must be that of a fresh process. Non-trivial: a plot call was "
        "made while a user figure was open and its image compared.")
STATE_MEASURE = "distinct (plot function, number of user figures, kind of current figure, cause of failure) tuples"
REAL = ["weac.plot", "matplotlib (Agg), Pillow", "a real scratch directory"]
STUBS = ["front end (get_ipython, plt.show that keeps or closes the shown figure)",
         "failures raised at seeded matplotlib calls, disk operations and allocations"]
ASSUMPTIONS = ["the user's figures use matplotlib's default style"]
N_CAT = {"quick": 44, "thorough": 260}
CAT = []


def setup(tier):
    P.install()
    CAT[:] = P.catalogue(N_CAT.get(tier, 44))
    P.prerender(CAT, (False, True))


def gen_user(rng, used):
    k = rng.choice(["open", "open", "open", "draw", "select", "subplot", "close", "cmap", "bare"])
    op = {"op": k, "s": rng.randrange(1 << 20)}
    if k == "open":
        op["num"] = rng.choice([None, None, rng.randint(1, 30), "user's figure", "profile", "cont"])
        if used and rng.random() < 0.3:
            # a number or name the library uses itself
            op["num"] = rng.choice(used)
        op["what"] = rng.choice(["line", "image", "contour", "twin", "empty axes", "polar"])
    return op


def gen(rng, tier, i):
    pool = rng.sample(CAT, 4)
    deform = [r for r in CAT if r["fn"] == "deformed"]
    if deform and rng.random() < 0.6:
        pool[0] = rng.choice(deform)
    used = sorted({x for r in pool for f in P.reference(r).get("figs", []) for x in f if x}, key=str)
    names = [P.name_of(r) for r in pool]
    used += [n + x for n in names for x in ("", ".png")] + names
    ops = [gen_user(rng, used) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(3, 6)):
        if rng.random() < 0.5:
            ops.append(gen_user(rng, used))
        j = rng.randrange(4)
        op = {"op": "plot", "r": j, "nb": rng.random() < 0.25, "show": rng.choice(["keep", "close"])}
        if rng.random() < 0.4:
            op.update(gen_failure(rng, pool[j]))
        ops.append(op)
    return {"requests": pool, "ops": ops}


def fill(ax, what, s):
    r = np.random.RandomState(s)
    if what == "image":
        ax.imshow(r.rand(6, 8) - 0.5, cmap="RdBu_r", vmin=-0.3, vmax=0.3)
    elif what == "contour":
        ax.contourf(r.rand(6, 8) - 0.5, cmap=plt.cm.RdBu_r, levels=np.linspace(-0.3, 0.3, 7), extend="both")
    elif what != "empty axes":
        ax.plot(r.rand(12), "o-", label="mine")


def user(op):
    """One action of the user."""
    k, s = op["op"], op["s"]
    nums = plt.get_fignums()
    if k == "open":
        if op["num"] is not None and (op["num"] in nums or op["num"] in plt.get_figlabels()):
            plt.figure(op["num"])
            return
        plt.figure(op["num"], figsize=(3, 2))
        ax = plt.subplot(111, projection="polar") if op["what"] == "polar" else plt.gca()
        fill(ax, op["what"], s)
        if op["what"] == "twin":
            ax.twinx().plot([3, 1, 2])
            plt.sca(ax)
    elif k == "bare":
        plt.figure(figsize=(2, 2))
    elif k == "cmap":
        name = f"user{s % 3}"
        P.matplotlib.colormaps.register(P.matplotlib.colors.ListedColormap(np.random.RandomState(s).rand(5, 3), name=name),
                                        name=name, force=True)
    elif not nums:
        return
    elif k == "draw":
        fill(plt.gca(), "line", s)
    elif k == "select":
        plt.figure(nums[s % len(nums)])
    elif k == "subplot":
        plt.gcf().add_subplot(2, 2, 1 + s % 4)
    elif k == "close":
        plt.close(nums[s % len(nums)])


def state():
    """Everything of the user's that must not change."""
    nums = plt.get_fignums()
    out = {"figures": list(zip(nums, plt.get_figlabels())), "current": plt.gcf().number if nums else None, "colormaps": P.cmaps(),
           "pixels": {}, "axes": {}}
    for n in nums:
        fig = P.matplotlib._pylab_helpers.Gcf.figs[n].canvas.figure
        cur = fig._axstack.current() if hasattr(fig, "_axstack") else None
        out["axes"][n] = [id(fig), [id(a) for a in fig.axes], id(cur) if cur is not None else None]
        out["pixels"][n] = P.pixels(fig)
    return out


def run(scn, res):
    P.install()
    for r in scn["requests"]:
        if r["fn"] not in ("crit", "err", "modes"):
            P.prepare(r)
    with P.workdir() as root:
        for n, op in enumerate(scn["ops"]):
            if op["op"] != "plot":
                user(op)
                res.log.append([n, op["op"], plt.get_fignums()])
                continue
            r = scn["requests"][op["r"]]
            before = state()
            exc, cause = do_plot(root, r, op)
            after = state()
            if cause:
                res.fault(cause)
            nfig = len(before["figures"])
            res.log.append([n, r["fn"], op["nb"], cause, nfig, type(exc).__name__ if exc else "ok"])
            res.states.append([r["fn"], min(nfig, 4), op["nb"], cause])
            label = f"op {n} {r['fn']} ({'notebook' if op['nb'] else 'terminal'}, {cause or 'no failure'}) with {nfig} user figures"
            if not set(before["figures"]) <= set(after["figures"]):
                res.fail("figures", f"{label}: closed {set(before['figures']) - set(after['figures'])}", op=n)
                return
            for k in ("current", "colormaps"):
                if before[k] != after[k] and not (k == "current" and before[k] is None):
                    res.fail(k, f"{label}: {k} changed from {before[k]} to {after[k]}", op=n)
                    return
            for num, _ in before["figures"]:
                if before["axes"][num] != after["axes"][num]:
                    res.fail("axes", f"{label}: axes of user figure {num} changed", op=n)
                    return
                if before["pixels"][num] != after["pixels"][num]:
                    res.fail("pixels", f"{label}: user figure {num} looks different", op=n)
                    return
            if exc is None and op.get("broken") is None:
                want = P.reference(r, op["nb"])
                if "error" in want:
                    res.fail("valid request fails", f"{label}: in a fresh process: {want['error']}", op=n)
                    return
                img = (P.SHOWN[-1] if P.SHOWN else "nothing shown") if op["nb"] else P.attempt_img(P.name_of(r))
                if img != want["img"]:
                    res.fail("image", f"{label}: differs from the image of a fresh process ({img})", op=n)
                    return
                res.count("image compared")
                if nfig:
                    res.nontrivial = True
                if not nfig and plt.get_fignums():
                    # a leftover figure is C11's concern; it would become the user's current one here
                    plt.close("all")
            elif exc is not None and cause is None and op.get("broken") is None:
                res.fail("refused", f"{label}: fails although nothing is in the way: {type(exc).__name__}: {exc}", op=n)
                return
