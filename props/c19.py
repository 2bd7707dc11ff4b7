"""C19 the library neither depends on nor disturbs the process it runs in."""
import json
import os
import random
import subprocess
import threading

from sim import env
weac, seams = env.load()
crit = env.load_criterion()
from sim import ambient as A, critlab as K, faults as F, gen as G, plotlab as P, session as S, vfs  # noqa
from sim.alone import alone  # noqa
from props import c20 as H  # noqa
from props.c10 import gen_faults  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 700, "cap": 170, "limit": 300}, "thorough": {"runs": 9000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded session (model calls, failing calls, injected backend failures, plots, criterion evaluations) in "
        "a process whose ambient state another user of the process sets and changes between the calls (random states, "
        "numpy error state and print options, warning filters, working directory, environment, umask, signal handlers, "
        "recursion limit, garbage collector, standard output, ...), possibly in a thread other than the main one. Around "
        "every call the ambient state must stay as it was, and every result must equal that of the same session in a "
        "process left alone. Non-trivial: at least one ambient change was in force while results were compared.")
STATE_MEASURE = "distinct (ambient kinds in force, operation kind, outcome) tuples"
REAL = ["weac.Layered / weac.Inverse and all mixins", "weac.plot", "examples/criterion_check.py", "numpy, scipy, matplotlib"]
STUBS = ["another user of the process that changes ambient state between calls"]
ASSUMPTIONS = ["floating-point errors are not turned into exceptions by the process",
               "matplotlib's own state is the subject of C11 and C12; plots may create the directory plots"]

STOP = object()
RENDERED = [0]
DISK = [0]


def setup(tier):
    P.install()


MODULES = ["weac", "weac.plot", "weac.tools", "weac.layered", "weac.inverse", "weac.mixins", "weac.eigensystem"]


def imports(scn, res):
    """Loading the library into a process that is already in use."""
    with P.workdir():
        env_ = {k: v for k, v in os.environ.items()}
        out = subprocess.run([env.PYTHON, os.path.join(env.VERIF, "sim", "importlab.py"),
                              json.dumps([env.REPO, scn["import"], scn["order"]])], capture_output=True, text=True, env=env_, timeout=120,
                             stdin=subprocess.DEVNULL, check=False)
    if out.returncode:
        raise RuntimeError(out.stderr[-2000:])
    bad = json.loads(out.stdout.strip().splitlines()[-1])["bad"]
    for c in scn["import"]:
        res.fault("ambient: " + c[0])
    res.log.append(bad)
    res.count("imports in a process in use")
    res.states.append(["import", sorted(c[0] for c in scn["import"]), scn["order"][0]])
    res.nontrivial = True
    if bad:
        res.fail("import", f"importing {scn['order']} changed {bad}")


def gen(rng, tier, i):
    if rng.random() < 0.035:
        order = rng.sample(MODULES, rng.randint(1, len(MODULES)))
        return {"import": [c for c in A.gen(rng) if c[0] not in ("cwd",)], "order": order + (["weac"] if "weac" not in order else [])}
    s = G.loosen(rng, G.session(rng, n_ops=(4, 12) if tier == "quick" else (6, 40), bad=0.15))
    s["ambient"] = A.gen(rng)
    s["thread"] = rng.random() < 0.3
    for op in s["ops"]:
        if rng.random() < 0.25:
            op["_amb"] = A.gen(rng, 1)
        if op["op"] != "nop" and rng.random() < 0.15:
            op["_fault"] = [rng.choice(["linalg", "alloc", "root", "quad"]), rng.choice([0, 0, 1, 2, rng.randint(0, 60)]),
                            rng.choice(["linalg", "memory", "runtime", "value", "interrupt"])]
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        f = rng.choice(H.LIGHT + H.MEDIUM * 3)
        op = {"op": "call", "f": f, "a": H.args(rng, f)}
        if rng.random() < 0.4:
            op["_fault"] = [rng.choice(["linalg", "alloc", "root", "quad"]), rng.choice([0, 0, 1, 2, rng.randint(0, 60)]),
                            rng.choice(["linalg", "memory", "runtime", "value", "interrupt"])]
        s["ops"].insert(rng.randint(1, len(s["ops"])), op)
    x = rng.random()
    if x < 0.32:
        for _ in range(rng.randint(1, 4)):
            op = {"op": "plot", "request": G_plot(rng)}
            if rng.random() < 0.5:
                op["_amb"] = [["cwd", rng.randrange(4)]] if rng.random() < 0.7 else A.gen(rng, 2)
            if rng.random() < 0.45:
                op["_render"] = P.gen_render_fault(rng, op["request"])
            elif rng.random() < 0.4:
                op["_disk"] = [gen_faults(rng) if rng.random() < 0.7 else
                               [{"kind": "mkdir", "n": 0, "errno": rng.choice(["ENOSPC", "EACCES", "EROFS"]), "span": 1000}],
                               rng.randrange(1 << 30)]
                if rng.random() < 0.4:
                    op["_amb"] = op.get("_amb", []) + [["umask", rng.randrange(1 << 30)]]
            s["ops"].insert(rng.randint(1, len(s["ops"])), op)
    elif x < 0.48:
        s["ops"].append({"op": "crit", "kind": rng.choice(["check", "force", "selfprop"]), "problem": K.problem(rng, fast=True)})
    return s


def G_plot(rng):
    r = P.gen_request(rng, rng.choice(["profile", "deformed", "disp", "forc", "stress", "crit", "err", "modes"]))
    return r


def full_disk(op):
    """A plot on a failing disk; what comes of it is the subject of C10."""
    faults, seed = op["_disk"]
    hook = vfs.Faults([f for f in faults if f["kind"] != "full"], random.Random(seed))
    disk = vfs.VFS(os.getcwd(), hook)
    for f in faults:
        if f["kind"] == "full":
            disk.cap = f["bytes"]
    with vfs.mounted(disk):
        try:
            P.call(op["request"])
        except Exception:       # pylint: disable=broad-except
            pass
    DISK[0] += len(hook.fired) + sum(e[0] == "disk full" for e in disk.events)


def perform(r, op):
    """One operation; returns something comparable."""
    if op["op"] == "plot":
        if "_disk" in op:
            full_disk(op)
            return None
        rf = P.RENDER[0] = P.RenderFault(**op["_render"]) if "_render" in op else None
        try:
            P.call(op["request"])
        finally:
            P.RENDER[0] = None
            if rf is not None and rf.fired:
                RENDERED[0] += 1
        return P.read_png(os.path.join("plots", P.name_of(op["request"]) + ".png"))
    if op["op"] == "call":
        return H.flat(H.call(op["f"], H.prepare(op["f"], op["a"])))
    if op["op"] == "crit":
        p = op["problem"]
        if op["kind"] == "selfprop":
            return crit.find_min_crack_length_self_propagation(p["snow_profile"], p["phi"], p["E"], p["t"])
        if op["kind"] == "force":
            L = 60.0 * sum(x[1] for x in p["snow_profile"])
            return K.plain(K.force(crit, p, [L / 2, L / 2], [True, True]))
        return list(crit.check_crack_propagation_criterion(
            p["snow_profile"], p["phi"], {"li": [6000., 300., 200., 6000.], "ki": [True, False, False, True]},
            skier_weight=70, E=p["E"], t=p["t"]))
    return r.apply({k: v for k, v in op.items() if not k.startswith("_")})


def attempt(r, op):
    ctl = F.FaultAt(*op["_fault"]) if "_fault" in op else None
    try:
        with F.use(ctl):
            out = perform(r, op)
    except (Exception, KeyboardInterrupt) as e:      # pylint: disable=broad-except
        out = S.Failed(Exception(type(e).__name__))
    return out, ctl.fired if ctl else 0


def session(scn, around=None):
    r = S.Runner(weac, scn)
    out = []
    for n, op in enumerate(scn["ops"]):
        if around:
            v = around(n, op, r)
            if v is STOP:
                return None
        else:
            v, _ = attempt(r, op)
        out.append(v)
        if op["op"] in ("beam", "found", "surf", "recompute", "seg") and isinstance(v, S.Failed):
            break       # state after failed setters is the subject of C03
    return out


def run(scn, res):
    if "import" in scn:
        return imports(scn, res)
    for op in scn["ops"]:
        if op["op"] == "plot" and op["request"]["fn"] not in ("crit", "err", "modes"):
            P.prepare(op["request"])
    with P.workdir() as scratch:
        want = alone(lambda: session(scn))
        P.shutil.rmtree(os.path.join(scratch, "plots"), ignore_errors=True)
        box = []

        def work():
            try:
                body(scn, res, scratch, want)
            except BaseException as e:      # pylint: disable=broad-except
                box.append(e)
        for c in scn["ambient"]:
            A.apply(c, scratch)
            res.fault("ambient: " + c[0])
        if scn["thread"]:
            res.fault("not in the main thread")
            t = threading.Thread(target=work)
            t.start()
            t.join()
        else:
            work()
        if box:
            raise box[0]


def body(scn, res, scratch, want):
    kinds = [c[0] for c in scn["ambient"]] + ["thread"] * scn["thread"]

    def around(n, op, r):
        for c in op.get("_amb", []):
            if not (scn["thread"] and c[0] in ("signals",)):
                A.apply(c, scratch)
                res.fault("ambient: " + c[0])
                kinds.append(c[0])
        k = op["op"] + (":" + op["k"] if "k" in op else "")
        plots = op["op"] == "plot"
        before, files, fds = A.snapshot(), sorted(os.listdir(".")), A.open_files()
        RENDERED[0] = DISK[0] = 0
        v, fired = attempt(r, op)
        if RENDERED[0]:
            res.fault("failing rendering or saving")
        if DISK[0]:
            res.fault("failing disk")
        after = A.snapshot()
        if fired:
            res.fault("backend failure")
        d = A.changed(before, after)
        leak = A.leaked_files(fds)
        if leak:
            d.append(f"open files: {leak}")
        now = [f for f in sorted(os.listdir(".")) if not (plots and f == "plots")]
        if now != [f for f in files if not (plots and f == "plots")]:
            d.append(f"files in the working directory: {now}")
        what = f"op {n} {k}" + (" (failed)" if isinstance(v, S.Failed) else "")
        if plots and not fired and not RENDERED[0] and "_disk" not in op and isinstance(v, S.Failed):
            res.fail("plot", f"{what} with {kinds}: {v} although nothing stands in the way", op=n)
            return STOP
        if d:
            res.fail("disturbed", f"{what} changed {d}: " + "; ".join(f"{x}: {before[x]} -> {after[x]}" for x in d if x in before), op=n)
            return STOP
        w = want[n] if n < len(want) else S.SKIP
        diff = S.differ(v, w)
        res.log.append([n, k, isinstance(v, S.Failed)])
        if diff:
            res.fail("depends", f"{what} with {kinds}: {diff}", op=n)
            return STOP
        if v is not S.SKIP:
            res.count("compared " + op["op"])
            res.states.append([sorted(set(kinds)), k, isinstance(v, S.Failed)])
            res.nontrivial = True
        return v
    session(scn, around)
