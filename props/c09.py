"""C09 saved and copied models resume identically and independently."""
import pickle
import subprocess
import sys
import os

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, faults as F, snapshot  # noqa
from sim.alone import alone  # noqa

LEVEL = "exploration"
PLAN = {"quick": {"runs": 1200, "cap": 170, "limit": 300}, "thorough": {"runs": 12000, "cap": 2400, "limit": 600}}
RULE = ("one run = one seeded session during which the model is pickled or deep-copied after seeded operations, the "
        "process 'crashes' at seeded source lines and resumes from the last saved bytes, copies take detours of their "
        "own, and in some runs the remaining session is resumed in a new interpreter with another hash seed; every "
        "result is compared with the uninterrupted session run in a process of its own. Non-trivial: at least one "
        "restore followed by a compared query.")
STATE_MEASURE = "distinct (system, touchdown, way of copying, operation after which it was saved, operation crashed in) tuples"
REAL = ["weac.Layered / weac.Inverse and all mixins", "pickle, copy", "a second Python interpreter"]
STUBS = ["process crash: an exception at a seeded source line after which everything but the saved bytes is dropped "
         "(same interpreter), or a new interpreter started from the saved bytes"]
ASSUMPTIONS = ["the user saves the model together with the segment lists it got from it",
               "saved bytes are complete (atomic save)"]


def gen(rng, tier, i):
    s = G.session(rng, n_ops=(5, 12) if tier == "quick" else (6, 30), bad=0.04, td_prob=0.3)
    G.loosen(rng, s, 0.5)
    for j, op in enumerate(s["ops"]):
        x = rng.random()
        if x < 0.3 or j == 0:
            op["_save"] = rng.choice([["pickle", 2], ["pickle", 4], ["pickle", 5], ["deepcopy", 0]])
            if rng.random() < 0.3:
                op["_detour"] = [{"op": "beam", **G.beam(rng), "update": True}, {"op": "found", **G.weak(rng), "update": True},
                                 {"op": "surf", "p": 0.02}][: rng.randint(1, 3)]
                op["_side"] = rng.choice(["copy", "original"])
        elif x < 0.5:
            op["_crash"] = rng.choice([rng.randint(1, 40), rng.randint(1, 800)])
        elif x < 0.6:
            op["_resume"] = True        # restart without a crash
    s["interp"] = rng.random() < (0.08 if tier == "quick" else 0.15)
    s["hashseed"] = rng.randrange(1, 4000000000)
    return s


def resume_elsewhere(blob, ops, seed):
    e = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, "-m", "sim.resume"], input=pickle.dumps((blob, ops)), cwd=env.VERIF, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, check=False)
    i = p.stdout.find(b"RESULT")
    if i < 0:
        return None, p.stderr.decode()[-800:]
    return pickle.loads(p.stdout[i + 6:]), None


def run(scn, res):
    ops = scn["ops"]

    def straight():
        r = S.Runner(weac, scn)
        return [snapshot.perform(r, op) for op in ops]
    want = alone(straight)
    r = S.Runner(weac, scn)
    kind = [r.m["system"], r.m["touchdown"]]
    try:
        saved, at, how = snapshot.save(r), 0, "pickle"
    except Exception as e:      # pylint: disable=broad-except
        res.fail("save", f"a new model cannot be saved: {type(e).__name__}: {e}")
        return
    n, restored, crashes = 0, False, 0
    guard = 0
    while n < len(ops):
        guard += 1
        if guard > 10 * len(ops) + 50:
            raise RuntimeError("session does not progress")
        op = ops[n]
        k = op["op"] + (":" + op["k"] if "k" in op else "")
        if op.get("_crash") and crashes < 3 and not op.get("_done"):
            crashes += 1
            op = ops[n] = dict(op, _done=True)
            with F.LineBomb(op["_crash"]) as b:
                try:
                    r.apply({a: v for a, v in op.items() if not a.startswith("_")})
                except F.InjectedInterrupt:
                    pass
                except Exception:       # pylint: disable=broad-except
                    pass
            if b.fired:
                res.fault("crash in " + b.site.split(":")[0])
                del r
                r = snapshot.restore(weac, saved)
                res.states.append(kind + [how, "crash", k])
                res.log.append([n, "crash", b.site.split(":")[0], "back to", at])
                n, restored = at, True
                continue
            # not reached: the call completed; the process is restarted all the same
            del r
            r = snapshot.restore(weac, saved)
            n, restored = at, True
            res.fault("restart")
            continue
        if op.get("_resume") and not op.get("_done"):
            op = ops[n] = dict(op, _done=True)
            del r
            r = snapshot.restore(weac, saved)
            res.fault("restart")
            n, restored = at, True
            continue
        out = snapshot.perform(r, op)
        d = S.differ(out, want[n], rtol=1e-9)
        res.count("results compared")
        if op["op"] == "q" and restored:
            res.nontrivial = True
        res.log.append([n, k, d])
        if d:
            res.fail("resumed", f"op {n} {k} after restoring ({how}): {d}", op=n)
            return
        n += 1
        if op.get("_save"):
            how = op["_save"][0]
            try:
                if how == "pickle":
                    saved = snapshot.save(r, op["_save"][1])
                    other = snapshot.restore(weac, saved)
                else:
                    other = snapshot.clone(weac, r)
                    saved = snapshot.save(other)
            except Exception as e:      # pylint: disable=broad-except
                res.fail("save", f"op {n - 1} {k}: saving by {how} fails: {type(e).__name__}: {e}", op=n - 1)
                return
            at = n
            res.count("saved by " + how)
            res.states.append(kind + [how, "save", k])
            if op.get("_detour"):
                # one of the two goes its own way, the session continues with the other
                mine, his = (r, other) if op["_side"] == "copy" else (other, r)
                for o in op["_detour"]:
                    snapshot.perform(his, o)
                if "seg" in his.cfg:
                    S.attempt(his.apply, his.cfg["seg"])
                r = mine
                restored = True
                res.count("detour of " + op["_side"])
            elif how == "deepcopy" or n % 2:
                r = other
                restored = True
    if scn["interp"]:
        got, err = resume_elsewhere(saved, ops[at:], scn["hashseed"])
        if got is None:
            res.fail("interpreter", f"resuming in a new interpreter fails: {err}")
            return
        res.fault("resumed in a new interpreter")
        for j, (g, w) in enumerate(zip(got, want[at:])):
            d = S.differ(g, w, rtol=1e-9)
            res.log.append(["interp", j, d])
            if d:
                res.fail("interpreter", f"op {at + j}: in a new interpreter: {d}")
                return
