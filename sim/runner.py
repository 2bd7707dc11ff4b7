"""Seeded search over simulated runs: every run is a forked child of a pristine process."""
import copy
import hashlib
import importlib
import itertools
import json
import os
import random
import selectors
import signal
import struct
import subprocess
import sys
import time
import traceback

from sim import env

real_time = time.time      # the harness's own clock (bound before the seams are installed)
REPLAYS = os.path.join(env.VERIF, "replays")
EVIDENCE = os.path.join(env.VERIF, "evidence")
SCRATCH = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")


class HarnessError(Exception):
    pass


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


def digest(x):
    return hashlib.sha256(jdump(x).encode()).hexdigest()[:16]


def run_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()[:8], "big")


class Result:
    """What one simulated run reports."""

    def __init__(self):
        self.violation = None
        self.log = []
        self.n = {}         # probes and operation counts
        self.faults = {}    # faults that actually fired
        self.states = []    # abstract states / interleavings reached
        self.simtime = 0.0
        self.nontrivial = False
        self.known = []     # ids of known findings seen
        self.patch = None   # recorded decisions that replace seeded ones in the scenario of a violation

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def fail(self, kind, detail, **kw):
        if self.violation is None:
            self.violation = dict(kind=kind, detail=str(detail)[:600], **kw)

    def pack(self):
        return dict(violation=self.violation, log=digest(self.log), n=self.n, faults=self.faults,
                    states=[digest(s) for s in self.states], simtime=self.simtime,
                    nontrivial=self.nontrivial, known=self.known, loglen=len(self.log))


def execute(prop, scenario, want_log=False):
    """Run a scenario in this process."""
    res = Result()
    prop.run(scenario, res)
    out = res.pack()
    if res.patch and out["violation"]:
        out["patch"] = res.patch
    if want_log:
        out["full_log"] = res.log
    return out


def _child(prop, make, fd, want_log):
    """Body of a forked run."""
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        try:
            scn = make()
            out = execute(prop, scn, want_log)
            out["scenario_digest"] = digest(scn)
            if out["violation"] or want_log:
                out["scenario"] = dict(scn, **out.get("patch", {}))
            out["ok"] = True
        except BaseException as e:      # noqa
            out = {"ok": False, "error": "".join(traceback.format_exception(e))[-3000:]}
        data = json.dumps(out, default=str).encode()
        data = struct.pack("!Q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]
    finally:
        os._exit(0)


class Pool:
    """Runs jobs in forked children, `workers` at a time; results in completion order."""

    def __init__(self, prop, workers, limit):
        self.prop, self.workers, self.limit = prop, workers, limit

    def map(self, jobs, stop=None, want_log=False, abandon=None):
        """jobs: iterator of (key, make_scenario). Yields (key, out). stop: start no more; abandon: wait no longer."""
        sel = selectors.DefaultSelector()
        live = {}
        it = iter(jobs)
        exhausted = False
        try:
            while True:
                while not exhausted and len(live) < self.workers:
                    if stop and stop():
                        exhausted = True
                        break
                    try:
                        key, make = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    r, w = os.pipe()
                    sys.stdout.flush()
                    sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        os.setpgid(0, 0)
                        os.close(r)
                        _child(self.prop, make, w, want_log)
                    os.close(w)
                    live[r] = [pid, key, b"", real_time()]
                    sel.register(r, selectors.EVENT_READ)
                if not live:
                    return
                if abandon and abandon():
                    return
                for sk, _ in sel.select(timeout=1.0):
                    r = sk.fd
                    chunk = os.read(r, 1 << 20)
                    ent = live[r]
                    if chunk:
                        ent[2] += chunk
                        continue
                    sel.unregister(r)
                    os.close(r)
                    del live[r]
                    self._kill(ent[0])
                    yield ent[1], self._decode(ent[2])
                now = real_time()
                for r, ent in list(live.items()):
                    if now - ent[3] > self.limit:
                        sel.unregister(r)
                        os.close(r)
                        del live[r]
                        self._kill(ent[0])
                        yield ent[1], {"ok": False, "error": f"run exceeded {self.limit} s", "hang": True}
        finally:
            for r, ent in live.items():
                self._kill(ent[0])
                os.close(r)

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass

    @staticmethod
    def _decode(buf):
        if len(buf) < 8:
            return {"ok": False, "error": "run died without a result"}
        n = struct.unpack("!Q", buf[:8])[0]
        if len(buf) < 8 + n:
            return {"ok": False, "error": "run died while reporting"}
        return json.loads(buf[8:8 + n])


# ------------------------------------------------------------------------------ minimisation
def shrink_generic(scn):
    """Smaller scenarios: drop chunks of list fields named in scn['_lists'] (default ops, faults)."""
    for field in scn.get("_lists", ["ops", "faults", "switches"]):
        seq = scn.get(field)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                yield {**scn, field: seq[:i] + seq[i + size:]}
            if size == 1 or n // size > 64:     # long lists get shorter first
                break
            size //= 2
    # simpler numbers in ops
    for i, op in enumerate(scn.get("ops", [])):
        if not isinstance(op, dict):
            continue
        for k, v in op.items():
            if k.startswith("_"):
                continue
            for simple in _simpler(k, v):
                c = copy.deepcopy(scn)
                c["ops"][i][k] = simple
                yield c


def _simpler(k, v):
    if isinstance(v, float) and v != 0 and len(repr(v)) > 4 and k not in ("E", "ratio"):
        r = float(f"{v:.1g}")
        if r != v and r != 0:
            yield r
    if k == "layers" and isinstance(v, list) and len(v) > 1:
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
    if k == "phi" and v not in (0, 0.0, 30.0):
        yield 30.0
    if k == "update" and v is False:
        yield True


def minimise(prop, scn, kind, workers, limit, budget=60):
    budget = float(os.environ.get("VERIF_MINIMISE", budget))
    t0 = real_time()
    shrink = getattr(prop, "shrink", shrink_generic)
    tried = 0
    improved = True
    while improved and real_time() - t0 < budget:
        improved = False
        cands = iter(shrink(scn))
        while real_time() - t0 < budget:
            batch = list(itertools.islice(cands, workers))
            if not batch:
                break
            outs = {}
            for key, out in Pool(prop, workers, min(limit, 60)).map(((i, lambda c=c: c) for i, c in enumerate(batch)),
                                                                   abandon=lambda: real_time() - t0 > budget + 20):
                outs[key] = out
            tried += len(batch)
            hit = [i for i in sorted(outs) if outs[i].get("ok") and outs[i]["violation"]
                   and outs[i]["violation"]["kind"] == kind]
            if hit:
                scn = batch[hit[0]]
                improved = True
                break
    return scn, tried


# ------------------------------------------------------------------------------ driver
def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def check(pid, tier, seed, workers=None, runs=None):
    t0 = real_time()
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    prop = importlib.import_module("props." + pid.lower())
    plan = prop.PLAN[tier]
    n = runs or plan["runs"]
    cap = plan.get("cap", 150 if tier == "quick" else 3000)
    limit = plan.get("limit", 240)
    prop.setup(tier) if hasattr(prop, "setup") else None
    t_ready = real_time()

    def make(i):
        def f():
            rng = random.Random(run_seed(seed, pid, i))
            scn = prop.gen(rng, tier, i)
            scn["_seed"] = [seed, i]
            return scn
        return f
    agg = dict(n={}, faults={}, states=set(), sim=0.0, scn=set(), nontrivial=0, done=0, loglen=0)
    digests = {}
    viol, errors, known = [], [], {}
    truncated = False

    def stop():
        nonlocal truncated
        if viol and (len(viol) >= 3 or real_time() - t0 > 20):
            return True
        if len(errors) >= max(3, n // 10):
            return True
        if real_time() - t0 > cap:
            truncated = True
            return True
        return False

    def abandon():
        return bool(viol) and real_time() - t0 > 30 and real_time() - found[0] > 15
    found = [0]
    for i, out in Pool(prop, workers, limit).map(((i, make(i)) for i in range(n)), stop, abandon=abandon):
        if not out.get("ok"):
            errors.append((i, out["error"]))
            continue
        agg["done"] += 1
        digests[i] = out["log"]
        for k, v in out["n"].items():
            agg["n"][k] = agg["n"].get(k, 0) + v
        for k, v in out["faults"].items():
            agg["faults"][k] = agg["faults"].get(k, 0) + v
        agg["states"].update(out["states"])
        agg["sim"] += out["simtime"]
        agg["loglen"] += out["loglen"]
        if out["nontrivial"] and out["scenario_digest"] not in agg["scn"]:
            agg["nontrivial"] += 1
        agg["scn"].add(out["scenario_digest"])
        for k in out["known"]:
            known[k] = known.get(k, 0) + 1
        if out["violation"]:
            found[0] = found[0] or real_time()
            viol.append((i, out))
    t_search = real_time() - t_ready
    findings = known_findings(pid)
    probe = getattr(prop, "probe_findings", None)
    if probe and findings:
        for k in probe():
            known[k] = known.get(k, 0) + 1
    for f in findings:
        if f["id"] in known:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    unlisted = [k for k in known if k not in {f["id"] for f in findings}]
    status = 0
    viol.sort(key=lambda v: v[0])
    if viol:
        status = report(pid, prop, tier, seed, viol, workers, limit)
    elif unlisted:
        print(f"HARNESS-ERROR property={pid}: unlisted finding ids {unlisted}", file=sys.stderr)
        status = 2
    elif errors:
        i, e = errors[0]
        print(f"HARNESS-ERROR property={pid} run={i}\n{e}", file=sys.stderr)
        status = 2
    elif agg["done"] < min(n, plan.get("min_runs", max(4, n // 20))):
        print(f"HARNESS-ERROR property={pid}: only {agg['done']} of {n} runs finished", file=sys.stderr)
        status = 2
    elif agg["nontrivial"] < plan.get("min_nontrivial", agg["done"] // 20):
        print(f"HARNESS-ERROR property={pid}: vacuous, only {agg['nontrivial']} non-trivial runs", file=sys.stderr)
        status = 2
    wall = real_time() - t0
    sample_i = sorted(digests)[:2]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.LEVEL,
        coverage=dict(
            evaluations=agg["done"], distinct_nontrivial=agg["nontrivial"], rule=prop.RULE,
            samples=[make(i)() for i in sample_i],
            runs_planned=n, truncated_by_time=truncated,
            runs_per_hour=round(agg["done"] / max(t_search, 1e-9) * 3600),
            simulated_time_s=round(agg["sim"], 3),
            faults_fired=dict(sorted(agg["faults"].items())),
            probes=dict(sorted(agg["n"].items())),
            distinct_states=len(agg["states"]), state_measure=prop.STATE_MEASURE,
            log_events=agg["loglen"],
            log_digest=digest([digests[i] for i in sorted(digests)]),
            workers=workers, real_code=prop.REAL, stubs=prop.STUBS, exhaustive=False),
        assumptions=prop.ASSUMPTIONS, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))
    print(f"{pid} {tier} seed={seed}: {agg['done']}/{n} runs, {agg['nontrivial']} distinct non-trivial, "
          f"{len(agg['states'])} states, faults={sum(agg['faults'].values())}, "
          f"digest={ev['coverage']['log_digest']}, {wall:.1f} s"
          + (" [TRUNCATED]" if truncated else "") + f" -> exit {status}")
    if hasattr(prop, "teardown"):
        prop.teardown()
    return status


def report(pid, prop, tier, seed, viol, workers, limit):
    """Minimise, write and verify the replay file of the first violation that can be replayed."""
    txt = ""
    for nth, (i, out) in enumerate(viol[:3]):
        kind = out["violation"]["kind"]
        scn, tried = minimise(prop, out["scenario"], kind, workers, limit,
                              budget=(60 if tier == "quick" else 180) if nth == 0 else 20)
        for cand in (scn, out["scenario"]):
            final = next(Pool(prop, 1, limit).map([(0, lambda c=cand: c)], want_log=True))[1]
            if not final.get("ok") or not final["violation"]:
                continue
            path = write_replay(pid, tier, seed, i, cand, final, tried)
            how, txt = verify_replay(pid, path)
            if how:
                print(f"seed={seed} run={i} kind={final['violation']['kind']}"
                      + ("" if how == "exact" else " (violation reproduced, the log of the run differs)"))
                print(f"detail: {final['violation']['detail']}")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
    print(f"HARNESS-ERROR property={pid}: violation of run {viol[0][0]} ({viol[0][1]['violation']}) did not replay\n{txt}",
          file=sys.stderr)
    return 2


def write_replay(pid, tier, seed, i, scn, out, tried):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, run=i, scenario=scn,
                       violation=out.get("violation"), log_digest=out.get("log"),
                       log=out.get("full_log"), minimisation_candidates=tried), f, indent=1, default=str)
    return path


def verify_replay(pid, path):
    """'exact' if a new process reproduces the violation with the same log, 'same' if only the violation."""
    how, txt = "", ""
    for _ in range(3):
        p = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), "--property", pid, "--replay", path],
                           capture_output=True, text=True, timeout=600, check=False)
        txt = p.stdout[-2000:] + p.stderr[-2000:]
        if p.returncode == 1 and "REPRODUCED-EXACTLY" in p.stdout:
            return "exact", txt
        if p.returncode == 1 and "REPRODUCED (different log)" in p.stdout:
            how = "same"
    return how, txt


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    prop = importlib.import_module("props." + pid.lower())
    prop.setup(d.get("tier", "quick")) if hasattr(prop, "setup") else None
    out = next(Pool(prop, 1, 900).map([(0, lambda: d["scenario"])], want_log=True))[1]
    if hasattr(prop, "teardown"):
        prop.teardown()
    if not out.get("ok"):
        print("HARNESS-ERROR " + out["error"], file=sys.stderr)
        return 2
    v = out["violation"]
    if v is None:
        print("not reproduced: the run shows no violation")
        return 0
    same = v["kind"] == d["violation"]["kind"] and v["detail"] == d["violation"]["detail"] and out["log"] == d["log_digest"]
    for line in out.get("full_log", [])[-40:]:
        print("  log:", jdump(line)[:300])
    print("kind:", v["kind"])
    print("detail:", v["detail"])
    print("REPRODUCED-EXACTLY" if same else "REPRODUCED (different log)")
    print(f"VIOLATION property={pid} replay={path}")
    return 1
