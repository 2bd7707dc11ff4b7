"""The criterion search (examples/criterion_check.py) as a system under simulation."""
import math

import numpy as np

from sim import env, ref, seams, session as S

ENVELOPES = ["adam_unpublished"] * 5 + ["schottner", "mede_s-RG1", "mede_s-RG2", "mede_s-FCDH"]
NAMES = ["result", "crack_length", "skier_weight", "skier", "C", "segments", "x_cm", "sigma", "tau", "iterations",
         "elapsed_times", "skier_weights", "crack_lengths", "self_collapse", "pure_stress", "critical_skier_weight",
         "g_delta", "dist_max", "g_delta_values", "dist_max_values"]
FORCE = ["skier_weight", "skier", "C", "segments", "x_cm", "sigma", "tau", "dist_max", "dist_min"]
COUPLED = "check_coupled_criterion_anticrack_nucleation"
MAX_SOLVES = 1100      # 51 + 5*51 solves for the force (twice: 612), 25*3 + 50*3 for the search, doublings of the weight


def problem(rng, fast=False):
    """Arguments of a coupled criterion search."""
    n = rng.randint(1, 4)
    prof = [[rng.choice([120, 150, 180, 210, 240, 300, 350]), rng.randint(30, 300 if n < 3 else 180)] for _ in range(n)]
    env_ = rng.choice(["adam_unpublished"] if fast else ENVELOPES)
    return dict(snow_profile=prof, phi=round(rng.choice([rng.uniform(-5, 60), rng.uniform(20, 45)]), 1),
                envelope=env_, scaling_factor=rng.choice([1, 1, .5, .8, 1.3]), E=rng.choice([.1, .25, .25, 1, 2]),
                order_of_magnitude=rng.choice([1, 3]), density=rng.choice([100, 180, 250, 350]),
                t=rng.choice([5, 10, 20, 30, 50]))


def kwargs(p, *names):
    return {k: p[k] for k in names}


def search(crit, p, weight=80, dampening=None, **over):
    """Coupled criterion search; the dampened one at the given level."""
    q = dict(p, **over)
    kw = kwargs(q, "envelope", "scaling_factor", "E", "order_of_magnitude", "density", "t")
    prof = [list(r) for r in q["snow_profile"]]
    if dampening is None:
        return getattr(crit, COUPLED)(prof, q["phi"], weight, **kw)
    return getattr(crit, COUPLED + "_dampened")(prof, q["phi"], weight, dampening=dampening, **kw)


def force(crit, p, li, ki, dampening=None, **over):
    q = dict(p, **over)
    kw = kwargs(q, "envelope", "scaling_factor", "E", "order_of_magnitude", "density", "t")
    prof = [list(r) for r in q["snow_profile"]]
    if dampening is None:
        return crit.find_minimum_force(prof, q["phi"], list(li), list(ki), **kw)
    return crit.find_minimum_force_dampened(prof, q["phi"], list(li), list(ki), dampening=dampening, **kw)


def model_key(skier):
    """What identifies the slab and weak layer of a returned model, by behaviour."""
    sg = skier.calc_segments(li=[3000., 200., 3000.], ki=[True, False, True], mi=[40., 0.],
                             k0=[True, True, True])["crack"]
    C = skier.assemble_and_solve(phi=20., **sg)
    return [float(skier.t), np.asarray(skier.z([500.0], C[:, [0]], 3000., 20., True)).tolist(),
            np.asarray(skier.gdif(C=C, phi=20., **sg)).tolist()]


def plain(out):
    """Comparable form of a search result (elapsed times left out)."""
    if isinstance(out, S.Failed):
        return out
    if len(out) == len(FORCE):
        return {n: (model_key(v) if n == "skier" else v) for n, v in zip(FORCE, out)}
    d = dict(zip(NAMES, out))
    d.pop("elapsed_times")
    d["skier"] = model_key(d["skier"])
    return d


def summary(out):
    """Small, stable part of a result for the log."""
    if isinstance(out, S.Failed):
        return out.type
    d = dict(zip(NAMES if len(out) == len(NAMES) else FORCE, out))
    return {k: (float(f"{float(d[k]):.7g}")) for k in ("crack_length", "skier_weight", "g_delta", "dist_max", "iterations")
            if k in d}


class Watch:
    """Counts model solves and hand-overs to the dampened searches; calls hooks on entry."""

    def __init__(self, crit, limit=None):
        self.crit, self.limit = crit, limit
        self.solves = 0
        self.entered = []
        self.on_enter = None
        self.saved = {}

    def __enter__(self):
        for n in (COUPLED + "_dampened", "find_minimum_force_dampened"):
            fn = getattr(self.crit, n)
            self.saved[n] = fn

            def wrapper(*a, _n=n, _fn=fn, **k):
                self.entered.append((_n, a, k))
                if self.on_enter:
                    self.on_enter(_n, a, k)
                return _fn(*a, **k)
            setattr(self.crit, n, wrapper)
        cls = self.crit.weac.Layered
        self.cls = cls
        self.orig = cls.__dict__.get("assemble_and_solve")
        base = cls.assemble_and_solve

        def solve(model, *a, **k):
            self.solves += 1
            if self.limit and self.solves > self.limit:
                raise Unbounded(f"more than {self.limit} model solves")
            return base(model, *a, **k)
        cls.assemble_and_solve = solve
        return self

    def __exit__(self, *a):
        for n, fn in self.saved.items():
            setattr(self.crit, n, fn)
        if self.orig is None:
            del self.cls.assemble_and_solve
        else:
            self.cls.assemble_and_solve = self.orig
        return False


class Unbounded(BaseException):
    pass


class Patch:
    """Temporarily replace an attribute of the criterion module."""

    def __init__(self, crit, name, make):
        self.crit, self.name, self.make = crit, name, make

    def __enter__(self):
        self.old = getattr(self.crit, self.name)
        setattr(self.crit, self.name, self.make(self.old))
        return self

    def __exit__(self, *a):
        setattr(self.crit, self.name, self.old)
        return False


# ------------------------------------------------------------------------------- oracles
def envelope_ref(crit, p, sigma, tau):
    """Stress envelope; the closed forms are evaluated independently."""
    s, t = np.abs(np.asarray(sigma, float)), np.abs(np.asarray(tau, float))
    if p["envelope"] == "adam_unpublished":
        n = 0.7 if p["scaling_factor"] > 1 else p["order_of_magnitude"]
        f = max(p["scaling_factor"], 0.55) ** n
        return (s / (6.16 * f)) ** 2 + (t / (5.09 * f)) ** 2
    if p["envelope"] == "schottner":
        sc = 2000 * 13 * (p["density"] / 916.7) ** p["order_of_magnitude"]
        return (s / sc) ** 2 + (t / (5.09 * sc / 6.16)) ** 2
    return crit.stress_envelope(s, t, **kwargs(p, "envelope", "scaling_factor", "order_of_magnitude", "density"))


def toughness_ref(g1, g2):
    """Energies in J/m^2."""
    return (abs(g1) / 0.56) ** 5 + (abs(g2) / 0.79) ** (1 / 0.45)


def slab_of(p):
    return ref.Slab(dict(layers=p["snow_profile"], nu_s=0.25, C0=6.5, C1=4.4, t=p["t"], E=p["E"], nu_w=0.25, p=0))


class Clock:
    """Simulated clock: every reading moves it as the seeded script says."""

    def __init__(self, script):
        self.mode, self.now, self.rng = script["mode"], script["start"], None
        import random
        self.rng = random.Random(script["seed"])
        self.reads = 0
        self.back = 0
        self.span = 0.0

    def read(self, name):
        self.reads += 1
        m = self.mode if self.mode != "mixed" else self.rng.choice(["slow", "stall", "back", "jump", "coarse", "normal"])
        d = {"normal": 0.04, "slow": self.rng.uniform(1, 5000), "stall": 0.0, "coarse": self.rng.choice([0, 0, 0, 1.0]),
             "back": -self.rng.uniform(0, 1e5), "jump": self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(0, 10)}[m]
        if name.startswith(("monotonic", "perf_counter", "process_time")):
            d = abs(d)
        self.back += d < 0
        self.span += abs(d)
        self.now += d
        return self.now

    def sleep(self, s):
        self.now += s
        self.span += s


def clock_script(rng):
    return dict(mode=rng.choice(["normal", "slow", "stall", "back", "jump", "coarse", "mixed", "mixed"]),
                start=rng.choice([0.0, 1.7e9, 2.2e9, -1e6, 1e15]), seed=rng.randrange(1 << 30))


class use_clock:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.old = seams.CLOCK
        seams.CLOCK = self.clock

    def __exit__(self, *a):
        seams.CLOCK = self.old
        return False


def isnan(x):
    try:
        return math.isnan(x)
    except TypeError:
        return False
