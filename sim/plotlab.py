"""Plot requests, their pristine images, and seams into matplotlib."""
import functools
import hashlib
import io
import os
import shutil
import struct
import sys
import tempfile
import zlib

import numpy as np

from sim import env
weac, seams = env.load()
from sim import gen as G, session as S, runner, vfs  # noqa
from sim.alone import alone  # noqa
import matplotlib  # noqa
import matplotlib.pyplot as plt  # noqa
import matplotlib.figure  # noqa
import matplotlib.axes  # noqa
import matplotlib.backends.backend_agg as agg  # noqa
import weac.plot as wplot  # noqa
from PIL import Image  # noqa

DEFAULTS = {k: v for k, v in matplotlib.rcParamsDefault.items()
            if k not in matplotlib.style.core.STYLE_BLACKLIST and k != "backend"}

# ------------------------------------------------------------------------------- matplotlib seams
RENDER = [None]         # controller of rendering calls
SHOWN = []              # figures handed to the front end
SHOW_MODE = ["keep"]    # what the front end does with a shown figure
RECORD = [None]         # list collecting figure contents at save or show time
PYPLOT = ["figure", "gca", "axhline", "axvline", "plot", "contourf", "axis", "xlim", "ylim", "title", "colorbar",
          "savefig", "rc", "gcf", "subplots", "fill_betweenx", "text"]
AXES = ["plot", "text", "axhline", "axvline", "axvspan", "contourf", "set_xlabel", "set_ylabel", "twinx",
        "fill_betweenx", "set_aspect", "autoscale", "set_xlim", "set_ylim", "set_title"]
_done = False


def install():
    """Wrap the matplotlib entry points (pass-through while no controller is set)."""
    global _done
    if _done:
        return
    _done = True

    def wrap(owner, name, tag, repo_only):
        fn = owner.__dict__.get(name) if isinstance(owner, type) else getattr(owner, name, None)
        if fn is None and isinstance(owner, type):
            fn = getattr(owner, name, None)
        if fn is None:
            return

        @functools.wraps(fn)
        def wrapper(*a, **k):
            c = RENDER[0]
            if c is not None and (not repo_only or env.in_repo(sys._getframe(1).f_code)):
                c(tag + name)
            return fn(*a, **k)
        try:
            setattr(owner, name, wrapper)
        except (AttributeError, TypeError):
            pass
    for n in PYPLOT:
        wrap(plt, n, "plt.", True)
    for n in AXES:
        wrap(matplotlib.axes.Axes, n, "ax.", True)
    wrap(matplotlib.figure.Figure, "gca", "fig.", True)
    for n in ("draw_path", "draw_text", "draw_mathtext"):
        wrap(agg.RendererAgg, n, "agg.", False)
    for n in ("draw", "print_png"):
        wrap(agg.FigureCanvasAgg, n, "canvas.", False)

    def show(*a, **k):
        fig = plt.gcf() if plt.get_fignums() else None
        if RENDER[0] is not None:
            RENDER[0]("plt.show")
        if fig is None:
            SHOWN.append(None)
            return
        record(fig)
        SHOWN.append(pixels(fig))
        if SHOW_MODE[0] == "close":
            plt.close(fig)
    plt.show = show
    raw_savefig = matplotlib.figure.Figure.savefig

    @functools.wraps(raw_savefig)
    def savefig(self, *a, **k):
        record(self)
        return raw_savefig(self, *a, **k)
    matplotlib.figure.Figure.savefig = savefig


def record(fig):
    if RECORD[0] is not None:
        RECORD[0].append(content(fig))


def content(fig):
    """What a figure shows, by artists."""
    out = {"lines": [], "contours": [], "polys": [], "texts": [],
           "figure": (getattr(fig, "number", None), fig.get_label() if hasattr(fig, "get_label") else "")}
    for ax in fig.axes:
        for ln in ax.lines:
            out["lines"].append((np.ma.filled(np.ma.asarray(ln.get_xdata(orig=True), dtype=float), np.nan),
                                 np.ma.filled(np.ma.asarray(ln.get_ydata(orig=True), dtype=float), np.nan)))
        for c in ax.collections:
            if isinstance(c, matplotlib.contour.ContourSet):
                out["contours"].append((float(c.zmin), float(c.zmax), np.asarray(c.levels, float)))
            else:
                for p in c.get_paths():
                    out["polys"].append(np.asarray(p.vertices))
        out["texts"] += [t.get_text() for t in ax.texts] + [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
    return out


class RenderFault:
    """Raise at the n-th matplotlib call whose name starts with the tag."""

    EXC = {"memory": MemoryError, "runtime": RuntimeError, "value": ValueError, "overflow": OverflowError,
           "interrupt": KeyboardInterrupt, "linalg": np.linalg.LinAlgError}

    def __init__(self, tag, n, exc):
        self.tag, self.n, self.exc, self.i, self.fired = tag, n, exc, 0, None

    def __call__(self, name):
        if name.startswith(self.tag):
            i = self.i
            self.i += 1
            if i == self.n:
                self.fired = name
                raise self.EXC[self.exc](f"injected {self.exc} in {name}")


def gen_render_fault(rng, r=None):
    """A failure at a seeded matplotlib call (any call the request makes, a named call, or somewhere in drawing)."""
    calls = reference(r).get("calls", []) if r is not None else []
    if calls and rng.random() < 0.6:
        i = rng.randrange(len(calls))
        tag, n = calls[i], calls[:i].count(calls[i])
    elif rng.random() < 0.5:
        tag = rng.choice(["plt.colorbar", "plt.contourf", "plt.plot", "plt.figure", "plt.savefig", "plt.axis", "plt.title",
                          "ax.plot", "ax.text", "ax.axvspan", "ax.set_ylabel", "ax.fill_betweenx", "agg.draw_text",
                          "agg.draw_mathtext", "canvas.print_png", "canvas.draw", "plt.show"])
        n = rng.choice([0, 0, 1, 2])
    else:
        tag, n = rng.choice(["agg.", "plt.", "ax.", "canvas."]), rng.randint(0, 15)
    return {"tag": tag, "n": n, "exc": rng.choice(["memory", "runtime", "value", "overflow", "interrupt"])}


class RenderCount:
    def __init__(self):
        self.n = {}

    def __call__(self, name):
        t = name.split(".")[0] + "."
        self.n[t] = self.n.get(t, 0) + 1


# ------------------------------------------------------------------------------- images
def pixels(fig):
    """Rendered content of a figure, without touching pyplot's state."""
    canvas = fig.canvas
    canvas.draw()
    a = np.asarray(canvas.buffer_rgba())
    return hashlib.sha256(repr(a.shape).encode() + a.tobytes()).hexdigest()[:16]


def check_png(data):
    """None if the bytes are one complete PNG file, else what is wrong."""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        return "no PNG signature"
    i, idat, end, head = 8, b"", False, None
    while i < len(data):
        if i + 12 > len(data):
            return "truncated chunk header"
        n, typ = struct.unpack("!I4s", data[i:i + 8])
        body = data[i + 8:i + 8 + n]
        if len(body) < n or i + 12 + n > len(data):
            return f"truncated chunk {typ!r}"
        if zlib.crc32(typ + body) != struct.unpack("!I", data[i + 8 + n:i + 12 + n])[0]:
            return f"checksum of chunk {typ!r}"
        if typ == b"IHDR":
            head = struct.unpack("!IIBBBBB", body)
        elif typ == b"IDAT":
            idat += body
        i += 12 + n
        if typ == b"IEND":
            end = True
            break
    if not end:
        return "no end chunk"
    if i != len(data):
        return "data after the end chunk"
    if head is None:
        return "no header chunk"
    try:
        d = zlib.decompressobj()
        raw = d.decompress(idat)
        if not d.eof:
            return "incomplete image data"
    except zlib.error as e:
        return f"image data: {e}"
    if not raw:
        return "no image data"
    return None


def read_png(path):
    """Pixel digest of an image file; raises if it is not complete."""
    with seams.raw["open"](path, "rb") as f:
        data = f.read()
    err = check_png(data)
    if err:
        raise ValueError(err)
    with Image.open(io.BytesIO(data)) as im:
        a = np.asarray(im.convert("RGBA"))
    return hashlib.sha256(repr(a.shape).encode() + a.tobytes()).hexdigest()[:16]


def cmaps():
    """Signature of all registered colormaps."""
    h = hashlib.sha256()
    for n in sorted(matplotlib.colormaps):
        for c in (matplotlib.colormaps[n], getattr(plt.cm, n, None)):
            if c is None or not hasattr(c, "get_over"):
                continue
            h.update(repr((n, c.name, c.N, tuple(np.round(c(np.array([0.0, 0.31, 0.77, 1.0])), 9).ravel()),
                           tuple(c.get_over()), tuple(c.get_under()), tuple(c.get_bad()))).encode())
    return h.hexdigest()[:16]


def style_changes():
    """Style parameters that differ from matplotlib's defaults."""
    out = [k for k, v in DEFAULTS.items() if matplotlib.rcParams[k] != v]
    out += ["default " + k for k, v in DEFAULTS.items() if matplotlib.rcParamsDefault[k] != v]
    return out


# ------------------------------------------------------------------------------- requests
FIELDS = ["u", "w", "Sxx", "Txz", "Szz", "principal"]
PLOTS = ["profile", "deformed", "deformed", "disp", "forc", "stress", "crit", "err", "modes", "fea_disp", "fea_stress"]
_prepared = {}
_refs = {}


def gen_request(rng, fn=None):
    """A valid plot request: which function, of which model, with which arguments."""
    fn = fn or rng.choice(PLOTS)
    m = G.model(rng, td_prob=0.25)
    lay = [[G.uni(rng, 100, 400), G.uni(rng, 40, 150)] for _ in range(rng.choice([1, 2, 3]))]
    if fn.startswith("fea"):
        m["touchdown"] = False
    r = {"fn": fn, "model": m, "layers": lay, "weak": {"t": G.uni(rng, 12, 50), "E": G.uni(rng, 0.1, 1.0)},
         "p": G.load(rng, m["touchdown"]), "num": rng.choice([40, 60, 40, 60, 40, 60, 3, 12]),
         "seg": G.seg(rng, m["system"], m["touchdown"], 200), "case": rng.choice(["crack", "nocrack"])}
    if not m["touchdown"] and m["system"].strip("-") in ("pst", "vpst") and rng.random() < 0.3:
        # an almost completely cut column
        r["seg"]["a"] = G.r3(r["seg"]["L"] * rng.uniform(0.6, 0.98))
    if fn.startswith("fea"):
        r.update(num=rng.choice([250, 250, 50]), case="nocrack")
    if fn == "deformed":
        r["kw"] = {"field": rng.choice(FIELDS), "levels": rng.choice([10, 21]), "dz": rng.choice([20, 35]),
                   "scale": rng.choice([10, 50, 100, 500]), "dark": rng.random() < 0.3,
                   "normalize": rng.random() < 0.6}
        if rng.random() < 0.4:
            r["kw"]["window"] = G.uni(rng, 100, 500)
        if rng.random() < 0.4:
            r["kw"]["aspect"] = rng.choice([1, 3, 5])
        if rng.random() < 0.3:
            r["kw"]["pad"] = rng.choice([0.5, 5])
        if rng.random() < 0.5:
            r["kw"]["filename"] = rng.choice(["cont1", "deformed_a", "b.2", "my slab", "Schnitt Süd", "A", "x=1,y"])
    elif fn in ("disp", "forc", "stress"):
        r["i"] = rng.choice(["", "", 1, "_x", "0.5", " b", "ö"])
    elif fn == "err":
        r["mode"] = rng.choice([0, 1, 2])
    elif fn == "modes":
        r["kind"] = rng.choice(["inc", "dif"])
    return r


def name_of(r):
    fn = r["fn"]
    if fn == "profile":
        return "profile"
    if fn == "deformed":
        return r["kw"].get("filename", "cont")
    if fn in ("disp", "forc", "stress"):
        return fn + str(r["i"])
    return fn


def prepare(r):
    """Model, solution and segments of a request (built once per process)."""
    key = runner.digest({k: v for k, v in r.items() if k not in ("fn", "kw", "i", "mode", "kind")})
    if key in _prepared:
        return _prepared[key]
    m = r["model"]
    model = S.construct(weac, m, {"layers": r["layers"], "parameters": [6.5, 4.4, 0.25]})
    model.set_foundation_properties(update=True, **r["weak"])
    model.set_surface_load(r["p"])
    segs = model.calc_segments(**r["seg"])
    phi = r["seg"]["phi"]
    s = segs[r["case"]]
    C = model.assemble_and_solve(phi=phi, **s)
    x, z, xb = model.rasterize_solution(C=C, phi=phi, num=r["num"], **s)
    _prepared[key] = (model, s, phi, x, z, xb)
    return _prepared[key]


def curves(r):
    """Synthetic data of the plots that take no model."""
    da = np.linspace(20, 400, 60)
    G1 = np.vstack([np.sqrt(da) * 1e-5 * (1 + r["weak"]["E"]), np.sqrt(da) * 7e-6, np.sqrt(da) * 3e-6])
    G1[1:] *= 1 + r["weak"]["t"] * np.array([[0.01], [0.02]])
    return da, G1, G1 * 0.8


def fea(x, z, model):
    n = 150
    xs = np.linspace(np.nanmin(x), np.nanmax(x), n)
    c = np.linspace(0, 1, n)
    return np.column_stack([xs, 0.1 * c, 0.3 * c**2, 0.002 * c, 0.05 + c, 0.01 * np.sin(3 * c)])


def call(r, broken=None):
    """Issue the plot call of a request (optionally spoilt)."""
    fn = r["fn"]
    if fn in ("crit", "err", "modes"):
        da, G1, G2 = curves(r)
        if broken:
            G1 = G1[:, :-7]
            da = da if broken != "none" else None
        if fn == "crit":
            return wplot.stress_criteria(da, G1[0] * 1e5, li=np.array([100.0, 300.0]), mi=np.array([80]),
                                         ki=np.array([True, False]))
        if fn == "err":
            return wplot.err_comp(da, G1, G2 if not broken else G1, mode=r["mode"])
        return wplot.err_modes(da, G1, kind=r["kind"])
    model, s, phi, x, z, xb = prepare(r)
    if fn == "profile":
        if broken:
            bad = type("NoSlab", (), {"slab": np.array([[200.0]]) if broken != "none" else None})()
            return wplot.slab_profile(bad)
        return wplot.slab_profile(model)
    if broken == "shape":
        z = z[:, :-5]
    elif broken == "none":
        z = None
    if fn == "deformed":
        kw = dict(r["kw"])
        if broken == "request":
            kw["field"] = "Syy"
        return wplot.deformed(model, xsl=x, xwl=xb, z=z, phi=phi, **kw)
    if broken == "request":
        s = {k: v for k, v in s.items() if k != "ki"}
    if fn == "disp":
        return wplot.displacements(model, x, z, i=r["i"], **s)
    if fn == "forc":
        return wplot.section_forces(model, x, z, i=r["i"], **s)
    if fn == "stress":
        return wplot.stresses(model, xb, z, i=r["i"], **s)
    f = fea(x, z if z is not None else prepare(r)[4], model)
    if broken == "request":
        f = f[:, :2]
    if fn == "fea_disp":
        return wplot.fea_disp(model, x, z, f)
    return wplot.fea_stress(model, xb, z, f)


def expected(r):
    """Data the image of a request has to show: lines, and value ranges of contour fields."""
    fn = r["fn"]
    if fn in ("crit", "err", "modes"):
        da, G1, G2 = curves(r)
        if fn == "crit":
            return {"lines": [(da / 10, G1[0] * 1e5)]}
        if fn == "err":
            return {"lines": [(da / 10, 1e3 * G1[r["mode"]]), (da / 10, 1e3 * G2[r["mode"]])]}
        return {"lines": [(da / 10, 1e3 * G1[j]) for j in range(3)]}
    m, s, phi, x, z, xb = prepare(r)
    if fn == "profile":
        h = 0.0
        poly = []
        for rho, t, *_ in m.slab[::-1]:
            poly += [(rho, h), (rho, h + t)]
            h += t
        return {"poly": np.array(poly)}
    if fn == "disp":
        return {"lines": [(x / 10, m.u(z, z0=0, unit="mm")), (x / 10, -m.w(z, unit="mm")), (x / 10, m.psi(z, unit="degrees"))]}
    if fn == "forc":
        return {"lines": [(x / 10, m.N(z)), (x / 10, m.M(z)), (x / 10, m.V(z))]}
    if fn == "stress":
        return {"lines": [(xb / 10, m.tau(z, unit="kPa")), (xb / 10, m.sig(z, unit="kPa"))]}
    if fn in ("fea_disp", "fea_stress"):
        f = fea(x, z, m)
        if fn == "fea_disp":
            return {"lines": [(f[:, 0] / 10, -f[::-1, 1]), (f[:, 0] / 10, f[::-1, 2]),
                              (f[:, 0] / 10, np.rad2deg(f[::-1, 5])), (x / 10, m.u(z, z0=0)), (x / 10, -m.w(z)),
                              (x / 10, np.rad2deg(m.psi(z)))]}
        return {"lines": [(f[:, 0] / 10, 1e3 * f[::-1, 2]), (f[:, 0] / 10, 1e3 * f[::-1, 3]),
                          (xb / 10, m.tau(z, unit="kPa")), (xb / 10, m.sig(z, unit="kPa"))]}
    kw = r["kw"]
    fld, dz = kw["field"], kw["dz"]
    if fld in ("u", "w"):
        zi = m.get_zmesh(dz=dz)[:, 0]
        f = np.vstack([m.u(z, z0=q, unit="um") for q in zi]) if fld == "u" else m.w(z, unit="um")[None, :]
        w = f[-1]
    elif fld == "principal":
        f = m.principal_stress_slab(z, phi, dz=dz, val="max", unit="kPa", normalize=kw["normalize"])
        w = m.principal_stress_weaklayer(z, val="min", unit="kPa", normalize=kw["normalize"])
    else:
        f = getattr(m, fld)(z, phi, dz=dz, unit="kPa")
        w = {"Sxx": lambda: np.zeros(len(x)), "Txz": lambda: m.tau(z, unit="kPa"), "Szz": lambda: m.sig(z, unit="kPa")}[fld]()
        w = np.where(np.isnan(xb), np.nan, w)
    ranges = [(np.nanmin(f), np.nanmax(f))]
    if fld in ("u", "w"):
        ok = np.isfinite(xb)
        ranges.append((w.min(), w.max()))
    return {"ranges": ranges}


def content_problem(r, rec):
    """First part of the expected data that a recorded figure does not show."""
    want = expected(r)
    for x, y in want.get("lines", []):
        if not any(a.shape == np.shape(x) and b.shape == np.shape(y) and
                   np.allclose(a, x, rtol=1e-6, atol=1e-9, equal_nan=True) and
                   np.allclose(b[np.isfinite(a)], np.asarray(y)[np.isfinite(a)], rtol=1e-6, atol=1e-9, equal_nan=True)
                   for a, b in rec["lines"]):
            return "a requested curve is missing"
    for lo, hi in want.get("ranges", []):
        sc = max(abs(lo), abs(hi), 1e-9)
        if not any(abs(a - lo) < 1e-6 * sc and abs(b - hi) < 1e-6 * sc for a, b, _ in rec["contours"]):
            return f"no contour plot of a field with range [{lo:.6g}, {hi:.6g}]: {[c[:2] for c in rec['contours']]}"
    if "poly" in want:
        pts = want["poly"]
        if not any(all(np.any(np.all(np.isclose(p, q, rtol=1e-6), axis=1)) for q in pts) for p in rec["polys"]):
            return "the slab profile is missing"
    return None


def scratch():
    d = tempfile.mkdtemp(prefix="weacsim", dir=runner.SCRATCH)
    return os.path.realpath(d)


class workdir:
    """A scratch working directory, removed afterwards."""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = scratch()
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def reference(r, notebook=False):
    """Image of a request in a fresh process. Returns {"img", "problem"} or {"error"}."""
    key = runner.digest([r, notebook])
    if key not in _refs:
        _refs[key] = alone(lambda: _render(r, notebook))
    return _refs[key]


def _render(r, notebook):
    install()
    seams.NOTEBOOK[0] = notebook
    SHOW_MODE[0] = "keep"
    RECORD[0] = []
    names = []
    with workdir() as d:
        try:
            RENDER[0] = names.append
            call(r)
        except Exception as e:      # pylint: disable=broad-except
            return {"error": f"{type(e).__name__}: {e}"}
        finally:
            RENDER[0] = None
        # calls made by the code under test, and the figures it used
        more = {"calls": [n for n in names if not n.startswith("agg.")], "figs": sorted({c["figure"] for c in RECORD[0]}, key=str)}
        if notebook:
            return {"img": SHOWN[-1] if SHOWN else None, "problem": content_problem(r, RECORD[0][-1]) if RECORD[0] else "not shown",
                    **more}
        path = os.path.join(d, "plots", name_of(r) + ".png")
        try:
            img = read_png(path)
        except (OSError, ValueError) as e:
            return {"error": f"image: {e}"}
        return {"img": img, "problem": content_problem(r, RECORD[0][-1]) if RECORD[0] else None, **more}


def prerender(reqs, notebook=(False,), workers=8):
    """Fill the cache of pristine images, every image in a process of its own."""
    import pickle
    jobs = [(r, nb) for r in reqs for nb in notebook]
    jobs = [(r, nb) for r, nb in jobs if runner.digest([r, nb]) not in _refs]
    kids = []
    for w in range(min(workers, len(jobs))):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                for r, nb in jobs[w::workers]:
                    reference(r, nb)
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(_refs, f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            _refs.update(pickle.load(f))
        os.waitpid(pid, 0)


def catalogue(n, salt=0):
    """A fixed set of requests; several share a file name."""
    import random
    rng = random.Random(7919 + salt)
    return [gen_request(rng) for _ in range(n)]


def tree(root):
    """Content of a directory tree."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = "dir"
            else:
                with seams.raw["open"](p, "rb") as f:
                    out[rel] = hashlib.sha256(f.read()).hexdigest()[:16]
    return out


def attempt(fn, *a, **k):
    """Run a plot call; returns the exception it raised, or None."""
    try:
        fn(*a, **k)
    except KeyboardInterrupt as e:
        return e
    except Exception as e:      # pylint: disable=broad-except
        return e
    return None


def attempt_img(name):
    """Pixel digest of plots/<name>.png, or a description of what is wrong with it."""
    try:
        return read_png(os.path.join("plots", name + ".png"))
    except (OSError, ValueError, SyntaxError) as e:
        return f"no image: {e}"
