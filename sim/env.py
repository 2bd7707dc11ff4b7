"""Import environment: the code under test comes from WEAC_REPO (default /repo)."""
import os
import sys

REPO = os.path.realpath(os.environ.get("WEAC_REPO", "/repo"))
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
FIXED_ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
}
_REPO_PREFIX = REPO + os.sep
_code_cache = {}


def in_repo(code):
    """True if a code object belongs to the code under test."""
    r = _code_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = fn.startswith(_REPO_PREFIX) or os.path.realpath(fn).startswith(_REPO_PREFIX)
        _code_cache[code] = r
    return r


def load():
    """Install the seams and import the code under test. Returns (weac, seams)."""
    from sim import seams
    seams.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import weac
    assert os.path.realpath(weac.__file__).startswith(_REPO_PREFIX), weac.__file__
    seams.install_ids([m for k, m in list(sys.modules.items()) if k.split(".")[0] == "weac" and m is not None])
    return weac, seams


def load_criterion():
    """Import examples/criterion_check.py from the code under test."""
    import importlib.util
    path = os.path.join(REPO, "examples", "criterion_check.py")
    spec = importlib.util.spec_from_file_location("criterion_check", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["criterion_check"] = mod
    spec.loader.exec_module(mod)
    from sim import seams
    seams.install_ids([mod])
    return mod
