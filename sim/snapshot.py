"""Saving and restoring a model together with what its user keeps beside it."""
import copy
import pickle

from sim import session as S

FIELDS = ("m", "ctor", "cfg", "segs", "phi", "dirty", "stale", "free")


def save(r, protocol=4):
    """The saved file: model and segment lists, as a user would pickle them."""
    return pickle.dumps({"model": r.model, **{f: getattr(r, f) for f in FIELDS}}, protocol=protocol)


def _runner(weac, d):
    r = S.Runner.__new__(S.Runner)
    r.weac = weac
    r.model = d["model"]
    for f in FIELDS:
        setattr(r, f, d[f])
    return r


def restore(weac, blob):
    return _runner(weac, pickle.loads(blob))


def clone(weac, r):
    return _runner(weac, copy.deepcopy({"model": r.model, **{f: getattr(r, f) for f in FIELDS}}))


def perform(r, op):
    """One operation; exceptions become results without object references."""
    op = {k: v for k, v in op.items() if not k.startswith("_")}
    out = S.attempt(r.apply, op)
    if isinstance(out, S.Failed):
        return S.Failed(Exception(out.type))
    return out
