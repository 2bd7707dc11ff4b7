"""A fixed set of queries that fingerprints what a model answers."""
from sim import session as S


# public settings that no call is meant to change
SETTINGS = ("g", "lski", "tol", "system", "touchdown")


def battery(model, system, touchdown, seglist, full=True):
    """seglist: list of (segments, phi). Returns a nested structure of results (failures included)."""
    out = [{k: vars(model).get(k) for k in SETTINGS}]
    for segs, phi in seglist:
        if segs is None:
            continue
        qs = [{"k": "solve", "case": "crack", "num": 16}, {"k": "gdif", "case": "crack", "unit": "kJ/m^2"}]
        if full:
            qs += [{"k": "ginc"}, {"k": "field", "name": "dz_dxdx", "case": "nocrack", "num": 8},
                   {"k": "field", "name": "sig", "unit": "kPa", "case": "crack", "num": 8},
                   {"k": "field", "name": "tau", "unit": "MPa", "case": "crack", "num": 8},
                   {"k": "field", "name": "M", "case": "crack", "num": 8}]
        for q in qs:
            out.append(S.attempt(S.query, model, segs, phi, q))
    if full:
        out.append(S.attempt(S.query, model, None, 0, {"k": "load", "m": 80.0, "phi": 21.0}))
        out.append(S.attempt(S.query, model, None, 0, {"k": "zmesh", "dz": 20}))
    if touchdown and any(s[0] is not None for s in seglist):
        out.append(S.attempt(S.query, model, None, 0, {"k": "state"}))
        out.append(S.attempt(S.query, model, None, 0, {"k": "stiff", "L": 700.0, "support": "rested", "dof": "rot"}))
        out.append(S.attempt(S.query, model, None, 0, {"k": "stiff", "L": 900.0, "support": "supported", "dof": "trans"}))
        if full:
            out.append(S.attempt(S.query, model, None, 0, {"k": "thresholds"}))
    return out
