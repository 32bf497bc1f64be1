"""Records for PointTrace.tla"""
import math
import numpy as np
from vf.core import fx, NANI
from vf.ref import Col


def sg(x):
    return 0 if not np.isfinite(x) else int(np.sign(x))


def record(S, T, P, s, t, p, resid, tol, interp="linear", own=False, atol=(1e-7, 1e-7), meta=None):
    """resid(s, t, p) -> residual; tol: pressure tolerance within which a sign change is required"""
    col = Col(S, T, P, interp)
    v = [int(np.isfinite(a) and np.isfinite(b)) for a, b in zip(S, P)]
    f = [sg(resid(S[i], T[i], P[i])) if v[i] and not own else 0 for i in range(len(v))]
    r, ds, dt = [0, 0, 0], 0, 0
    if np.isfinite(p):
        if col.inside(p):
            si, ti = col.at(p)
            ds, dt = (math.ceil(min(abs(a - b) / q, 1e6)) if np.isfinite(a) else 0 for a, b, q in ((s, si, atol[0]), (t, ti, atol[1])))
            if not own:
                lo, hi = max(p - tol, col.P[0]), min(p + tol, col.P[-1])
                xs = [lo, p, hi, 0.5 * (lo + p), 0.5 * (p + hi)] + [x for x in col.P if lo <= x <= hi]
                r = [sg(resid(*col.at(x), x)) for x in xs]
    return dict(tla=dict(v=v, x=[fx(a, 1e4) for a in P], p=fx(p, 1e4), sn=bool(np.isnan(s)), tn=bool(np.isnan(t)), f=f, r=r,
                         ds=int(ds), dt=int(dt), own=bool(own)),
                S=np.asarray(S), T=np.asarray(T), P=np.asarray(P), stp=[s, t, p], interp=interp, tol=tol, meta=meta or {})
