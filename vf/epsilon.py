"""Definition of the neutrality error and its norms, straight from Epsilon.tla, for real data."""
import math
import numpy as np


def fd(eos, s, t, p, hs=1e-3, ht=1e-3):
    rs = (eos(s + hs, t, p) - eos(s - hs, t, p)) / (2 * hs)
    rt = (eos(s, t + ht, p) - eos(s, t - ht, p)) / (2 * ht)
    return float(rs), float(rt)


def errors(s, t, p, edges, eos=None, s_t=None):
    """edge differences (not divided by length)"""
    s, t, p = (np.asarray(x, float).reshape(-1) for x in (s, t, p))
    out, scale = [], []
    for a, b in zip(*edges):
        if not (np.isfinite(p[a]) and np.isfinite(p[b])):
            out.append(np.nan); scale.append(np.nan)
            continue
        m = 0.5 * (s[a] + s[b]), 0.5 * (t[a] + t[b]), 0.5 * (p[a] + p[b])
        rs, rt = fd(eos, *m) if s_t is None else s_t(*m)
        x, y = rs * (s[b] - s[a]), rt * (t[b] - t[a])
        out.append(x + y); scale.append(abs(x) + abs(y))
    return np.array(out), np.array(scale)


def norms(e, scale, dist, perp):
    n = len(e)
    d, w = np.broadcast_to(np.asarray(dist, float), n), np.broadcast_to(np.asarray(perp, float), n)
    ok = np.isfinite(e)
    if not ok.any():
        return 0.0, 0.0, 0.0
    A = np.sum((d * w)[ok])
    g = e[ok] / d[ok]
    sc = np.max(scale[ok] / d[ok])
    return math.sqrt(np.sum((d * w)[ok] * g * g) / A), np.sum((d * w)[ok] * abs(g)) / A, sc


def units(x, tol):
    return int(min(math.ceil(abs(x) / tol), 10 ** 6)) if np.isfinite(x) else 10 ** 6


def record(s, t, p, edges, eos, dist, perp, got_e, rms, mav, nwet, rel=1e-6, meta=None):
    e, sc = errors(s, t, p, edges, eos)
    R, M, S = norms(e, sc, dist, perp)
    d = np.broadcast_to(np.asarray(dist, float), len(e))
    de, en = [], []
    for k in range(len(e)):
        g = got_e[k]
        en.append(int(np.isfinite(g)))
        de.append(units(g - e[k] / d[k], rel * sc[k] / d[k] + 1e-300) if np.isfinite(g) and np.isfinite(e[k]) else 0)
    on = np.isfinite(np.asarray(p, float).reshape(-1)).astype(int).tolist()
    tol = rel * max(S, 0) + 1e-300
    return dict(tla=dict(on=on, edges=[[int(a) + 1, int(b) + 1] for a, b in zip(*edges)], en=en, de=de,
                         dr=units(rms - R, tol), dm=units(mav - M, tol), nw=int(nwet)),
                s=np.asarray(s), t=np.asarray(t), p=np.asarray(p), dist=dist, perp=perp, got_e=got_e, want_e=e, norms=[rms, mav], want=[R, M], meta=meta or {})
