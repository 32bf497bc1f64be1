"""Reference helpers, independent of the code under test: first valid block, interpolation, oceans."""
import numpy as np
from scipy.interpolate import PchipInterpolator


def block(S, P):
    """[k, K): first unbroken run of bottles valid in S and P"""
    ok = np.isfinite(np.asarray(S, float)) & np.isfinite(np.asarray(P, float))
    n = len(ok)
    k = 0
    while k < n and not ok[k]:
        k += 1
    K = k
    while K < n and ok[K]:
        K += 1
    return k, K


class Col:
    """one water column's interpolants on its first valid block"""

    def __init__(self, S, T, P, interp="linear"):
        S, T, P = (np.asarray(x, float) for x in (S, T, P))
        self.k, self.K = block(S, P)
        self.ok = self.K - self.k >= 2
        self.P = P[self.k:self.K]
        self.S, self.T = S[self.k:self.K], T[self.k:self.K]
        if self.ok and interp == "pchip" and self.K - self.k > 2:
            self._s, self._t = PchipInterpolator(self.P, self.S, extrapolate=False), PchipInterpolator(self.P, self.T, extrapolate=False)
        else:
            self._s = lambda p: np.interp(p, self.P, self.S)
            self._t = lambda p: np.interp(p, self.P, self.T)

    def inside(self, p):
        return self.ok and self.P[0] <= p <= self.P[-1]

    def at(self, p):
        if not self.inside(p):
            return np.nan, np.nan
        return float(self._s(p)), float(self._t(p))


MASKS = ["full", "full", "full", "land", "top", "floor", "hole", "single", "topfloor", "pair"]


def ocean(rng, nc, nk, masks=MASKS, noise=0.0, shared_p=False, like=0.0, pnan=False):
    """pnan: missing data may be missing in the pressures (too).  nc random but stably stratified (if noise == 0) casts with NaN patterns; like -> 1: casts alike"""
    P = np.empty((nc, nk)); S = np.empty((nc, nk)); T = np.empty((nc, nk))
    q0 = None
    for c in range(nc):
        if c == 0 or not shared_p:
            g = rng.uniform(0.4, 1.6, nk)
            pp = np.cumsum(g) / g.sum() * rng.uniform(1500, 4500)
        P[c] = pp
        x = pp / 4000
        q = np.array([rng.uniform(10, 20), rng.uniform(3, 6), rng.uniform(0, 0.5), rng.uniform(0.2, 1.2), rng.uniform(1, 3), rng.uniform(0.0, 0.2)])
        q0 = q if q0 is None else q0
        q = (1 - like) * q + like * q0
        T[c] = 2 + q[0] * np.exp(-x * q[1]) - x * q[2]
        S[c] = 34.4 + q[3] * np.exp(-x * q[4]) + q[5] * x
        T[c] += noise * rng.standard_normal(nk); S[c] += 0.1 * noise * rng.standard_normal(nk)
        s0, t0 = S[c].copy(), T[c].copy()
        mask_cast(S[c], T[c], masks[int(rng.integers(len(masks)))], rng)
        if pnan and not shared_p and c % 3:
            P[c, np.isnan(S[c])] = np.nan
            if c % 3 == 2:
                S[c], T[c] = s0, t0
    return S, T, P


def mask_cast(S, T, m, rng):
    nk = len(S)
    v = np.ones(nk, bool)
    if m == "land":
        v[:] = False
    if m in ("top", "topfloor"):
        v[:int(rng.integers(1, nk // 2))] = False
    if m in ("floor", "topfloor"):
        v[int(rng.integers(nk // 2 + 1, nk)):] = False
    if m == "hole":
        v[int(rng.integers(2, nk - 2))] = False
    if m == "single":
        v[:] = False; v[int(rng.integers(nk))] = True
    if m == "pair":
        k = int(rng.integers(nk - 1)); v[:] = False; v[k:k + 2] = True
    S[~v] = np.nan; T[~v] = np.nan


def neutral_roots(eos, b, col, n=40):
    """pressures on `col` neutrally related to bottle b, by dense scanning and bisection; None if too close to call"""
    from scipy.optimize import brentq
    if not col.ok:
        return []
    r = lambda x: float(eos(b[0], b[1], 0.5 * (x + b[2])) - eos(*col.at(x), 0.5 * (x + b[2])))
    xs = np.unique(np.concatenate([np.linspace(col.P[0], col.P[-1], n), col.P]))
    v = np.array([r(x) for x in xs])
    sc = np.max(abs(v)) + 1e-300
    if min(abs(v[0]), abs(v[-1])) < 1e-7 * sc:
        return None
    return [brentq(r, xs[i], xs[i + 1], xtol=1e-10) for i in range(len(xs) - 1) if v[i] * v[i + 1] < 0]
