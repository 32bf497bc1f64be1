"""C18: the Veronis density."""
import math
import numpy as np
from vf.core import NANI
from vf.ref import ocean, Col
from vf.omega import rat

GX, GW = np.polynomial.legendre.leggauss(12)


def f(a):
    a = np.array(a, float); a[a == NANI] = np.nan
    return a


class Strat:
    """local stratification of a column, its integral and a bound on |f''|"""

    def __init__(self, col, es):
        self.c, self.es = col, es
        pchip = hasattr(col._s, "derivative")
        if pchip:
            ds, dt = col._s.derivative(), col._t.derivative()
            self.ds, self.dt = lambda i, p: float(ds(p)), lambda i, p: float(dt(p))
        else:
            sl = lambda y, i: (y[i + 1] - y[i]) / (col.P[i + 1] - col.P[i])
            self.ds, self.dt = lambda i, p: sl(col.S, i), lambda i, p: sl(col.T, i)

    def at(self, i, p):
        s, t = col_at(self.c, p)
        rs, rt = self.es(np.array([s]), np.array([t]), np.array([p]))
        return float(np.ravel(rs)[0] * self.ds(i, p) + np.ravel(rt)[0] * self.dt(i, p))

    def piece(self, i, a, b):
        m, h = (a + b) / 2, (b - a) / 2
        return h * sum(w * self.at(i, m + h * x) for x, w in zip(GX, GW))

    def integral(self, a, b):
        if a > b:
            return -self.integral(b, a)
        P = self.c.P
        return sum(self.piece(i, max(a, P[i]), min(b, P[i + 1])) for i in range(len(P) - 1) if max(a, P[i]) < min(b, P[i + 1]))

    def bound(self, a, b, dp):
        """sum over the touched pieces of length * max|f''| * dp^2 / 12 (a piece is integrated in full or by difference)"""
        a, b = min(a, b), max(a, b)
        P, tot = self.c.P, 0.0
        for i in range(len(P) - 1):
            if P[i + 1] < a or P[i] > b:
                continue
            L = P[i + 1] - P[i]
            x = np.linspace(P[i] + 1e-9 * L, P[i + 1] - 1e-9 * L, 9)
            y = np.array([self.at(i, q) for q in x])
            h = x[1] - x[0]
            f2 = np.max(abs(np.diff(y, 2))) / h ** 2
            tot += L * f2 * min(dp, L) ** 2 / 12
        return tot


def col_at(c, p):
    return float(c._s(p)), float(c._t(p))


def run(ctx):
    q = ctx.quick
    cfg = dict(NN="{3}" if q else "{2, 3, 4}", Gaps="{4, 8}", Bottles="{<<1, 6>>, <<2, 3>>, <<4, 1>>, NoB}", Sites="{3, 4, 6, 8, 11, 12, 16, 20, 22}" if q else "{3, 4, 5, 6, 8, 10, 12, 15, 16, 20, 22, 28}", Params="{<<0, 1>>, <<16, 3>>}")
    g = ctx.gen("Veronis", cfg, inv=("Inv", "Emitted"), workers=6)
    gl = ctx.gen("Veronis", dict(cfg, NN="{3}", Gaps="{4}", Sites="{4, 6, 12}", Params="{<<0, 1>>}"), inv=("Inv",), props=("Finishes",), workers=1, name="ver_live")
    from neutralocean.label import veronis
    from neutralocean.eos import make_eos, make_eos_s_t
    from vf.toy import eos_p8, eos_p8_s_t, eos_q, eos_q_s_t
    cases = g(); gl()
    ctx.sample(cases[len(cases) // 2])
    n, fin = 0, 0
    for ci, c in enumerate(cases):
        S, T, P = f(c["s"]), f(c["t"]), f(c["p"])
        kw = dict(p_ref=float(c["par"][0]), b=float(c["par"][1]), dp=[1.0, 3.0, 0.4, 50.0][ci % 4], eos=(eos_p8, eos_p8_s_t))
        if c["p0"] != NANI:
            kw["p0"] = float(c["p0"])
        if c["par"] == [0, 1] and ci % 3 == 0:
            kw.pop("p_ref"); kw.pop("b")
        keep = S.copy(), T.copy(), P.copy()
        got = float(veronis(float(c["p1"]), S, T, P, **kw))
        want = rat(c["val"])
        n += 1; fin += math.isfinite(want)
        if math.isnan(got) != math.isnan(want) or (math.isfinite(want) and abs(got - want) > 1e-8):
            ctx.fail("Value", dict(case=c, kw=str(kw), got=got, want=want))
        if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (S, T, P))):
            ctx.fail("InputsUnmodified", dict(case=c))
    ctx.note("toy_values", n); ctx.note("toy_finite", int(fin))
    rng = np.random.default_rng(ctx.seed + 18)
    recs = []

    def unit(x, tol):
        return int(min(math.ceil(abs(x) / tol - 1e-9), 10 ** 6)) if math.isfinite(x) else 10 ** 6

    def one(S, T, P, p0, p1, eos_, es, interp, dp, pref, b, floor, pm, **kwc):
        col = Col(S, T, P, interp)
        st0 = float(P[0]) if p0 is None else p0
        in0, in1 = bool(col.inside(st0)), bool(col.inside(p1))
        kw = dict(p_ref=pref, b=b, interp=interp, **kwc)
        V = lambda y, x, d=dp: float(veronis(y, S, T, P, p0=x, dp=d, **kw))
        v = V(p1, p0)
        r = dict(in0=in0, in1=in1, fin=math.isfinite(v), d=0, add=0, rev=0, conv=0)
        if in0 and in1 and math.isfinite(v):
            X = Strat(col, es)
            pot = lambda p: float(eos_(*col.at(p), pref))
            I = X.integral(st0, p1)
            bd = abs(b) * X.bound(st0, p1, dp) * 1.05 + floor
            r["d"] = unit(v - (pot(st0) + b * I), bd)
            if col.inside(pm):
                bm = abs(b) * (X.bound(st0, pm, dp) + X.bound(pm, p1, dp) + X.bound(st0, p1, dp)) * 1.05 + 3 * floor
                r["add"] = unit((V(pm, p0) - pot(st0)) + (V(p1, pm) - pot(pm)) - (v - pot(st0)), bm)
            r["rev"] = unit((V(st0, p1) - pot(p1)) + (v - pot(st0)), 2 * bd)
            r["conv"] = unit(V(p1, p0, dp / 4) - (pot(st0) + b * I), abs(b) * X.bound(st0, p1, dp / 4) * 1.05 + floor)
        recs.append(dict(tla=r, S=S, T=T, P=P, p0=p0, p1=p1, got=v, meta=dict(interp=interp, dp=dp, pref=pref, b=b, pm=pm, eos=str(kwc))))

    # the quadratic toy: the bound is attained when pieces are multiples of the step
    for rep in range(120 if q else 1000):
        nk = 5
        P = 4.0 + np.concatenate([[0], np.cumsum(rng.choice([4.0, 8.0], nk - 1))])
        S = np.cumsum(rng.choice([1.0, 2.0, 3.0], nk)); T = 9.0 - np.cumsum(rng.choice([0.0, 1.0, 2.0], nk))
        if rep % 4 == 1:
            S[0] = T[0] = np.nan
        if rep % 4 == 2:
            S[4] = T[4] = np.nan
        xs = [float(x) for x in np.concatenate([P, (P[1:] + P[:-1]) / 2, [P[-1] + 1.0, 3.0]])]
        p0 = None if rep % 3 == 0 else float(rng.choice(xs))
        p1 = float(rng.choice(xs))
        if rep % 2:                             # whole pieces only
            p0, p1 = (float(P[i]) for i in rng.choice([1, 2, 3], 2, replace=False))
        one(S, T, P, p0, p1, eos_q, eos_q_s_t, "linear", float([1.0, 3.0, 4.0, 5.0, 2.0, 5.5, 3.5][rep % 7]), 8.0, [1.0, -2.0][rep % 2], 1e-9, float(rng.choice(xs)), eos=(eos_q, eos_q_s_t))
    cfgs = [("gsw", None, None), ("jmd95", 9.81, 1027.5)] + ([] if q else [("jmdfwg06", None, None), ("jmd95", None, None)])
    for name, grav, rho_c in cfgs:
        eos, es = make_eos(name, grav, rho_c), make_eos_s_t(name, grav, rho_c)
        fl = 1e-9 if float(eos(35.0, 5.0, 0.0)) > 1 else 1e-15
        for interp in ("linear", "pchip"):
            if name == "gsw":           # the equation of state that need not be named
                S, T, P = (x[0] for x in ocean(rng, 1, 7, masks=["full"]))
                a, b = (float(veronis(float(P[4]) + 3.0, S, T, P, dp=20.0, interp=interp, **k)) for k in (dict(eos="gsw"), {}))
                if not a == b:
                    ctx.fail("DefaultEos", dict(S=S, T=T, P=P, got=b, want=a))
            for rep in range(14 if q else 80):
                S, T, P = (x[0] for x in ocean(rng, 1, 7, masks=["full", "full", "top", "floor", "hole", "pair", "single"], noise=0.2 * (rep % 2)))
                col = Col(S, T, P, interp)
                lo, hi = (col.P[0], col.P[-1]) if col.ok else (P[0], P[-1])
                pick = lambda: float([rng.uniform(lo, hi), rng.uniform(lo, hi), rng.choice(P), lo, hi, hi + 5.0, lo - 0.5][int(rng.integers(7))])
                one(S, T, P, None if rep % 4 == 0 else pick(), pick(), eos, es, interp, float(rng.choice([1.0, 20.0, 150.0, 5000.0])), float(rng.choice([0.0, 1500.0])), float(rng.choice([1.0, 0.7, -1.0])),
                    fl, float(rng.uniform(lo, hi)), eos=name, grav=grav, rho_c=rho_c)
    ctx.trace("VeronisTrace", recs)
    ctx.validated += n
    ctx.note("finite_records", sum(r["tla"]["fin"] for r in recs))
    ctx.assumptions += ["the quadrature is judged by the trapezoidal error bound for the requested step over the pieces touched"]
