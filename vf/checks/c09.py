"""C09: neutral links and neutral trajectories."""
import numpy as np
from vf.core import NANI
from vf.ref import ocean, Col
from vf import points


def casts():
    c = []
    for s, t, p in [(1, [9, 4], [4, 16]), (1, [9, 5, 1], [4, 8, 20]), (2, [12, 6, 1], [4, 10, 22]), (2, [10, 3], [8, 12]),
                    (3, [13, 7, 4, 0], [2, 6, 12, 24]), (1, [8, None, 2], [4, 8, 20]), (1, [None, 9, 3], [4, 8, 20]),
                    (1, [9, 4, None], [4, 8, 20]), (1, [None, 6, None], [4, 8, 20]), (1, [None, None], [4, 16]),
                    (0, [6, 9, 2, 5], [4, 8, 14, 20]), (1, [5, 5, 3], [4, 8, 20])]:
        c.append("[s |-> %d, t |-> <<%s>>, p |-> <<%s>>]" % (s, ", ".join("NaNI" if x is None else str(x) for x in t), ", ".join(map(str, p))))
    return c


def run(ctx):
    q = ctx.quick
    C = casts()
    tr = ctx.gen("Neutral", dict(Casts="{" + ", ".join(C) + "}", NCasts=3, Starts="{<<4, 1>>, <<9, 1>>, <<13, 2>>, <<30, 1>>, <<1, 1>>}"),
                 inv=("Inv", "Emitted"), name="traj", workers=6)
    base = dict(NN="{1, 2, 3, 4}", Gaps="{4, 12}", Temps="{0, 3, 7}", Sals="{1, 2}", PMiss="{{}, {1}, {2}, {4}}", Bots="{<<1, 3, 8>>, <<2, 2, 40>>}")
    if not q:
        base.update(Temps="{0, 3, 7, 11}", Sals="{0, 1, 2}", Bots="{<<1, 3, 8>>, <<2, 2, 40>>, <<1, 0, 4>>, <<3, 9, 0>>}", PMiss="SUBSET {1, 2, 3, 4}")
    ln = ctx.gen("Link", base, inv=("Inv", "Emitted"), name="link", workers=4)
    from neutralocean.traj import ntp_bottle_to_cast, neutral_trajectory
    from neutralocean.eos import make_eos
    from vf.toy import eos_p8, eos_p800
    n, recs = 0, []

    def f(a):
        a = np.array(a, float); a[a == NANI] = np.nan
        return a
    # single links
    cases = ln()
    ctx.sample(cases[len(cases) // 2])
    for j, c in enumerate(cases):
        T, P = f(c["t"]), f(c["p"])
        S = np.where(np.isfinite(T), float(c["s"]), np.nan)
        b = [float(x) for x in c["b"]]
        tol = (1e-4, 1e-9, 0.5)[j % 3]
        interp = "linear" if j % 7 else "pchip"
        if j % 5 == 2 and interp == "linear":      # the same in units a hundred times smaller
            s, t, p = ntp_bottle_to_cast(b[0], b[1], 100 * b[2], S, T, 100 * P, tol_p=100 * tol, interp=interp, eos=eos_p800)
            p = p / 100
        else:
            s, t, p = ntp_bottle_to_cast(*b, S, T, P, tol_p=tol, interp=interp, eos=eos_p8)
        n += 1
        why = None
        if np.isnan(p):
            if c["must"]:
                why = "PresentIfBracketed"
        elif not c["zeros"]:
            why = "AbsentIfNowhere"
        elif interp == "linear" and not any(x[0] / x[1] - 2 * tol - 1e-8 <= p <= y[0] / y[1] + 2 * tol + 1e-8 for x, y in c["zeros"]):
            why = "OnIsovalue"
        if np.isnan(s) != np.isnan(p) or np.isnan(t) != np.isnan(p):
            why = "SharedNaN"
        if why and not (interp == "pchip" and why == "AbsentIfNowhere"):
            ctx.fail("link:" + why, dict(case=c, interp=interp, got=[s, t, p]))
        if interp == "pchip" or j % 13 == 0:
            res = lambda a, bb, x: float(eos_p8(b[0], b[1], (x + b[2]) / 2) - eos_p8(a, bb, (x + b[2]) / 2))
            recs.append(points.record(S, T, P, s, t, p, res, 2 * tol + 1e-8, interp, meta=dict(bottle=b)))
    ctx.note("toy_links", n)
    # trajectories: the code's answer must be one of the model's behaviours
    want = {}
    for c in tr():
        want.setdefault(repr((c["c"], c["p0"])), []).append(c)
    nt = 0
    for j, (k, cs) in enumerate(sorted(want.items())):
        c = cs[0]
        if any(x["wide"] for x in cs):
            continue
        nk = max(len(x["p"]) for x in c["c"])
        S, T, P = (np.full((3, nk), np.nan) for _ in range(3))
        for i, x in enumerate(c["c"]):
            P[i, :len(x["p"])] = x["p"]
            P[i, len(x["p"]):] = x["p"][-1] + 1 + np.arange(nk - len(x["p"]))
            T[i, :len(x["p"])] = f(x["t"])
            S[i] = np.where(np.isfinite(T[i]), float(x["s"]), np.nan)
        p0 = c["p0"][0] / c["p0"][1]
        s, t, p = neutral_trajectory(S, T, P, p0, tol_p=1e-10, eos=eos_p8)
        nt += 1

        def ok(x):
            w = np.array([a[0] / a[1] if a else np.nan for a in x["p"]]); v = np.array([a[0] / a[1] if a else np.nan for a in x["t"]])
            w_s = np.array([float(y["s"]) if a else np.nan for y, a in zip(x["c"], x["p"])])
            return all(np.allclose(g, h, rtol=0, atol=1e-6, equal_nan=True) for g, h in ((p, w), (t, v), (s, w_s)))
        if not any(ok(x) for x in cs) or (np.isfinite(p[0]) and p[0] != p0):
            ctx.fail("trajectory", dict(case=c, got=dict(s=s, t=t, p=p), allowed=[x["p"] for x in cs]))
    ctx.note("toy_trajectories", nt)
    k1 = ctx.trace("PointTrace", recs)
    # real equations of state
    rng = np.random.default_rng(ctx.seed + 9)
    trs = []
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip"), ("gsw", None, None, "pchip")]
    if not q:
        cfgs += [("jmdfwg06", None, None, "linear"), ("jmd95", None, None, "linear"), ("gsw", 9.8, 1035.0, "pchip")]
    nl = 0
    for name, grav, rho_c, interp in cfgs:
        e = make_eos(name, grav, rho_c)
        for rep in range(60 if q else 300):
            nc = int(rng.integers(2, 9))
            S, T, P = ocean(rng, nc, 9, masks=["full", "full", "full", "full", "top", "floor", "hole"] if rep % 3 else ["full"] * 8 + ["land", "single", "pair"],
                            noise=0.5 if rep % 4 == 3 else 0.0, shared_p=rep % 5 == 0, like=(0.95, 0.0, 0.9)[rep % 3], pnan=True)
            c0 = Col(S[0], T[0], P[0], interp)
            p0 = float(rng.uniform(P[0, 0] - 50, P[0, -1] + 50)) if rep % 6 == 0 or not c0.ok else float(rng.uniform(c0.P[0], max(min(c0.P[-1], 1200.0), c0.P[0])))
            if rep % 10 == 9 and c0.ok:
                p0 = float(c0.P[0] if rep % 20 == 9 else c0.P[-1])
            tol = (1e-4, 1e-7, 1e-1)[rep % 3]
            kw = dict(tol_p=tol, interp=interp, eos=name, grav=grav, rho_c=rho_c)
            if rep % 3 == 0:                     # the documented defaults
                for k, v in dict(tol_p=1e-4, interp="linear", eos="gsw", grav=None, rho_c=None).items():
                    if kw[k] == v:
                        del kw[k]
            s, t, p = neutral_trajectory(S, T, P, p0, **kw)
            steps = []
            for i in range(nc):
                own = i == 0 or not np.isfinite(p[i - 1])
                res = None if own else (lambda a, b, x, i=i: float(e(s[i - 1], t[i - 1], (x + p[i - 1]) / 2) - e(a, b, (x + p[i - 1]) / 2)))
                steps.append(points.record(S[i], T[i], P[i], s[i], t[i], p[i], res, 2 * tol + 2e-5, interp, own=own)["tla"])
            trs.append(dict(tla=dict(steps=steps, inside=bool(c0.inside(p0)), same=bool(p[0] == p0)), S=S, T=T, P=P, p0=p0, got=[s, t, p], meta=[name, grav, interp]))
            nl += int(np.isfinite(p).sum())
        if name == "gsw" and interp == "linear":   # links from arbitrary bottles, by name
            S, T, P = ocean(rng, 150, 9, pnan=True)
            rr = []
            for i in range(150):
                b = [34.5 + 0.5 * rng.random(), 3 + 5 * rng.random(), float(rng.uniform(0, 4000))]
                s, t, p = ntp_bottle_to_cast(*b, S[i], T[i], P[i], eos=name, interp=interp)
                res = lambda a, bb, x: float(e(b[0], b[1], (x + b[2]) / 2) - e(a, bb, (x + b[2]) / 2))
                rr.append(points.record(S[i], T[i], P[i], s, t, p, res, 2.2e-4, interp, meta=dict(bottle=b)))
            k1 += ctx.trace("PointTrace", rr)
    ctx.note("real_trajectory_points", nl)
    k2 = ctx.trace("TrajTrace", trs)
    ctx.validated = n + nt + k1 + k2
