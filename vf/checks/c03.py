"""C03: every computed surface lies on the water columns, with one shared NaN mask."""
import numpy as np
from vf.core import NANI
from vf import omega as O, points
from vf.ref import ocean, Col
from vf.checks.c01 import arr


def run(ctx):
    q = ctx.quick
    cfg = O.configs(q)
    gens = {n: ctx.gen("Omega", cfg[n], inv=("Inv", "Emitted"), name="om_" + n, workers=3) for n in ("window", "region")}
    oc = ctx.gen("OnCast", dict(NN="{1, 2, 3, 4, 5}" if not q else "{1, 2, 3, 4}", Gaps="{4}" if q else "{4, 12}", Bottles="{<<0, 6>>, <<2, 3>>, <<1, 0>>, NoB}", PMiss="{{}, {2}, {1, 3}}",
                                Asks="{<<NaNI, 1>>, <<3, 1>>, <<4, 1>>, <<5, 1>>, <<8, 1>>, <<19, 2>>, <<12, 1>>, <<15, 1>>, <<16, 1>>, <<40, 1>>}"), inv=("Inv", "Emitted"), name="oncast", workers=4)
    iso = ctx.gen("Isopycnal", dict(NN="{1, 2, 3, 4}", Gaps="{4}", PMiss="{{}, {3}}", Kind='"potential"', Bottles="{<<0, 0>>, <<1, 3>>, <<3, 2>>, NoB}", Refs="{<<12, 0>>}", Isos="{-9, 3, 24}"),
                  inv=("Inv", "Emitted"), name="iso", workers=3)
    from neutralocean.surface import omega_surf, potential_surf, anomaly_surf
    from neutralocean.traj import neutral_trajectory
    from neutralocean.grid import rectilinear
    from vf.toy import eos_p8, eos_p8_s_t
    n, recs = 0, []

    def put(S, T, P, s, t, p, interp, meta, every=1):
        for i in range(0, len(p), every):
            recs.append(points.record(S[i], T[i], P[i], s[i], t[i], p[i], None, 0.0, interp, own=True, atol=(2e-9, 2e-8), meta=dict(meta, i=i)))

    # points asked for: an initial surface kept as it is (no iteration); the start of a trajectory
    by = {}
    for c in oc():
        by.setdefault(len(c["s"]), []).append(c)
    for nk, cs in by.items():
        S, T, P = (arr([c[x] for c in cs]) for x in "stp")
        ask = np.array([np.nan if c["ask"][0] == NANI else c["ask"][0] / c["ask"][1] for c in cs])
        want = [np.array([c["pt"][x][0] / c["pt"][x][1] if c["pt"] else np.nan for c in cs]) for x in range(3)]
        pin = int(np.nonzero(np.isfinite(want[2]))[0][0]) if np.isfinite(want[2]).any() else None
        edges = (np.arange(len(cs) - 1), np.arange(1, len(cs)))
        if pin is not None:
            for diags in (True, False):
                n += len(cs)
                got = omega_surf(S, T, P, dict(edges=edges), pin_cast=pin, p_init=ask.copy(), eos=(eos_p8, eos_p8_s_t), ITER_MAX=0, output=False, diags=diags)[:3]
                for x in range(3):
                    bad = ~np.isclose(got[x], want[x], rtol=0, atol=1e-12, equal_nan=True)
                    for i in np.nonzero(bad)[0][:3]:
                        ctx.fail("initial:" + "STP"[x], dict(case=cs[i], got=[g[i] for g in got]))
        for i in range(0, len(cs), 3 if q else 1):
            n += 1
            s, t, p = neutral_trajectory(S[[i, i]], T[[i, i]], P[[i, i]], float(ask[i]), eos=eos_p8)
            if not np.allclose([s[0], t[0], p[0]], [w[i] for w in want], rtol=0, atol=1e-12, equal_nan=True):
                ctx.fail("start", dict(case=cs[i], got=[s, t, p]))
        ctx.sample(cs[len(cs) // 2], 2)
    by = {}
    for c in iso():
        by.setdefault((len(c["s"]), c["iso"]), []).append(c)
    for (nk, iv), cs in by.items():
        S, T, P = (arr([c[x] for c in cs]) for x in "stp")
        for interp in ("linear", "pchip"):
            n += len(cs)
            s, t, p, _ = potential_surf(S, T, P, ref=12.0, isoval=1000 + iv / 8, eos=eos_p8, diags=False, interp=interp)
            put(S, T, P, s, t, p, interp, dict(kind="potential", toy=True), every=2)
    # omega surfaces of the model: on their columns after any number of iterations
    for name, g in gens.items():
        pin = int(cfg[name]["Pin"]) - 1
        for v, cs in enumerate(O.groups(g())):
            if cs[0]["out"] == "error":
                continue
            n += 1
            try:
                s, t, p, d = O.call(cs[0], variant=v, pin_cast=pin, imax=v % 4, TOL_P_SOLVER=(1e-10, 0.2)[v % 2], diags=bool(v % 3), OMEGA_FORMULATION=("poisson", "gradient")[v % 5 == 0])
            except Exception as e:
                ctx.fail("raised", dict(case=cs[0], error=repr(e)[:400]))
                continue
            S, T, P, _ = O.columns(cs[0], v)
            put(S, T, P, s, t, p, "linear", dict(kind="omega", toy=True, variant=v, case=dict(cs[0], hist=[])))
    ctx.note("toy_points", n)
    # the library's equations of state, every kind of surface
    rng = np.random.default_rng(ctx.seed + 3)
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    for name, grav, rho_c, interp in cfgs:
        com = dict(eos=name, grav=grav, rho_c=rho_c, interp=interp)
        for rep in range(16 if q else 120):
            ni, nj = [(4, 4), (3, 5), (2, 6)][rep % 3]
            S, T, P = ocean(rng, ni * nj, 8, noise=(0.0, 0.4)[rep % 3 == 2], like=(0.8, 0.3)[rep % 2], shared_p=rep % 5 == 0, pnan=True)
            pin = int(rng.integers(ni * nj))
            S[pin], T[pin], P[pin] = (x[0] for x in ocean(rng, 1, 8, masks=["full", "top", "floor"]))
            if rep % 5 == 0:
                P[:] = P[0]
            c = Col(S[pin], T[pin], P[pin], interp)
            pp = float(c.P[0] + rng.uniform(0.1, 0.6) * (c.P[-1] - c.P[0]))
            ix = tuple(int(x) for x in np.unravel_index(pin, (ni, nj)))
            grid = rectilinear.build_grid((ni, nj), (rep % 2 == 0, False))
            S3, T3, P3 = (x.reshape(ni, nj, 8) for x in (S, T, P))
            tol = (1e-4, 1e-1, 1e-7)[rep % 3]
            calls = []
            ref = float(rng.choice([0.0, 1500.0]))
            calls.append(("potential", lambda: potential_surf(S3, T3, P3, ref=ref, pin_cast=ix, pin_p=pp, grid=grid, output=False, TOL_P_SOLVER=tol, **com)))
            calls.append(("anomaly", lambda: anomaly_surf(S3, T3, P3, pin_cast=ix, pin_p=pp, diags=False, TOL_P_SOLVER=tol, **com)))
            init = np.full((ni, nj), pp) + rng.uniform(-300, 300, (ni, nj)); init[rng.random((ni, nj)) < 0.2] = np.nan; init[ix] = pp
            for k in range(3):
                kw = dict(p_init=init if k != 1 else pp, ITER_MAX=(0, 3, 4)[(rep + k) % 3], ITER_START_WETTING=(1, 2, 9)[(rep + k) % 3], OMEGA_FORMULATION=("poisson", "gradient")[k == 2],
                          p_ml=(None, dict(pot_dens_diff=0.1, ref_p=0.0, bottle_index=0), np.full((ni, nj), 150.0))[(rep + 2 * k) % 3])
                calls.append(("omega", lambda kw=kw: omega_surf(S3, T3, P3, grid, pin_cast=ix, output=False, diags=bool(k), TOL_P_SOLVER=tol, **kw, **com)))
            order = rng.permutation(ni * nj)
            calls.append(("trajectory", None))
            for kind, f in calls:
                try:
                    if f is None:
                        o = neutral_trajectory(S[order], T[order], P[order], float(Col(S[order[0]], T[order[0]], P[order[0]]).P[0] + 30) if Col(S[order[0]], T[order[0]], P[order[0]]).ok else 500.0, tol_p=tol, **com)
                        s, t, p = o
                        put(S[order], T[order], P[order], s, t, p, interp, dict(kind=kind, eos=name))
                        continue
                    s, t, p = (np.asarray(x).reshape(-1) for x in f()[:3])
                except Exception as e:
                    ctx.fail("raised", dict(kind=kind, S=S, T=T, P=P, pin=ix, pp=pp, error=repr(e)[:400]))
                    continue
                put(S, T, P, s, t, p, interp, dict(kind=kind, eos=name, grav=grav, pin=ix, pp=pp, rep=rep))
        # wetting alone: casts reached through several neutral links
        for rep in range(8 if q else 60):
            ni, nj = 5, 5
            S, T, P = ocean(rng, ni * nj, 8, masks=["full"] * 6 + ["top", "floor", "hole"], like=(0.9, 0.7)[rep % 2], shared_p=rep % 3 == 0, pnan=True)
            S[12], T[12], P[12] = (x[0] for x in ocean(rng, 1, 8, masks=["full"], like=0.0)) if rep % 4 == 3 else (S[12], T[12], P[12])
            c = Col(S[12], T[12], P[12], interp)
            if not c.ok:
                continue
            pp = float(c.P[0] + rng.uniform(0.1, 0.7) * (c.P[-1] - c.P[0]))
            try:
                o = omega_surf(*(x.reshape(ni, nj, 8) for x in (S, T, P)), rectilinear.build_grid((ni, nj), (rep % 2 == 0, True)), pin_cast=(2, 2), p_init=pp, ITER_MAX=0, output=False, diags=False, **com)
            except Exception as e:
                ctx.fail("raised", dict(kind="wetting", S=S, T=T, P=P, pp=pp, error=repr(e)[:400]))
                continue
            put(S, T, P, *(np.asarray(x).reshape(-1) for x in o[:3]), interp, dict(kind="wetting", eos=name, pp=pp))
    k = ctx.trace("PointTrace", recs)
    ctx.validated = n + k
    ctx.note("records", k)
