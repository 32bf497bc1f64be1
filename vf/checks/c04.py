"""C04: an omega surface passes exactly through its pinning point."""
import numpy as np
from vf.core import NANI, fx
from vf import omega as O
from vf.ref import ocean, Col


def run(ctx):
    q = ctx.quick
    cfg = O.configs(q)
    names = ("pin", "window", "stop")
    gens = {n: ctx.gen("Omega", cfg[n], inv=("Inv", "Emitted"), props=("Terminates",) if n == "pin" else (), name="om_" + n, workers=2) for n in names}
    from neutralocean.surface import omega_surf
    from neutralocean.grid import rectilinear
    n, recs = 0, []

    def rec(inside, raised, p, s, t, pin, pp, col, meta, **kw):
        a, b = col.at(pp) if inside else (np.nan, np.nan)
        recs.append(dict(tla=dict(inside=bool(inside), raised=bool(raised), exact=bool(not raised and p[pin] == pp),
                                  st=bool(not raised and abs(s[pin] - a) <= 1e-7 and abs(t[pin] - b) <= 1e-6)),
                         meta=meta, got=None if raised else [s[pin], t[pin], p[pin]], pin=pin, pp=pp, **kw))

    for name, g in gens.items():
        pin = int(cfg[name]["Pin"]) - 1
        G = O.groups(g())
        ctx.sample(G[0][0], 3)
        for v, cs in enumerate(G):
            c = cs[0]
            pp = c["ini"][0] if len(c["ini"]) == 1 else c["ini"][pin]
            pp = np.nan if pp == NANI else float(pp)
            for form, tol in (("poisson", 1e-10), ("gradient", 0.3)):
                S, T, P, _ = O.columns(c, v)
                n += 1
                raised, s, t, p = False, None, None, None
                try:
                    s, t, p, d = O.call(c, variant=v, pin_cast=pin if v % 2 else (pin,), OMEGA_FORMULATION=form, TOL_P_SOLVER=tol, diags=bool(v % 3))
                except Exception:
                    raised = True
                rec(c["out"] == "done", raised, p, s, t, pin, pp, Col(S[pin], T[pin], P[pin]), dict(form=form, tol=tol), case=dict(c, hist=[]))
    ctx.note("toy_runs", n)
    rng = np.random.default_rng(ctx.seed + 4)
    m = 0
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    for name, grav, rho_c, interp in cfgs:
        for rep in range(40 if q else 250):
            ni, nj = [(3, 3), (4, 3), (1, 4)][rep % 3]
            S, T, P = ocean(rng, ni * nj, 8, masks=["full"] * 4 + ["top", "floor", "hole", "land", "single"], like=0.7, shared_p=rep % 5 == 0)
            pin = int(rng.integers(ni * nj))
            if rep % 9:
                S[pin], T[pin], P[pin] = (x[0] for x in ocean(rng, 1, 8, masks=["full", "top", "floor", "hole"]))
            S, T, P = (x.reshape(ni, nj, 8) for x in (S, T, P))
            grid = rectilinear.build_grid((ni, nj), (rep % 2 == 0, False))
            ix = np.unravel_index(pin, (ni, nj)); ix = (int(ix[0]), int(ix[1]))
            col = Col(S[ix], T[ix], P[ix], interp)
            k = rep % 7
            if not col.ok:
                pp = float(P[ix][3])
            else:
                pp = float([rng.uniform(col.P[0], col.P[-1]), rng.uniform(col.P[0], col.P[-1]), col.P[0], col.P[-1], col.P[0] - 1, col.P[-1] + 1, np.mean(col.P[:2])][k])
            kw = dict(grid=grid, eos=name, grav=grav, rho_c=rho_c, interp=interp, output=False, diags=bool(rep % 2), ITER_MIN=1 + rep % 3, ITER_MAX=rep % 4,
                      ITER_START_WETTING=1 + rep % 2, OMEGA_FORMULATION=("poisson", "gradient")[(rep // 2) % 2], TOL_P_SOLVER=(1e-4, 1e-1, 1e-6)[rep % 3])
            if rep % 4 == 1:
                kw["p_ml"] = dict(pot_dens_diff=0.1, ref_p=100.0, bottle_index=0)
            elif rep % 4 == 2:
                kw["p_ml"] = np.full((ni, nj), pp + 100.0)     # the pin itself is in the mixed layer
            if rep % 3:
                init = np.full((ni, nj), pp) + rng.uniform(-50, 50, (ni, nj)) * (rng.random((ni, nj)) < 0.7)
                init[rng.random((ni, nj)) < 0.2] = np.nan
                init[ix] = pp
            else:
                init = pp
            raised, s, t, p = False, None, None, None
            try:
                s, t, p, d = omega_surf(S, T, P, pin_cast=ix, p_init=init, **kw)
            except Exception as e:
                raised = True
                kw["error"] = repr(e)[:300]
            m += 1
            rec(col.inside(pp), raised, p, s, t, ix, pp, col, {k2: v2 for k2, v2 in kw.items() if k2 != "grid"}, S=S, T=T, P=P, init=init)
    k = ctx.trace("PinTrace", recs)
    ctx.validated = k
    ctx.note("real_runs", m)
