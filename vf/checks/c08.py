"""C08: neutrality errors and norms follow their definition."""
import itertools
import numpy as np
from vf.core import NANI
from vf.ref import ocean
from vf import epsilon as E


def run(ctx):
    q = ctx.quick
    pairs = [(1, 2), (2, 1), (2, 3), (3, 1), (1, 1)] if q else [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)]
    lists = [[]] + [[e] for e in pairs] + [[e, f] for e in pairs for f in pairs]
    lists += [[(1, 2) if x else (2, 1), (2, 3) if y else (3, 2), (3, 1) if z else (1, 3)] for x, y, z in itertools.product((0, 1), repeat=3)]
    states = "{<<1, 2, 8>>, <<3, 0, 4>>, <<0, 5, 12>>}"
    el = "{" + ", ".join("<<" + ", ".join(f"<<{a}, {b}>>" for a, b in l) + ">>" for l in lists) + "}"
    g1 = ctx.gen("Epsilon", dict(NNodes=3, States=states, EdgeLists=el, Dists="{<<>>, <<2>>, <<1, 4, 2>>}", Perps="{<<>>, <<3, 1, 2>>}"
                                 if q else "{<<>>, <<3>>, <<3, 1, 2>>}"), inv=("Inv", "Emitted"), workers=4)
    import xarray as xr
    from neutralocean.ntp import ntp_epsilon_errors, ntp_epsilon_errors_norms
    from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
    from neutralocean.eos import make_eos
    from neutralocean.grid import rectilinear
    from vf.toy import eps_s_t
    n = 0
    cases = g1()
    ctx.sample(cases[len(cases) // 2])
    for j, c in enumerate(cases):
        v = np.array(c["node"], float); v[v == NANI] = np.nan
        s, t, p = v.T.copy()
        ne = len(c["edges"])
        ed = (np.array([a - 1 for a, _ in c["edges"]], int), np.array([b - 1 for _, b in c["edges"]], int))
        g = {"edges": ed}
        if c["dist"]:
            g["dist"] = float(c["dist"][0]) if len(c["dist"]) == 1 else np.array(c["dist"][:ne], float)
        if c["perp"]:
            g["distperp"] = float(c["perp"][0]) if len(c["perp"]) == 1 else np.array(c["perp"][:ne], float)
        m = j % 5
        if m == 1 and "dist" in g and np.ndim(g["dist"]):
            g["dist"] = g["dist"].tolist()
        if m == 2 and "distperp" in g and np.ndim(g["distperp"]):
            g["distperp"] = g["distperp"].tolist()
        if m == 3:
            s, t, p = (x.reshape(3, 1) for x in (s, t, p))
        if m == 4:
            s, t, p = (xr.DataArray(x.reshape(1, 3), dims=("a", "b")) for x in (s, t, p))
        try:
            e = np.asarray(ntp_epsilon_errors(s, t, p, ed if not c["dist"] and j % 2 else g, eps_s_t))
            rms, mav = ntp_epsilon_errors_norms(s, t, p, g, eps_s_t)
        except Exception as ex:
            ctx.fail("raises", dict(case=c, error=repr(ex)))
            continue
        n += 1
        D = [1] * ne if not c["dist"] else (c["dist"] * ne if len(c["dist"]) == 1 else c["dist"])
        want = np.array([np.nan if x == NANI else x / 128 / D[k] for k, x in enumerate(c["e"])])
        if e.shape != (ne,) or not np.array_equal(np.isnan(e), np.isnan(want)) or not np.allclose(e, want, rtol=1e-12, atol=1e-12, equal_nan=True):
            ctx.fail("EdgeErrors", dict(case=c, got=e, want=want))
        wr, wm = (c["ms"][0] / c["ms"][1]) ** 0.5 / 128, c["ma"][0] / c["ma"][1] / 128
        if not (abs(rms - wr) <= 1e-12 * (1 + wr) and abs(mav - wm) <= 1e-12 * (1 + wm)):
            ctx.fail("Norms", dict(case=c, got=[rms, mav], want=[wr, wm]))
        # lengths in another unit, however large or small: errors scale inversely, weights cancel
        u, w = 2.0 ** (-40, 40, -12)[j % 3], 2.0 ** (-40, -12, 30)[j % 4 % 3]
        g2 = {"edges": ed, "dist": np.asarray(D[:ne], float) * u, "distperp": np.asarray(g.get("distperp", 1.0), float) * w}
        e, (rms, mav) = np.asarray(ntp_epsilon_errors(s, t, p, g2, eps_s_t)), ntp_epsilon_errors_norms(s, t, p, g2, eps_s_t)
        if not np.allclose(e * u, want, rtol=1e-12, atol=1e-12, equal_nan=True):
            ctx.fail("EdgeErrorsScaled", dict(case=c, units=[u, w], got=e, want=want))
        if not (abs(rms * u - wr) <= 1e-12 * (1 + wr) and abs(mav * u - wm) <= 1e-12 * (1 + wm)):
            ctx.fail("NormsScaled", dict(case=c, units=[u, w], got=[rms, mav], want=[wr, wm]))
    ctx.note("toy_cases", n)
    # the library's equations of state and the norms reported by the surfaces
    rng = np.random.default_rng(ctx.seed + 8)
    recs = []
    cfgs = [("gsw", None, None), ("jmd95", 9.81, 1027.5)]
    if not q:
        cfgs += [("jmdfwg06", None, None), ("gsw", 9.8, 1035.0), ("jmd95", None, None)]
    for ci, (name, grav, rho_c) in enumerate(cfgs):
        eos = make_eos(name, grav, rho_c)
        for rep in range(4 if q else 10):
            ni, nj = [(4, 3), (3, 4), (2, 5), (5, 2)][rep % 4]
            S, T, P = ocean(rng, ni * nj, 9, masks=["full", "full", "full", "land", "top", "floor", "hole"], pnan=True)
            S[0], T[0], P[0] = ocean(rng, 1, 9, masks=["full"])
            S, T, P = (np.reshape(x[0] if x.ndim == 3 else x, (ni, nj, 9)) for x in (S, T, P))
            A = rng.uniform(1e4, 9e4, 4)
            geo = [dict(), dict(dist=A[0]), dict(distperp=A[1]), dict(dist="a", distperp="a")][rep % 4]
            grid = rectilinear.build_grid((ni, nj), (rep % 2 == 0, rep % 3 == 0))
            ed = tuple(np.asarray(x) for x in grid["edges"])
            grid = {"edges": ed}
            for k, v in geo.items():
                grid[k] = rng.uniform(1e4, 9e4, len(ed[0])) if isinstance(v, str) else v
            dist, perp = grid.get("dist", 1.0), grid.get("distperp", 1.0)
            o = dict(grid=grid, eos=name, grav=grav, rho_c=rho_c, output=False)
            outs = []
            r = float(rng.choice([0.0, 1500.0]))
            outs.append(("potential", potential_surf(S, T, P, ref=r, pin_p=float(P[0, 0, 4]), pin_cast=(0, 0), **o)))
            outs.append(("anomaly", anomaly_surf(S, T, P, ref=(34.6, 4.0), pin_p=float(P[0, 0, 4]), pin_cast=(0, 0), **o)))
            outs.append(("omega", omega_surf(S, T, P, pin_cast=(0, 0), p_init=float(P[0, 0, 4]), ITER_MAX=2, ITER_MIN=2, **o)))
            for kind, (s, t, p, d) in outs:
                ge = ntp_epsilon_errors(s, t, p, grid, name, grav, rho_c)
                rms, mav = ntp_epsilon_errors_norms(s, t, p, grid, name, grav, rho_c)
                if name == "gsw" and grav is None:      # the equation of state that need not be named
                    ge, (rms, mav) = ntp_epsilon_errors(s, t, p, grid), ntp_epsilon_errors_norms(s, t, p, grid)
                meta = dict(kind=kind, eos=name, grav=grav, shape=[ni, nj])
                recs.append(E.record(s, t, p, ed, eos, dist, perp, ge, rms, mav, np.isfinite(p).sum(), meta=dict(meta, src="ntp")))
                dr, dm, nw = (d["e_RMS"], d["e_MAV"], d["n_wet"]) if kind != "omega" else (d["e_RMS"][-1], d["e_MAV"][-1], d["n_wet"][-1])
                recs.append(E.record(s, t, p, ed, eos, dist, perp, ge, dr, dm, nw, meta=dict(meta, src="diags")))
                # sign reversal and relabelling of edges
                flip = rng.random(len(ed[0])) < 0.5
                ed2 = (np.where(flip, ed[1], ed[0]), np.where(flip, ed[0], ed[1]))
                g2 = ntp_epsilon_errors(s, t, p, dict(grid, edges=ed2), name, grav, rho_c)
                recs.append(E.record(s, t, p, ed2, eos, dist, perp, g2, *ntp_epsilon_errors_norms(s, t, p, dict(grid, edges=ed2), name, grav, rho_c),
                                     np.isfinite(p).sum(), meta=dict(meta, src="flipped")))
    k = ctx.trace("NormTrace", recs)
    ctx.note("real_records", k)
    ctx.validated = n + k
    ctx.assumptions += ["density gradient of a real equation of state taken by central differences (relative tolerance 1e-6 of the largest term)"]
