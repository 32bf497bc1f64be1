"""C07: omega iterations stop as configured; diagnostics are faithful."""
import contextlib, io
import numpy as np
from vf import omega as O, epsilon as E
from vf.ref import ocean

KEYS = ("e_MAV", "e_RMS", "timer", "ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_wet", "n_newly_wet", "timer_bfs", "timer_mat", "timer_update")


def u(got, want, scale=None, rel=1e-6):
    if not np.isfinite(got):
        return 10 ** 6
    return E.units(got - want, rel * max(abs(want) if scale is None else scale, 0) + 1e-300)


def same(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a[:3], b[:3]))


def run(ctx):
    q = ctx.quick
    cfg = O.configs(q)
    gens = {n: ctx.gen("Omega", cfg[n], inv=("Inv", "Emitted"), props=("Terminates",) if n == "stop" else (), name="om_" + n, workers=3) for n in ("stop", "window")}
    from neutralocean.surface import omega_surf
    from neutralocean.grid import rectilinear
    from neutralocean.eos import make_eos
    from vf.toy import eos_p8_s_t
    n = 0
    for name, g in gens.items():
        pin = int(cfg[name]["Pin"]) - 1
        for v, cs in enumerate(O.groups(g())):
            if cs[0]["out"] == "error":
                continue
            c = cs[0]
            n += 1
            try:
                s, t, p, d = O.call(c, variant=v, pin_cast=pin, OMEGA_FORMULATION="gradient" if v % 5 == 4 else "poisson")
            except Exception as e:
                ctx.fail("raised", dict(case=c, error=repr(e)[:400]))
                continue
            tol = 1e-5 if v % 5 == 4 else 1e-7
            why = None
            if any(k not in d for k in KEYS):
                why = "MissingDiagnostic"
            else:
                ok = [h for h in cs if len(h["hist"]) == len(d["n_wet"])]
                if not ok:
                    why = "Iterations"
                elif any(len(d[k]) != len(d["n_wet"]) for k in KEYS):
                    why = "OneEntryPerIteration"
                else:
                    def match(h):
                        for k, e in enumerate(h["hist"]):
                            w = [int(sum(1 for x in e["p"] if x)), O.rat(e["phi"]), O.rat(e["dmav"]), O.rat(e["dms"]) ** 0.5, O.rat(e["dinf"])]
                            got = [d["n_wet"][k], d["ϕ_MAV"][k], d["Δp_MAV"][k], d["Δp_RMS"][k], d["Δp_Linf"][k]]
                            if got[0] != w[0] or (k and d["n_newly_wet"][k] != e["new"]) or not np.allclose(got[1:], w[1:], atol=tol * 10):
                                return False
                        return True
                    if not any(match(h) for h in ok):
                        why = "Diagnostics"
                    else:
                        gr = O.grid_of(c, v)
                        e_, sc = E.errors(s, t, p, gr["edges"], s_t=eos_p8_s_t)
                        R, M, sc = E.norms(e_, sc, gr.get("dist", 1.0), gr.get("distperp", 1.0))
                        if abs(R - d["e_RMS"][-1]) > 1e-9 * (1 + sc) or abs(M - d["e_MAV"][-1]) > 1e-9 * (1 + sc):
                            why = "ErrorNorms"
            if why is None and v % 4 == 0:
                with contextlib.redirect_stdout(io.StringIO()):
                    a = O.call(c, variant=v, pin_cast=pin, OMEGA_FORMULATION="gradient" if v % 5 == 4 else "poisson", diags=False)
                    b = O.call(c, variant=v, pin_cast=pin, OMEGA_FORMULATION="gradient" if v % 5 == 4 else "poisson", output=True)
                if not same(a, (s, t, p)) or not same(b, (s, t, p)):
                    why = "DiagsChangeNothing"
            if why:
                ctx.fail(why, dict(case=c, variant=v, got={k: d[k] for k in d if not k.startswith("timer")}, p=p))
    ctx.note("toy_runs", n)
    rng = np.random.default_rng(ctx.seed + 7)
    recs = []
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    K = 5
    for name, grav, rho_c, interp in cfgs:
        eos = make_eos(name, grav, rho_c)
        spv = float(eos(34.5, 3.0, 1000.0)) < 1.0
        for rep in range(6 if q else 40):
            ni, nj = [(3, 3), (4, 3), (2, 4)][rep % 3]
            S, T, P = ocean(rng, ni * nj, 8, masks=["full"] * 5 + ["top", "floor", "land"] if rep % 2 else ["full"], like=0.8)
            S[0], T[0], P[0] = (x[0] for x in ocean(rng, 1, 8, masks=["full"]))
            if rep % 2 == 0:
                S[0], T[0], P[0] = 0.5 * (S[0] + S[1]), 0.5 * (T[0] + T[1]), 0.5 * (P[0] + P[1])
            S, T, P = (x.reshape(ni, nj, 8) for x in (S, T, P))
            grid = rectilinear.build_grid((ni, nj), (rep % 2 == 0, False), rng.uniform(1e4, 9e4, (ni, nj)), rng.uniform(1e4, 9e4, (ni, nj)),
                                          rng.uniform(1e4, 9e4, (ni, nj)), rng.uniform(1e4, 9e4, (ni, nj))) if rep % 3 else rectilinear.build_grid((ni, nj), (False, False))
            ed = tuple(np.asarray(x) for x in grid["edges"])
            a, b = float(P[0, 0, 0]), float(P[0, 0, -1])
            pp = float(max(a, 110.0) + rng.uniform(0.3, 0.7) * (b - max(a, 110.0)))
            init = pp if rep % 3 == 0 else np.full((ni, nj), pp) + rng.uniform(-80, 80, (ni, nj))
            if rep % 3:
                init[0, 0] = pp
            win = [(1, 5), (9, 9), (2, 2)][rep % 3]
            kw = dict(grid=grid, pin_cast=(0, 0), p_init=init, eos=name, grav=grav, rho_c=rho_c, interp=interp, output=False, TOL_P_SOLVER=1e-8,
                      ITER_START_WETTING=win[0], ITER_STOP_WETTING=win[1], OMEGA_FORMULATION=("poisson", "gradient")[rep % 2])
            if rep % 4 == 3:
                kw["p_ml"] = np.full((ni, nj), 100.0)
            runs = [omega_surf(S, T, P, ITER_MAX=k, TOL_LRPD_MAV=0.0, **kw) for k in range(K + 1)]
            d = runs[-1][3]
            meta = dict(eos=name, grav=grav, interp=interp, shape=[ni, nj], win=win, form=kw["OMEGA_FORMULATION"])
            data = dict(S=S, T=T, P=P, init=init, grid=grid, meta=meta)
            phi, dps = [], []
            for k in range(K + 1):
                s, t, p = (np.asarray(x).reshape(-1) for x in runs[k][:3])
                e_, sc = E.errors(s, t, p, ed, eos)
                R, M, sc = E.norms(e_, sc, grid.get("dist", 1.0), grid.get("distperp", 1.0))
                un = [u(d["e_RMS"][k], R, sc), u(d["e_MAV"][k], M, sc)] + [int(d[x][k] < 0) * 99 for x in ("timer", "timer_bfs", "timer_mat", "timer_update")]
                r = dict(kind="diag", nw=int(d["n_wet"][k]), cw=int(np.isfinite(p).sum()), nn=0, grew=0, win=True)
                if k:
                    s0, t0, p0 = (np.asarray(x).reshape(-1) for x in runs[k - 1][:3])
                    both = np.isfinite(p) & np.isfinite(p0)
                    r.update(nn=int(d["n_newly_wet"][k]), grew=int((np.isfinite(p) & ~np.isfinite(p0)).sum()), win=bool(win[0] <= k <= win[1]))
                    if r["nn"] == 0:
                        dp = (p - p0)[both]
                        # changes below what the vertical solver resolves are not judged
                        un += [E.units(d["Δp_MAV"][k] - np.mean(abs(dp)), 1e-6), E.units(d["Δp_RMS"][k] - np.sqrt(np.mean(dp ** 2)), 1e-6), E.units(d["Δp_Linf"][k] - np.max(abs(dp)), 1e-6)]
                        dps.append(float(np.sqrt(np.mean(dp ** 2))))
                        if np.array_equal(np.isfinite(p), np.isfinite(p0)):
                            f = [float(eos(s[i], t[i], p0[i]) - eos(s0[i], t0[i], p0[i])) for i in np.nonzero(both)[0]]
                            slope = max(abs(float(eos(34.6, 4.0, 1000.0) - eos(34.6, 3.9, 1000.0))), 1e-300)
                            un.append(E.units(d["ϕ_MAV"][k] - np.mean(np.abs(f)), 1e-7 * slope + 1e-6 * np.mean(np.abs(f))))
                recs.append(dict(tla=dict(r, u=[int(x) for x in un]), k=k, d={x: d[x] for x in d}, **data))
            # stopping
            phi, dpr = d["ϕ_MAV"][1:], d["Δp_RMS"][1:]
            unit = 1e6 if spv else 1.0
            trials = []
            for x in range(8):
                k = int(rng.integers(K))
                tol = float(phi[k] * unit * rng.choice([0.5, 2.0])) if x % 2 == 0 else 0.0
                tolp = float(dpr[k] * rng.choice([0.5, 2.0])) if x % 4 in (1, 2) else 0.0
                imin, imax = int(rng.integers(0, 4)), int(rng.integers(0 if x % 3 else 3, K + 1))
                trials.append((tol, tolp, imin, imax, x % 4 != 3))
            for tol, tolp, imin, imax, diag in trials:
                if np.any(abs(phi * unit - tol) < 1e-6 * tol) or np.any(abs(dpr - tolp) < 1e-6 * tolp):
                    continue
                o = omega_surf(S, T, P, ITER_MIN=imin, ITER_MAX=imax, TOL_LRPD_MAV=tol, TOL_P_CHANGE_RMS=tolp, diags=diag, **kw)
                ph = [int(tol > 0 and x * unit < tol) for x in phi]; dq = [int(tolp > 0 and x < tolp) for x in dpr]
                if diag:
                    nit = len(o[3]["n_wet"]) - 1
                    lens = [len(o[3][x]) for x in KEYS]
                else:  # without diagnostics the count shows in the surface alone
                    eq = [k for k in range(K + 1) if same(o, runs[k])]
                    stop = [k for k in range(1, K + 1) if imin <= k <= imax and (ph[k - 1] or dq[k - 1])]
                    nit = min(stop) if stop else imax
                    nit = nit if nit in eq else (eq[0] if eq else -1)
                    lens = []
                recs.append(dict(tla=dict(kind="stop", imin=imin, imax=imax, n=int(nit), lens=lens, ph=ph, dp=dq, same=bool(0 <= nit <= K and same(o, runs[nit]))),
                                 tols=[tol, tolp], phi=phi, dp=dpr, diags=diag, **data))
    k = ctx.trace("DiagTrace", recs)
    ctx.validated = n + k
    ctx.note("real_records", k)
