"""C06: each omega iteration solves the global problem; converged surfaces are as neutral as possible."""
import numpy as np
from vf import omega as O, epsilon as E
from vf.ref import ocean, Col

W4 = (4, 2, 8, 1, 16, 4, 3)


def run(ctx):
    q = ctx.quick
    cfg = O.configs(q)
    gens = {n: ctx.gen("Omega", cfg[n], inv=("Inv", "Emitted"), name="om_" + n, workers=3) for n in ("solve3", "solve4", "window")}
    from neutralocean.surface import omega_surf
    from neutralocean.grid import rectilinear
    from neutralocean.eos import make_eos
    n = 0
    for name, g in gens.items():
        pin = int(cfg[name]["Pin"]) - 1
        for v, cs in enumerate(O.groups(g())):
            if cs[0]["out"] == "error" or (name == "window" and v % 3):
                continue
            if v < 2:
                ctx.sample(dict(cs[0], hist=cs[0]["hist"][:1]), 4)
            for form, tol in (("poisson", 1e-6), ("gradient", 2e-3)):
                if name == "solve4" and form == "gradient" and v % 3:
                    continue
                n += 1
                try:
                    s, t, p, d = O.call(cs[0], variant=v, pin_cast=pin, OMEGA_FORMULATION=form, diags=bool(v % 2))
                except Exception as e:
                    ctx.fail("raised", dict(case=cs[0], error=repr(e)[:400]))
                    continue
                if not any(O.close(p, O.surf_of(c["hist"][-1]), tol) for c in cs):
                    ctx.fail("GlobalProblem", dict(case=cs[0], form=form, variant=v, got=p, want=[O.surf_of(c["hist"][-1]) for c in cs][:4]))
    ctx.note("toy_runs", n)
    # ---- the library's equations of state
    rng = np.random.default_rng(ctx.seed + 6)
    recs = []
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    nrest = ntree = 0
    for name, grav, rho_c, interp in cfgs:
        eos = make_eos(name, grav, rho_c)
        for rep in range(48 if q else 300):
            ni, nj = [(3, 3), (4, 3), (2, 4), (5, 1), (1, 6), (4, 4)][rep % 6]
            tree = min(ni, nj) == 1
            full = rep % 4 != 3
            S, T, P = ocean(rng, ni * nj, 8, masks=["full"] if full else ["full"] * 5 + ["top", "floor", "land"], like=0.85)
            if rep % 8 == 7:      # the pin stands alone
                S[0], T[0], P[0] = (x[0] for x in ocean(rng, 1, 8, masks=["full"]))
                S[1:] = np.nan
            elif not full:
                S[0], T[0], P[0] = (x[0] for x in ocean(rng, 1, 8, masks=["full"], like=0.0))
                if np.isfinite(S[1, 0]):
                    S[0], T[0] = S[1] + 0.001, T[1] + 0.05
                    P[0] = P[1]
                if not np.all(np.isfinite(S[0])):
                    continue
            S, T, P = (x.reshape(ni, nj, 8) for x in (S, T, P))
            grid = rectilinear.build_grid((ni, nj), (False, ni > 2 and nj > 2 and rep % 2 == 0))
            ed = [np.asarray(x).copy() for x in grid["edges"]]
            flip = rng.random(len(ed[0])) < 0.4
            ed[0][flip], ed[1][flip] = ed[1][flip], ed[0][flip].copy()
            w = np.array([W4[int(x)] for x in rng.integers(len(W4), size=len(ed[0]))])
            if rep % 3 == 0:
                w[:] = 4
                grid = dict(edges=tuple(ed))
                if rep % 2:
                    r = int(rng.choice([1, 2, 4, 12]))
                    w[:] = r
                    grid.update(dist=5e4, distperp=5e4 * r / 4)
            else:
                dist = rng.uniform(1e4, 9e4, len(w))
                grid = dict(edges=tuple(ed), dist=dist, distperp=dist * w / 4)
            a, b = float(P[0, 0, 0]), float(P[0, 0, -1])
            pp = float(a + rng.uniform(0.25, 0.6) * (b - a))
            init = np.full((ni, nj), pp) + rng.uniform(-60, 60, (ni, nj)); init[0, 0] = pp
            kw = dict(grid=grid, pin_cast=(0, 0), p_init=init, eos=name, grav=grav, rho_c=rho_c, interp=interp, output=False, diags=bool(rep % 2), TOL_P_SOLVER=1e-10,
                      ITER_START_WETTING=99, ITER_STOP_WETTING=99, TOL_LRPD_MAV=0.0)
            meta = dict(eos=name, grav=grav, interp=interp, shape=[ni, nj], rep=rep)
            data = dict(S=S, T=T, P=P, init=init, edges=ed, w4=w, meta=meta)
            forms = ("poisson", "gradient")
            first = {}
            for form in forms if rep % 2 == 0 else forms[:1]:
                try:
                    runs = [omega_surf(S, T, P, ITER_MAX=k, OMEGA_FORMULATION=form, **kw) for k in range(4)]
                except Exception as e:
                    ctx.fail("raised", dict(data, form=form, error=repr(e)[:400]))
                    continue
                R = [[np.asarray(x).reshape(-1) for x in r[:3]] for r in runs]
                first[form] = R
                for k in range(1, 4):
                    (s0, t0, p0), (s, t, p) = R[k - 1], R[k]
                    # the region of this iteration: patch of the pin in the surface before it
                    wet = np.isfinite(p0)
                    reg = {0}
                    while True:
                        new = {j for i_, j in zip(*ed) if i_ in reg and wet[j]} | {i_ for i_, j in zip(*ed) if j in reg and wet[i_]}
                        if new <= reg:
                            break
                        reg |= new
                    if len(reg) == 1:
                        recs.append(dict(tla=dict(kind="solo", kept=bool(np.array_equal([s[0], t[0], p[0]], [s0[0], t0[0], p0[0]]))), form=form, k=k, **data))
                        continue
                    e_, sc = E.errors(s0, t0, p0, tuple(ed), eos)
                    E_ = [(int(i_), int(j), int(x), float(y)) for i_, j, x, y in zip(ed[0], ed[1], w, e_) if i_ in reg and j in reg]
                    ph = np.array([float(eos(s[i_], t[i_], p0[i_]) - eos(s0[i_], t0[i_], p0[i_])) if i_ in reg and np.isfinite(p[i_]) else 0.0 for i_ in range(ni * nj)])
                    amp = max(max(abs(y) for *_, y in E_), np.max(abs(ph)), 1e-14 * abs(float(eos(34.5, 3.0, 1000.0))) * 100)
                    # numbers below the noise of the equation of state's own rounding are not judged
                    noise = 4e-13 * abs(float(eos(34.5, 3.0, 1000.0)))
                    U = max(amp / 1e6, noise)
                    recs.append(dict(tla=dict(kind="step", edges=[[i_ + 1, j + 1, x, int(round(y / U))] for i_, j, x, y in E_], known=[int(i_ in reg and np.isfinite(p[i_])) for i_ in range(ni * nj)],
                                              phi=[int(round(x / U)) for x in ph], pin=1, slack=4 if form == "poisson" else 3000), form=form, k=k, amp=amp, **data))
            if len(first) == 2:
                A, B = first["poisson"][1][2], first["gradient"][1][2]
                m = np.isfinite(A) & np.isfinite(B)
                big = np.max(abs(A - first["poisson"][0][2])[m]) if m.any() else 0
                un = [int(min(np.ceil(x), 9999)) for x in abs(A - B)[m] / (2e-3 * big + 1e-3)]
                recs.append(dict(tla=dict(kind="same", u=un), a=A, b=B, **data))
            if full and rep % 2:
                o = [omega_surf(S, T, P, ITER_MAX=k, **kw) for k in (24, 25)]
                (_, _, pa), (s, t, p) = ([np.asarray(x).reshape(-1) for x in r[:3]] for r in o)
                if np.array_equal(np.isfinite(pa), np.isfinite(p)) and np.nanmax(abs(p - pa)) < 1e-7:
                    e_, sc = E.errors(s, t, p, tuple(ed), eos)
                    e0, sc = E.errors(*first["poisson"][0], tuple(ed), eos)
                    ok = np.isfinite(e_)
                    reg = np.isfinite(p)
                    U = max(np.nanmax(abs(e0)) / 1e6, 4e-13 * abs(float(eos(34.5, 3.0, 1000.0))))
                    recs.append(dict(tla=dict(kind="rest", edges=[[int(i_) + 1, int(j) + 1, int(x), int(round(y / U))] for i_, j, x, y in zip(ed[0][ok], ed[1][ok], w[ok], e_[ok])],
                                              tree=bool(tree), slack=4), **data))
                    nrest += 1; ntree += tree
    # many casts: a tree with very unequal edges (every link must become neutral, whatever its width), and a lattice
    big = []
    for kind in ("tree", "lattice") * (1 if q else 5):
        eos = make_eos("jmd95", None, None)
        N = 1500 if kind == "tree" else 26 * 20
        S, T, P = ocean(rng, N, 6, masks=["full"], like=0.9)
        P -= P[:, :1] - 5.0
        if kind == "tree":
            ed = [np.arange(1, N), np.array([int(rng.integers(max(0, i - 5), i)) for i in range(1, N)])]
            w = 4 * 10.0 ** rng.uniform(-2, 2, N - 1)
            w[rng.integers(N - 1, size=2)] = 4e6, 4e-4
        else:
            ed = [np.asarray(x).copy() for x in rectilinear.build_grid((26, 20), (True, False))["edges"]]
            w = np.array([W4[int(x)] for x in rng.integers(len(W4), size=len(ed[0]))])
        order = rng.permutation(N)
        a_, b_ = order[ed[0]], order[ed[1]]
        flip = rng.random(len(a_)) < 0.5
        ed = (np.where(flip, b_, a_), np.where(flip, a_, b_))
        pin = int(rng.integers(N))
        p0 = rng.uniform(600, 700, N)
        d = 10.0 ** rng.uniform(3, 5, len(w))
        kw = dict(grid=dict(edges=ed, dist=d, distperp=d * w / 4), pin_cast=pin, p_init=p0, eos="jmd95", output=False, diags=False, TOL_P_SOLVER=1e-10, ITER_START_WETTING=99, TOL_LRPD_MAV=0.0)
        (s0, t0, q0), (s, t, p) = (omega_surf(S, T, P, ITER_MAX=k, ITER_MIN=k, **kw)[:3] for k in (0, 1))
        e_, sc = E.errors(s0, t0, q0, ed, eos)
        ph = np.array([float(eos(s[i], t[i], q0[i]) - eos(s0[i], t0[i], q0[i])) for i in range(N)])
        known = np.isfinite(ph); ph[~known] = 0.0
        U = max(np.max(abs(e_)), np.max(abs(ph))) / 1e5
        rec = dict(kind="step" if kind == "lattice" else "links", known=known.astype(int).tolist(), phi=[int(round(x / U)) for x in ph], pin=pin + 1, slack=8,
                   edges=[[int(i) + 1, int(j) + 1, int(x) if kind == "lattice" else 1, int(round(y / U))] for i, j, x, y in zip(*ed, w, e_)])
        big.append(dict(tla=rec, meta=kind))
        ctx.note("big_" + kind, float(known.mean()))
    ctx.trace("OmegaTrace", big, chunk=1)
    k = ctx.trace("OmegaTrace", recs)
    ctx.validated = n + k
    ctx.note("real_records", k); ctx.note("converged", nrest); ctx.note("trees", ntree)
    if nrest == 0 or ntree == 0:
        ctx.note("warning", "no converged surface judged")
