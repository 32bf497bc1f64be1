"""C26: where density does not feel pressure, every kind of neutral surface is the same surface."""
import multiprocessing as mp
import numpy as np
from vf.core import NANI, fxs
from vf.ref import ocean, Col, block

NK = 5


def kinds(rng, n):
    """columns of OneSurface.tla: strictly denser downwards in their first valid block"""
    out = []
    for k in range(n):
        d = np.sort(rng.choice(np.arange(0, 13), NK, replace=False))
        x = np.cumsum(rng.integers(3, 13, NK)) + int(rng.integers(0, 4))
        d = [int(v) for v in d]
        m = k % 6
        if m == 1:
            d[0] = NANI
        if m == 2:
            d[NK - 1] = NANI
        if m == 3:
            d[3] = NANI
        if m == 5 and k > 6:
            d = [NANI] * NK if k % 12 == 5 else [NANI] * 2 + d[2:]
        out.append(dict(d=d, x=[int(v) for v in x]))
    return out


def tla(ks):
    sq = lambda v: "<<" + ", ".join(map(str, v)) + ">>"
    return "<<" + ", ".join("[d |-> %s, x |-> %s]" % (sq(k["d"]), sq(k["x"])) for k in ks) + ">>"


def paths(ed, n, root=0):
    nb = {i: [] for i in range(n)}
    for a, b in ed:
        nb[a].append(b); nb[b].append(a)
    path, todo = {root: [root]}, [root]
    for i in todo:
        for j in nb[i]:
            if j not in path:
                path[j] = path[i] + [j]
                todo.append(j)
    return path


def rat(x):
    return x[0] / x[1] if len(x) else np.nan


def eq(a, b, tol=1e-6):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=tol, equal_nan=True)


def toys(job):
    name, cases, ks, seed = job
    from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
    from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.label import veronis
    from neutralocean.ntp import ntp_epsilon_errors
    from vf import toy
    eos, eos_s_t = {"comp": (toy.eos_comp, toy.eos_lin_s_t), "inv": (toy.eos_inv, toy.eos_inv_s_t), "quad": (toy.eos_quad, toy.eos_quad_s_t)}[name]
    bad, n = [], dict(surfaces=0, links=0, casts_off=0)
    rng = np.random.default_rng(seed)
    for v, c in enumerate(cases):
        nc = len(c["ty"])
        ed = [(a - 1, b - 1) for a, b in c["g"]]
        S, T, P = (np.empty((nc, NK)) for _ in range(3))
        for i, k in enumerate(c["ty"]):
            d = np.array(ks[k - 1]["d"], float); d[d == NANI] = np.nan
            P[i] = ks[k - 1]["x"]
            T[i] = rng.integers(-8, 20, NK) if name != "quad" else float(rng.integers(-4, 9))
            T[i][np.isnan(d)] = np.nan
            # warm and salty or cold and fresh, of the same density
            S[i] = d + T[i] + (T[i] ** 2 / 16 if name == "quad" else 0.0)
        iso, om = (np.array([rat(x) for x in c[k]]) for k in ("iso", "p"))
        target, pin = rat(c["target"]), rat(c["pin"])
        info = dict(eos=name, case=c, S=S, T=T, P=P)
        grid = dict(edges=(np.array([a for a, _ in ed]), np.array([b for _, b in ed])))
        if v % 3:
            grid.update(dist=rng.uniform(1e3, 9e3, len(ed)), distperp=rng.uniform(1e3, 9e3, len(ed)))
        n["surfaces"] += 1
        n["casts_off"] += int(np.isnan(om).sum())

        def want(what, got, exp, tol=1e-6):
            if not eq(np.asarray(got, float), exp, tol):
                bad.append((what, dict(info, got=got, want=exp)))
        try:
            o = dict(eos=(eos, eos_s_t), output=False, TOL_P_SOLVER=1e-11, grid=grid)
            r = [None, 0.0, 500.0][v % 3]
            s, t, p, d = potential_surf(S, T, P, ref=r, pin_cast=0, pin_p=pin, **o)
            want("PotentialSurface", p, iso)
            want("PotentialSurfaceHasNoErrors", np.nan_to_num([d["e_RMS"], d["e_MAV"]]), np.zeros(2))
            p = anomaly_surf(S, T, P, ref=[None, (35.0, 5.0), (0.0, -2.0)][v % 3], pin_cast=0, pin_p=pin, **o)[2]
            want("AnomalySurface", p, iso)
            # omega: grown from the pin, from the potential surface, and from anywhere
            blk = [block(S[i], P[i]) for i in range(nc)]
            any_ = np.array([rng.uniform(P[i, k], P[i, K - 1]) if K - k > 1 else np.nan for i, (k, K) in enumerate(blk)]); any_[0] = pin
            init = [pin, any_, iso.copy(), np.full(nc, pin)][v % 4]
            s, t, p, d = omega_surf(S, T, P, grid, 0, init, ITER_MIN=4, ITER_MAX=8, TOL_LRPD_MAV=1e-13 if name != "inv" else 1e-13 * 1e6, eos=(eos, eos_s_t), output=False, diags=True,
                                    TOL_P_SOLVER=1e-11, OMEGA_FORMULATION="gradient" if v % 7 == 5 else "poisson")
            want("OmegaSurface", p, om, 1e-6 if v % 7 != 5 else 1e-3)
            e = ntp_epsilon_errors(s, t, p, grid, eos_s_t)
            lim = (1e-7 if name != "inv" else 1e-13) * (1 if v % 7 != 5 else 1e3)
            if np.nanmax(np.abs(np.append(e, 0.0))) > lim:
                bad.append(("NoErrorOnIt", dict(info, e=e)))
            path = paths(ed, nc)
            far = max(path.values(), key=len)
            st = next((i for i, j in enumerate(far) if np.isnan(iso[j])), len(far))
            z = neutral_trajectory(S[far], T[far], P[far], pin, eos=eos, tol_p=1e-11)
            want("Trajectory", z[2], np.where(np.arange(len(far)) < st, iso[far], np.nan))
            on = np.flatnonzero(np.isfinite(iso))
            for b in (set(range(nc)) - {0}):
                a = int(on[(v + b) % len(on)])
                sa, ta = Col(S[a], T[a], P[a]).at(iso[a])
                z = ntp_bottle_to_cast(sa, ta, float(iso[a]), S[b], T[b], P[b], tol_p=1e-11, eos=eos)
                want("Link", z[2], iso[b])
                n["links"] += 1
            for i in on[:3]:
                k, K = blk[i]
                d0 = float(S[i, k] - T[i, k] - (T[i, k] ** 2 / 16 if name == "quad" else 0.0))
                if name != "quad" and target > d0:
                    m = mixed_layer(S[i][None], T[i][None], P[i][None], eos=eos, pot_dens_diff=target - d0, ref_p=float(rng.choice([0.0, 700.0])), bottle_index=int(k))
                    want("MixedLayer", m, iso[[i]], 1e-6)
                if name != "inv":
                    q = veronis(float(iso[i]), S[i], T[i], P[i], p0=float(P[i, k]), p_ref=0.0, dp=0.9, eos=(eos, eos_s_t))
                    want("VeronisDensity", [q], np.array([1000.0 + target]), 1e-8)
        except Exception as x:
            bad.append(("raised", dict(info, error=repr(x)[:400])))
    return bad, n, []


def frozen(name, p0, comp):
    import numba as nb
    from neutralocean.eos import make_eos, make_eos_s_t
    f, g = make_eos(name), make_eos_s_t(name)

    @nb.njit
    def eos(s, t, p):
        return f(s, t, p0) + comp * p

    @nb.njit
    def eos_s_t(s, t, p):
        return g(s, t, p0)
    return eos, eos_s_t


def reals(job):
    name, p0, comp, interp, reps, seed = job
    from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
    from neutralocean.traj import neutral_trajectory
    from neutralocean.grid.rectilinear import build_grid
    eos, eos_s_t = frozen(name, p0, comp)
    size = abs(float(eos(35.0, 5.0, 0.0)))
    rng = np.random.default_rng(seed)
    bad, n, recs = [], dict(real=0), []
    for rep in range(reps):
        shape = [(5, 4), (6, 3), (3, 5)][rep % 3]
        N = shape[0] * shape[1]
        S, T, P = ocean(rng, N, 11, like=0.85, pnan=True)
        S[0], T[0], P[0] = ocean(rng, 1, 11, masks=["full"], like=0.0)
        if rep % 2:
            S[0], T[0], P[0] = S[1], T[1], P[1]
            if not np.isfinite(S[0]).all():
                continue
        sgn = 1.0 if name == "jmd95" or name == "jmdfwg06" else -1.0
        dens = []
        for i in range(N):
            col = Col(S[i], T[i], P[i], interp)
            dd = np.array([])
            if col.ok:
                dd = np.array([sgn * eos(*col.at(x), 0.0) for x in np.linspace(col.P[0], col.P[-1], 200)])
                if np.any(np.diff(dd) <= 2e-8 * size):          # not denser downwards: not of this kind
                    S[i] = T[i] = np.nan
                    dd = np.array([])
            dens.append(dd)
        if not len(dens[0]):
            continue
        col = Col(S[0], T[0], P[0], interp)
        pin = float(col.P[0] + rng.uniform(0.15, 0.5) * (col.P[-1] - col.P[0]))
        target = sgn * eos(*col.at(pin), 0.0)
        margin = all(min(abs(d[0] - target), abs(d[-1] - target)) > 2e-5 * size for d in dens if len(d))
        grid = build_grid(shape, (rep % 2 == 0, False), dxC=rng.uniform(1e4, 9e4, shape), dyC=3e4)
        ed = list(zip(*(np.asarray(x).tolist() for x in grid["edges"])))
        far = max(paths(ed, N).values(), key=len)
        o = dict(eos=(eos, eos_s_t), output=False, diags=False, TOL_P_SOLVER=1e-10, interp=interp, pin_cast=0, pin_p=pin)
        data = dict(eos=name, frozen=p0, interp=interp, S=S, T=T, P=P, pin=pin, shape=shape)
        try:
            iso = potential_surf(S, T, P, ref=0.0, **o)[2]
            ref2 = potential_surf(S, T, P, ref=3500.0, **o)[2]
            anom = anomaly_surf(S, T, P, ref=(33.0, 14.0) if rep % 2 else None, **o)[2]
            init = pin if rep % 2 else iso
            s, t, om, _ = omega_surf(S, T, P, grid, 0, init, eos=(eos, eos_s_t), interp=interp, ITER_MIN=5, ITER_MAX=10, TOL_LRPD_MAV=0.0, TOL_P_SOLVER=1e-10, output=False, diags=False)
            traj = neutral_trajectory(S[far], T[far], P[far], pin, eos=eos, interp=interp, tol_p=1e-10)[2]
        except Exception as x:
            bad.append(("raised", dict(data, error=repr(x)[:400])))
            continue
        n["real"] += 1
        ex = np.array([sgn * eos(s[i], t[i], 0.0) - target for i in range(N)]) / size
        recs.append(dict(tla=dict(edges=[[a + 1, b + 1] for a, b in ed], pin=1, iso=fxs(iso, 1e4), ref2=fxs(ref2, 1e4), anom=fxs(anom, 1e4), omega=fxs(om, 1e4), path=[j + 1 for j in far], traj=fxs(traj, 1e4),
                                  dens=fxs(ex, 1e9), slack=20, dslack=2000, margin=bool(margin)), worst=np.nanmax(abs(ex)), **data))
    return bad, n, recs


def play(job):
    return toys(job[1]) if job[0] == "toy" else reals(job[1])


def run(ctx):
    q = ctx.quick
    rng = np.random.default_rng(ctx.seed + 26)
    ks = kinds(rng, 14)
    pins = "{<<%s>>}" % ">>, <<".join(f"{a}, 7" for a in (78, 101, 125, 150, 177, 202))
    gens = [ctx.gen("OneSurface", dict(N=4, Kinds=tla(ks), Graphs="RandomGraphs(%d, 4)" % (12 if q else 60), Tys="RandomSubset(%d, [1..4 -> 1..14])" % (60 if q else 250), Pins=pins), inv=("Inv", "Emitted"), name="one4", workers=4),
            ctx.gen("OneSurface", dict(N=6, Kinds=tla(ks), Graphs="RandomGraphs(%d, 8)" % (6 if q else 30), Tys="RandomSubset(%d, [1..6 -> 1..14])" % (25 if q else 100), Pins=pins), inv=("Inv", "Emitted"), name="one6", workers=4)]
    ctx.exhaustive = False
    from vf.checks.c20 import warm
    byc = {}
    for g in gens:
        for c in g():
            if byc.setdefault(repr((c["g"], c["ty"], c["pin"])), c) != c:
                ctx.fail("MachineNotConfluent", c)
    cases = [c for c in byc.values() if c["g"]]
    keep = rng.permutation(len(cases))[: 900 if q else 9000]
    cases = [cases[i] for i in keep]
    ctx.sample(cases[0])
    warm()
    jobs = [("toy", (nm, cases[i::3], ks, ctx.seed + i)) for i, nm in enumerate(("comp", "inv", "quad"))]
    cfg = [("gsw", 1000.0, 0.0, "pchip"), ("jmd95", 0.0, 0.0045, "linear")] + ([] if q else [("jmdfwg06", 2000.0, 0.0, "linear"), ("gsw", 0.0, 0.0, "linear"), ("jmd95", 3000.0, 0.0045, "pchip")])
    jobs += [("real", (*c, 24 if q else 120, ctx.seed + 100 + i)) for i, c in enumerate(cfg)]
    with mp.get_context("fork").Pool(6, maxtasksperchild=1) as pool:
        res = pool.map(play, jobs, chunksize=1)
    tot, recs = {}, []
    for (kind, j), (bad, n, rr) in zip(jobs, res):
        for clause, d in bad:
            ctx.fail(clause, d)
        for k, v in n.items():
            tot[k] = tot.get(k, 0) + v
        recs += rr
    for k, v in tot.items():
        ctx.note(k, v)
    ctx.note("worst_density_excess", max((float(r["worst"]) for r in recs), default=0.0))
    ctx.note("with_margin", sum(r["tla"]["margin"] for r in recs))
    ctx.trace("OneTrace", recs)
    ctx.validated += tot["surfaces"] + tot["links"]
    ctx.assumptions.append("omega surfaces with a real equation of state keep their density to 2e-6 of it: a link's midpoint rule is exact only to third order")
