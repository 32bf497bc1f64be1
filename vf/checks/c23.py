"""C23: where a perfectly neutral surface exists, omega_surf finds it and neutral trajectories trace it."""
import numpy as np
from vf import epsilon as E
from vf.core import fxs
from scipy.optimize import brentq
from vf.ref import ocean, Col

KINDS = [dict(s=1, off=0), dict(s=3, off=9), dict(s=0, off=-6), dict(s=2, off=2)]
K_TLA = "<<" + ", ".join("[s |-> %d, off |-> %d]" % (k["s"], k["off"]) for k in KINDS) + ">>"


def rat(x):
    return x[0] / x[1]


def paths(ed, n):
    """a path of casts from the pin to every cast (breadth first)"""
    nb = {i: [] for i in range(n)}
    for a, b in ed:
        nb[a].append(b); nb[b].append(a)
    path = {0: [0]}
    todo = [0]
    for i in todo:
        for j in nb[i]:
            if j not in path:
                path[j] = path[i] + [j]
                todo.append(j)
    return path


def walk(eos, S, T, P, interp, pin, pth):
    """pressures along paths on which the neutrality error (as C08 defines it) of every step vanishes"""
    cols = [Col(S[i], T[i], P[i], interp) for i in range(len(S))]
    z = {0: pin}
    for j, pa in sorted(pth.items(), key=lambda x: len(x[1])):
        if len(pa) == 1:
            continue
        i = pa[-2]
        si, ti = cols[i].at(z[i])
        lo, hi = cols[j].P[0], cols[j].P[-1]

        def f(x):
            sj, tj = cols[j].at(min(max(x, lo), hi))
            return E.errors([si, sj], [ti, tj], [z[i], x], ([0], [1]), eos)[0][0]
        if not (np.isfinite(si) and f(lo) * f(hi) < 0):
            return None
        z[j] = brentq(f, lo, hi, xtol=1e-9)
    return np.array([z[j] for j in range(len(S))])


def run(ctx):
    q = ctx.quick
    gens = [ctx.gen("Attain", dict(N=4, Kinds=K_TLA, Graphs="RandomGraphs(%d, 5)" % (14 if q else 120), Tys="{<<1, 1, 2, 2>>, <<2, 1, 3, 2>>, <<2, 3, 4, 3>>, <<1, 2, 3, 4>>, <<3, 3, 2, 4>>, <<1, 1, 1, 1>>}", PinP=20), inv=("Inv", "Emitted"), name="at4"),
            ctx.gen("Attain", dict(N=6, Kinds=K_TLA, Graphs="RandomGraphs(%d, 8)" % (60 if q else 600), Tys="RandomSubset(%d, [1..6 -> 1..4])" % (60 if q else 300), PinP=17), inv=("Inv", "Emitted"), name="at6")]
    ctx.exhaustive = False
    from neutralocean.surface import omega_surf
    from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
    from neutralocean.eos import make_eos
    from vf.toy import eos_p8, eos_p8_s_t
    rng = np.random.default_rng(ctx.seed + 23)
    cases = [c for g in gens for c in g()]
    byc = {}
    for c in cases:
        if byc.setdefault(repr((c["g"], c["ty"])), c) != c:
            ctx.fail("MachineNotConfluent", c)
    # the same graph and kinds, on toy columns: exact
    toy = real = wetall = slow = 0
    nk = 5
    for v, c in enumerate(byc.values()):
        n = len(c["ty"])
        ed = [(a - 1, b - 1) for a, b in c["g"]]
        S, T, P = (np.empty((n, nk)) for _ in range(3))
        for i, k in enumerate(c["ty"]):
            P[i] = np.array([-80.0, -31.0, 4.0, 55.0, 130.0]) + (v + i) % 3
            S[i] = KINDS[k - 1]["s"]
            T[i] = KINDS[k - 1]["off"] - P[i]
        want = np.array([rat(x) for x in c["p"]])
        w = 2.0 ** rng.integers(-2, 3, len(ed))
        grid = dict(edges=(np.array([a for a, _ in ed]), np.array([b for _, b in ed])))
        if v % 3:
            grid.update(dist=np.full(len(ed), 4e3), distperp=4e3 * w)
        p0 = want[0]
        init = [p0, want + np.where(np.arange(n) == 0, 0, rng.uniform(-15, 15, n)), np.full(n, p0)][v % 3]
        toy += 1
        if v < 2:
            ctx.sample(c)
        try:
            s, t, p, d = omega_surf(S, T, P, grid, pin_cast=0, p_init=init, eos=(eos_p8, eos_p8_s_t), interp="linear", ITER_MAX=60, ITER_MIN=60 if v % 2 else 1, TOL_LRPD_MAV=1e-13, TOL_P_SOLVER=1e-11,
                                    OMEGA_FORMULATION=("poisson", "gradient")[v % 5 == 4], output=False, diags=True)
            if not np.allclose(p, want, rtol=0, atol=1e-6):
                ctx.fail("NeutralSurfaceFound", dict(case=c, init=init, got=p, want=want))
            if d["e_RMS"][-1] > 1e-8:
                ctx.fail("NoErrorLeft", dict(case=c, init=init, e_RMS=d["e_RMS"]))
            path = paths(ed, n)
            far = max(path.values(), key=len)
            z = neutral_trajectory(S[far], T[far], P[far], float(p0), eos=eos_p8, tol_p=1e-11)[2]
            if not np.allclose(z, want[far], rtol=0, atol=1e-6):
                ctx.fail("TrajectoryTracesIt", dict(case=c, path=far, got=z, want=want[far]))
            back = neutral_trajectory(S[far[::-1]], T[far[::-1]], P[far[::-1]], float(want[far[-1]]), eos=eos_p8, tol_p=1e-11)[2]
            if not np.allclose(back[::-1], want[far], rtol=0, atol=1e-6):
                ctx.fail("AndBack", dict(case=c, path=far, got=back, want=want[far][::-1]))
            for a, b in ed[:3]:
                sb, tb, pb = float(S[a, 0]), float(KINDS[c["ty"][a] - 1]["off"] - want[a]), float(want[a])
                z = ntp_bottle_to_cast(sb, tb, pb, S[b], T[b], P[b], tol_p=1e-11, eos=eos_p8)[2]
                if not abs(z - want[b]) < 1e-6:
                    ctx.fail("LinkLandsOnIt", dict(case=c, edge=[a, b], got=z, want=want[b]))
        except Exception as e:
            ctx.fail("raised", dict(case=c, error=repr(e)[:400]))
    # the same graphs and kinds with the library's equations of state on realistic columns
    recs = []
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    graphs = list(byc.values())
    for ci, (name, grav, rho_c, interp) in enumerate(cfgs):
        eos = make_eos(name, grav, rho_c)
        size = abs(float(eos(34.5, 3.0, 1000.0)))
        for v, c in enumerate(graphs[ci::len(cfgs)] if q else graphs):
            n = len(c["ty"])
            ed = [(a - 1, b - 1) for a, b in c["g"]]
            S4, T4, P4 = ocean(rng, 4, 10, masks=["full"] if v % 3 else ["full", "full", "floor", "top"], like=0.7)
            k = np.array(c["ty"]) - 1
            S, T, P = S4[k], T4[k], P4[k]
            blk = P[0][np.isfinite(S[0])]
            pin = float(blk[0] + rng.uniform(0.25, 0.6) * (blk[-1] - blk[0]))
            e2 = (np.array([a for a, _ in ed]), np.array([b for _, b in ed]))
            grid = dict(edges=e2)
            if v % 3:
                dist = rng.uniform(1e4, 9e4, len(ed))
                grid.update(dist=dist, distperp=dist * 2.0 ** rng.integers(-2, 3, len(ed)))
            kw = dict(eos=name, grav=grav, rho_c=rho_c, interp=interp)
            data = dict(S=S, T=T, P=P, edges=ed, pin=pin, cfg=kw)
            try:
                pth = paths(ed, n)
                qq = walk(eos, S, T, P, interp, pin, pth)
                if qq is None:
                    continue
                far = max(pth.values(), key=len)
                z = neutral_trajectory(S[far], T[far], P[far], pin, tol_p=1e-9, **kw)[2]
                # density differences at mid pressure and derivatives at the mean point agree to third order only
                if not np.allclose(z, qq[far], rtol=0, atol=3.0):
                    ctx.fail("TrajectoryTracesIt", dict(data, path=far, got=z, want=qq[far]))
                init = [pin, np.where(np.arange(n) == 0, pin, qq + rng.uniform(-40, 40, n)), np.where(np.arange(n) == 0, pin, pin + rng.uniform(-60, 60, n))][v % 3]
                # contrasting casts joined far apart in depth come to rest slowly
                for most in (40, 1500):
                    s, t, p, d = omega_surf(S, T, P, grid, pin_cast=0, p_init=init, ITER_MAX=most, TOL_LRPD_MAV=0.0, TOL_P_SOLVER=1e-10, output=False, diags=True, **kw)
                    if not np.all(np.isfinite(p)) or np.allclose(p, qq, rtol=0, atol=5e-4):
                        break
                slow += most > 40
            except Exception as e:
                ctx.fail("raised", dict(data, error=repr(e)[:400]))
                continue
            real += 1
            if not np.all(np.isfinite(p)):
                continue            # the surface left the ocean on the way
            wetall += 1
            e_, _ = E.errors(s, t, p, e2, eos)
            recs.append(dict(tla=dict(eps=fxs(e_, 1e12 / size), eslack=40, p=fxs(p, 1e4), q=fxs(qq, 1e4), ty=[int(x) for x in c["ty"]], slack=20), got=p, want=qq, e=e_, **data))
    ctx.note("toy_surfaces", toy); ctx.note("real_surfaces", real); ctx.note("real_compared", wetall); ctx.note("slow_to_rest", slow)
    ctx.note("worst_p", max((float(np.max(abs(r["got"] - r["want"]))) for r in recs), default=0)); ctx.note("worst_e_relative", max((float(np.max(abs(r["e"])) / 1000) for r in recs), default=0))
    if wetall < 0.6 * real:
        ctx.fail("SurfacesMostlyWhole", dict(compared=wetall, of=real))
    ctx.trace("AttainTrace", recs)
    ctx.validated += toy
