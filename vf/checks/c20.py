"""C20: a result depends on the call only, whatever was called before in the process."""
import collections, os, multiprocessing as mp
import numpy as np
from vf.ref import ocean

BSQ = {"jmd95-a": ("jmd95", 9.81, 1027.5), "jmd95-b": ("jmd95", 9.7, 1100.0), "gsw": ("gsw", None, None), "jmd95": ("jmd95", None, None)}


def custom(k):
    """two equations of state that share their names"""
    import numba as nb

    @nb.njit
    def rho(s, t, p):
        return 1000.0 + 0.8 * s - (0.15 + 0.02 * k) * t - k * 1e-6 * t * p + 0.0045 * p

    @nb.njit
    def rho_s_t(s, t, p):
        return 0.8 + 0.0 * s, -(0.15 + 0.02 * k) - k * 1e-6 * p + 0.0 * t
    return rho, rho_s_t


def oceans(seed):
    rng = np.random.default_rng(seed)
    out = {}
    for d, (ni, nj, nk) in {1: (3, 4, 8), 2: (5, 3, 6), 3: (3, 4, 8)}.items():
        while True:
            S, T, P = ocean(rng, ni * nj, nk, masks=["full"] * 4 + ["floor"], shared_p=True, like=0.8)
            if np.isfinite(S[nj + 1]).all():          # the pinning cast
                break
        S, T, P = (np.reshape(x, (ni, nj, nk)) for x in (S, T, P))
        if d == 3:
            T = T + 0.7 * np.cos(np.arange(ni)).reshape(ni, 1, 1)
        out[d] = S, T, P
    return out


def play(job):
    """run one session in this (fresh) process; every result, as returned and as it looks at the end"""
    log, seed = job
    from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.traj import neutral_trajectory, ntp_bottle_to_cast
    from neutralocean.label import veronis
    from neutralocean.ntp import ntp_epsilon_errors_norms, ntp_epsilon_errors
    from neutralocean.stability import count_unstable
    from neutralocean.grid.rectilinear import build_grid
    from neutralocean.eos import make_eos, make_eos_s_t
    data = oceans(seed)
    buf = {1: [x.copy() for x in data[1]], 2: [x.copy() for x in data[2]]}
    if len(log) > 3:
        # a caller may do what it likes with the grids it was given
        for dims, per in (((3, 4), (False, False)), ((5, 3), (True, False))):
            g = build_grid(dims, per)
            for x in [*g["edges"], g["dist"], g["distperp"]]:
                if np.ndim(x) and x.flags.writeable:
                    x[:] = 0
    grids = {1: build_grid((3, 4), (False, False)), 2: build_grid((5, 3), (True, False))}
    dist0 = {k: (np.arange(1.0, 1 + len(g["edges"][0])), np.full(len(g["edges"][0]), 2.0)) for k, g in grids.items()}
    toys = {"toy-0": custom(0), "toy-1": custom(1)}
    mid, end, kept = [], [], []

    def arrays(x):
        if isinstance(x, dict):
            return [a for k in sorted(x) if not k.startswith("timer") for a in arrays(x[k])]
        if isinstance(x, (tuple, list)):
            return [a for y in x for a in arrays(y)]
        return [x]
    for c in log:
        b = 2 if c["d"] == 2 else 1
        for x, y in zip(buf[b], data[c["d"]]):
            np.copyto(x, y)
        S, T, P = buf[b]
        g = grids[b]
        if "dist" not in g or np.ndim(g["dist"]) == 0:
            g["dist"], g["distperp"] = (x.copy() for x in dist0[b])
        np.copyto(g["dist"], dist0[b][0] * (1.0 if c["d"] != 3 else 1.0 + np.arange(len(g["dist"])) % 3))
        it = c["i"]
        named = c["e"] in BSQ
        name, grav, rho_c = BSQ.get(c["e"], (None, None, None))
        fun = (make_eos(name, grav, rho_c), make_eos_s_t(name, grav, rho_c)) if named else toys[c["e"]]
        ek = dict(eos=name, grav=grav, rho_c=rho_c) if named else dict(eos=toys[c["e"]])
        e1 = dict(ek) if named else dict(eos=toys[c["e"]][0])
        pin, pp = (1, 1), float(P[1, 1, 3]) + 1.0
        try:
            if c["bad"]:
                k = len(mid) % 4
                if k == 0:
                    potential_surf(S, T, P, isoval=1.0, diags=False, interp=it, **ek)
                elif k == 1:
                    omega_surf(S, T, P, g, pin_cast=pin, p_init=-50.0, interp=it, output=False, **ek)
                elif k == 2:
                    potential_surf(S, T, P, grid=g, pin_cast=pin, pin_p=500.0, eos="nosuch", output=False)
                else:
                    mixed_layer(S, T, P, fun[0], interp="nosuch")
                r = ("no error",)
            elif c["f"] == "potential":
                r = potential_surf(S, T, P, grid=g, pin_cast=pin, pin_p=pp, interp=it, output=False, **ek)
            elif c["f"] == "anomaly":
                r = anomaly_surf(S, T, P, grid=g, pin_cast=pin, pin_p=pp, interp=it, output=False, **ek)
            elif c["f"] == "omega":
                r = omega_surf(S, T, P, g, pin_cast=pin, p_init=pp, interp=it, ITER_MAX=2, output=False, **ek)
            elif c["f"] == "mixed":
                r = mixed_layer(S, T, P, fun[0], interp=it)
            elif c["f"] == "trajectory":
                r = neutral_trajectory(S[:, 1], T[:, 1], P[:, 1], float(P[0, 1, 2]) + 1.0, interp=it, **e1)
            elif c["f"] == "link":
                r = ntp_bottle_to_cast(S[0, 0, 2], T[0, 0, 2], P[0, 0, 2], S[1, 1], T[1, 1], P[1, 1], interp=it, **e1)
            elif c["f"] == "veronis":
                r = veronis(pp, S[1, 1], T[1, 1], P[1, 1], interp=it, dp=50.0, **ek)
            elif c["f"] == "norms":
                s, t, p = S[..., 1].copy(), T[..., 1].copy(), P[..., 1] + np.arange(S[..., 1].size).reshape(S.shape[:2])
                r = ntp_epsilon_errors_norms(s, t, p, g, fun[1]), ntp_epsilon_errors(s, t, p, g, fun[1])
            else:
                r = count_unstable(S, T, P, eos=fun[0])
        except Exception as x:
            r = ("error",) if c["bad"] else ("raised " + repr(x)[:300],)
        a = arrays(r)
        kept.append(a)
        mid.append([np.array(x, dtype=object if isinstance(x, str) else float) for x in a])
    for a in kept:
        end.append([np.array(x, dtype=object if isinstance(x, str) else float) for x in a])
    return mid, end


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype == object:
            if not np.array_equal(x, y):
                return False
        elif not np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
            return False
    return True


def warm():
    """compile what every session needs, without going through anything that remembers"""
    import neutralocean.surface, neutralocean.traj, neutralocean.label, neutralocean.mixed_layer, neutralocean.stability  # noqa
    from neutralocean.eos import jmd95, gsw
    from neutralocean.ppinterp import linear, pchip, ppinterp
    from neutralocean import bfs
    from neutralocean.grid import graph
    X = np.arange(6.0); Y = X ** 2
    xy = [(linear, "linear_coeffs_1", (X, Y)), (linear, "linear_coeffs_1_nonan", (X, Y)), (pchip, "pchip_coeffs_1", (X, Y)), (pchip, "pchip_coeffs_1_nonan", (X, Y)),
          (ppinterp, "ppval_1_two", (1.5, X, np.zeros((6, 2)), np.zeros((6, 2)))), (ppinterp, "ppval_1_two", (1.5, X, np.zeros((6, 4)), np.zeros((6, 4)))),
          (graph, "edges_to_csr", ((np.array([0, 1]), np.array([1, 2])), 3))]
    xy += [(m, n, (35.0, 10.0, 1000.0)) for m in (jmd95, gsw) for n in ("rho", "rho_s_t", "rho_p", "specvol", "specvol_s_t", "specvol_p", "specvol_first_derivs")]
    for m, n, args in xy:
        try:
            getattr(m, n)(*args)
        except Exception:
            pass


def run(ctx):
    q = ctx.quick
    small = dict(Calcs='{"potential", "mixed"}', Solvers='{"potential"}', EosIds='{"a", "b"}', Interps='{"l", "p"}', Oceans="{1, 3}", BadOnes="{TRUE, FALSE}",
                 Aspects='{"calc", "eos", "interp"}', CapE=1, CapP=1, CapS=2, MaxLen=3)
    gs = [ctx.gen("Session", small, inv=("Inv",), props=("KeepsAnswers",), name="ses_small", workers=3)]
    surf = '{"potential", "anomaly", "omega"}'
    rest = '{"mixed", "trajectory", "link", "veronis", "norms", "count"}'
    toys, bsq, nat = '{"toy-0", "toy-1"}', '{"jmd95-a", "jmd95-b"}', '{"jmd95", "jmd95-b", "gsw"}'
    B, G = "{TRUE, FALSE}", "{FALSE}"
    ln = 18 if q else 40
    for k, (calcs, eos, asp, bad, num) in enumerate([(surf, toys, "eos", G, 3), (surf, bsq, "eos", B, 3), (surf, nat, "eos", G, 2), (surf, toys, "interp", B, 2), (surf, bsq, "calc", G, 2),
                                                     (rest, toys, "eos", B, 4), (rest, bsq, "eos", G, 4), (rest, nat, "eos", B, 4), (rest, nat, "interp", G, 4), (rest, toys, "calc", G, 3)]):
        gs.append(ctx.gen("Session", dict(Calcs=calcs, Solvers=surf, EosIds=eos, Interps='{"linear", "pchip"}', Oceans="{1, 2, 3}", BadOnes=bad, Aspects='{"%s"}' % asp, CapE=10, CapP=10, CapS=10, MaxLen=ln),
                          inv=("Inv", "Emitted"), name=f"ses{k}", simulate=(num if q else 8 * num, ln + 2), workers=1))
    if not q:
        gs.append(ctx.gen("Session", dict(Calcs=surf, Solvers=surf, EosIds='{"toy-0", "toy-1", "jmd95-a", "jmd95-b", "gsw"}', Interps='{"linear", "pchip"}', Oceans="{1, 2, 3}", BadOnes=B, Aspects='{"calc", "eos", "interp"}',
                                          CapE=10, CapP=10, CapS=10, MaxLen=60), inv=("Inv", "Emitted"), name="seslong", simulate=(12, 62), workers=1))
    gs[0]()
    # (in simulation, every successor of the last state is emitted: one of each bunch is kept)
    logs = list({str(c["log"][:-1]): c["log"] for g in gs[1:] for c in g()}.values())
    ctx.sample(logs[0][:4])
    warm()
    combos = sorted({(c["f"], c["e"], c["i"]) for l in logs for c in l})
    fresh = [[dict(f=f, e=e, i=i, d=d, bad=False) for d in (1, 2, 3)] for f, e, i in combos]
    logs.sort(key=lambda l: l[0]["f"] not in surf)
    fresh.sort(key=lambda l: l[0]["f"] not in surf)
    jobs = [(l, ctx.seed) for l in logs + fresh]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(play, jobs, chunksize=1)
    flat = {(c["f"], c["e"], c["i"], c["d"]): m for (log, _), (mid, _) in zip(jobs[len(logs):], res[len(logs):]) for c, m in zip(log, mid)}
    calls = fin = 0
    for (log, _), (mid, end) in zip(jobs, res):
        for k, c in enumerate(log):
            calls += 1
            prev = log[:k]
            if not same(mid[k], end[k]):
                ctx.fail("ResultChangedLater", dict(call=c, log=log, was=mid[k], now=end[k]))
            if c["bad"]:
                if mid[k][0].dtype != object or mid[k][0] != "error":
                    ctx.fail("MalformedAnswered", dict(call=c, k=k, log=prev))
                continue
            if mid[k][0].dtype == object:
                ctx.fail("Raised", dict(call=c, log=prev, got=mid[k]))
            elif not same(mid[k], flat[c["f"], c["e"], c["i"], c["d"]]):
                ctx.fail("DependsOnHistory", dict(call=c, history=prev, got=mid[k], fresh=flat[c["f"], c["e"], c["i"], c["d"]]))
            fin += any(np.isfinite(x).any() for x in mid[k] if x.dtype != object)
    # different calls must be able to differ at all (the comparison is not vacuous)
    diff = sum(1 for k in flat for m in flat if k[0] == m[0] and k < m and not same(flat[k], flat[m]))
    ctx.note("calls", calls); ctx.note("distinct_calls", len(flat)); ctx.note("sessions", len(logs))
    ctx.note("finite", fin); ctx.note("differing_pairs_of_calls", diff)
    ctx.validated += calls
    ctx.assumptions.append("sessions are random walks of the model; results compared to 1e-9 relative across processes")
