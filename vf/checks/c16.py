"""C16: surfaces do not depend on numbering, edge order, or unrelated casts."""
import math
import numpy as np
from vf.core import NANI
from vf import omega as O
from vf.ref import ocean


def starts(q):
    G = [O.CYC, O.K4, O.TRI, O.PATH, O.STAR, [[1, 2, 4], [2, 3, 8], [3, 1, 2], [2, 1, 4], [4, 3, 16]]]
    T = [[1, 7, 8, 9], [7, 1, 9, 8], [9, 8, 1, 1], [1, 8, 6, 7], [1, 4, 7, 8], [7, 10, 1, 9]]
    I = [[20, 25, 16, 24], [21, 30, None, 28], [18, 26, 26, 19]]
    out = []
    for i, g in enumerate(G):
        for j, t in enumerate(T):
            for k, ini in enumerate(I):
                if q and (i + 2 * j + 3 * k) % 9:
                    continue
                pin = 1 + (i + j) % 4
                if t[pin - 1] == 6 or ini[pin - 1] is None:
                    pin = 1
                c = O.TYPES[t[pin - 1] - 1]
                if not (c["lo"] < (ini[pin - 1] or -1) < c["hi"]):
                    continue
                out.append("[g |-> %s, ty |-> %s, ini |-> %s, pin |-> %d]" % (O.seq(g), O.seq(t), O.seq(ini), pin))
    return "{" + ", ".join(out) + "}", len(out)


def run(ctx):
    q = ctx.quick
    st, ns = starts(q)
    g = ctx.gen("Relabel", dict(Types=O.types_tla(), Starts=st, Steps=2 if q else 3, LandType=6, WaterType=7), inv=("Inv", "Emitted"), workers=6, heap="6g")
    from neutralocean.surface import omega_surf, potential_surf, anomaly_surf
    from neutralocean.grid import rectilinear
    from vf.toy import eos_p8, eos_p8_s_t
    cases = g()
    ctx.sample(cases[len(cases) // 2])
    ctx.note("presentations", len(cases)); ctx.note("starts", ns)
    if q:
        cases = cases[:: max(1, len(cases) // 900)]
    n = 0
    for v, c in enumerate(cases):
        N = len(c["ty"])
        S, T, P, _ = O.columns(dict(ty=c["ty"]), 0)
        pin = c["pin"] - 1
        p0 = np.array([np.nan if x == NANI else float(x) for x in c["ini"]])
        zero = np.array([O.rat(x) for x in c["zero"]])
        want = np.array([zero[b - 1] if b else np.nan for b in c["back"]])
        ed = (np.array([e[0] - 1 for e in c["g"]], int), np.array([e[1] - 1 for e in c["g"]], int))
        d = 1000.0 * (1 + (np.arange(len(ed[0])) * 7 + v) % 5)
        grid = dict(edges=ed, dist=d, distperp=np.array([e[2] for e in c["g"]], float) / 4 * d)
        s, t, p, _ = omega_surf(S, T, P, grid, pin_cast=pin, p_init=p0, ITER_MIN=1, ITER_MAX=1, ITER_START_WETTING=99, TOL_P_SOLVER=1e-10, eos=(eos_p8, eos_p8_s_t), output=False,
                                diags=v % 2 == 0, OMEGA_FORMULATION=("poisson", "gradient")[v % 5 == 0])
        n += 1
        if not O.close(p, want, 1e-4 if v % 5 == 0 else 1e-6):
            # a cast exactly at the end of its data may go either way
            edge = [i for i in range(N) if np.isfinite(want[i]) and min(abs(want[i] - O.TYPES[c["ty"][i] - 1]["lo"]), abs(want[i] - O.TYPES[c["ty"][i] - 1]["hi"])) < 1e-6]
            ok = [i for i in range(N) if i not in edge]
            if not O.close(p[ok], want[ok], 1e-4 if v % 5 == 0 else 1e-6):
                ctx.fail("Equivariant", dict(case=c, got=p, want=want))
    ctx.note("omega_replayed", n)
    rng = np.random.default_rng(ctx.seed + 16)
    recs = []

    def rec(a, b, perm, m, tol, extra=0, **kw):
        """a: (s,t,p) on the first presentation (m casts); b on the second, perm[i] = place of cast i"""
        w0 = np.isfinite(a[2]); w1 = np.isfinite(b[2])[perm]
        both = w0 & w1
        d = max([float(np.max(abs(x[both] - y[perm][both]), initial=0.0)) / tt for x, y, tt in zip(a, b, tol)])
        same_nan = all(np.array_equal(np.isfinite(x), np.isfinite(y)[perm]) for x, y in zip(a, b))
        recs.append(dict(tla=dict(wet0=w0.astype(int).tolist(), wet1=w1.astype(int).tolist(), d=int(min(math.ceil(d), 10 ** 6)) if same_nan else 10 ** 6, extra=int(extra)), a=a[2], b=b[2], perm=perm, **kw))

    # isopycnals: one cast's value is its own affair
    for name, kind in (("gsw", "potential"), ("jmd95", "anomaly")):
        from neutralocean.eos import make_eos
        eos = make_eos(name)
        for rep in range(6 if q else 40):
            m = 24
            S, T, P = ocean(rng, m, 8, noise=0.3 * (rep % 2))
            fn = potential_surf if kind == "potential" else anomaly_surf
            ref, iso = (800.0, float(eos(34.9, 6.0, 800.0))) if kind == "potential" else ((34.8, 5.0), 0.0)
            if kind == "potential" and rep % 2:
                ref, iso = 0.0, float(eos(35.0, 10.0, 0.0))
            kw = dict(ref=ref, isoval=iso, eos=name, diags=False, output=False)
            a = fn(S, T, P, **kw)[:3]
            X = ocean(rng, 10, 8, noise=1.0)
            perm = rng.permutation(m + 10)[:m]
            Y = [np.empty((m + 10, 8)) for _ in range(3)]
            rest = np.setdiff1d(np.arange(m + 10), perm)
            for y, x, z in zip(Y, (S, T, P), X):
                y[perm] = x; y[rest] = z
            b = fn(*Y, **kw)[:3]
            rec(a, b, perm, m, (1e-9, 1e-9, 1e-7), what=kind, rep=rep)
            one = int(rng.integers(m))
            c1 = fn(S[one:one + 1], T[one:one + 1], P[one:one + 1], **kw)[:3]
            rec(c1, [x[[one]] for x in a], np.array([0]), 1, (1e-9, 1e-9, 1e-7), what=kind + " alone", rep=rep)
    # omega surfaces on oceans
    for name, grav, rho_c, interp in [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")]:
        for rep in range(10 if q else 60):
            tree = rep % 3 == 2
            ni, nj = (3, 4) if not tree else (1, 9)
            m = ni * nj
            S, T, P = ocean(rng, m, 8, masks=["full"] * 5 + ["top", "floor", "land", "hole"], like=0.75)
            pin = int(rng.integers(m))
            S[pin], T[pin], P[pin] = (x[0] for x in ocean(rng, 1, 8, masks=["full"]))
            pp = float(P[pin][3] + 0.4 * (P[pin][4] - P[pin][3]))
            if tree:          # a random tree: every dry cast is met by one front only, so wetting is determined
                a = np.arange(1, m); b = np.array([int(rng.integers(i)) for i in range(1, m)])
                p0 = pp
                kw = dict(ITER_START_WETTING=1, ITER_STOP_WETTING=2)
            else:
                gr = rectilinear.build_grid((ni, nj), (rep % 2 == 0, False))
                a, b = (np.asarray(x) for x in gr["edges"])
                p0 = np.array([float(np.interp(0.5, [0, 1], [x[2], x[4]])) for x in P]); p0[pin] = pp
                p0[int(rng.integers(m))] = np.nan; p0[pin] = pp
                kw = dict(ITER_START_WETTING=99)
            E = len(a)
            dist, perp = rng.uniform(1e5, 3e5, E), rng.uniform(1e5, 3e5, E)
            kw.update(eos=name, grav=grav, rho_c=rho_c, interp=interp, ITER_MIN=2, ITER_MAX=2, TOL_P_SOLVER=1e-8, output=False, OMEGA_FORMULATION=("poisson", "gradient")[rep % 4 == 3], diags=rep % 2 == 0)
            base = omega_surf(S, T, P, dict(edges=(a, b), dist=dist, distperp=perp), pin_cast=pin, p_init=p0, **kw)[:3]
            # the other presentation: extra land next to it, extra disconnected water
            x = 4
            Z = ocean(rng, x, 8, masks=["full"], like=0.5)
            S2, T2, P2 = (np.concatenate([u, w]) for u, w in zip((S, T, P), Z))
            S2[m:m + 2] = np.nan; T2[m:m + 2] = np.nan           # two land casts joined to the ocean, two water casts joined to each other
            a2 = np.concatenate([a, [m, int(rng.integers(m)), m + 2]]); b2 = np.concatenate([b, [int(rng.integers(m)), m + 1, m + 3]])
            d2, e2 = (np.concatenate([u, rng.uniform(1e5, 3e5, 3)]) for u in (dist, perp))
            perm = rng.permutation(m + x); eo = rng.permutation(E + 3); fl = rng.random(E + 3) < 0.5
            Y = [np.empty((m + x, 8)) for _ in range(3)]
            for y, u in zip(Y, (S2, T2, P2)):
                y[perm] = u
            aa, bb = perm[a2][eo], perm[b2][eo]
            aa, bb = np.where(fl, bb, aa), np.where(fl, aa, bb)
            q0 = p0
            if not tree:
                q0 = np.empty(m + x); q0[perm] = np.concatenate([p0, np.full(x, 900.0)])
            oth = omega_surf(*Y, dict(edges=(aa, bb), dist=d2[eo], distperp=e2[eo]), pin_cast=int(perm[pin]), p_init=q0, **kw)[:3]
            g_ = kw["OMEGA_FORMULATION"] == "gradient"
            rec(base, oth, perm[:m], m, (1e-4, 1e-4, 1e-2) if g_ else (1e-7, 1e-6, 1e-4), extra=int(np.isfinite(oth[2][perm[m:]]).sum()), what="omega", rep=rep, tree=tree, eos=name)
    ctx.trace("RelabelTrace", recs)
    ctx.validated += n
    ctx.note("finite_fraction", float(np.mean([np.mean(r["tla"]["wet0"]) for r in recs])))
    ctx.assumptions += ["omega surfaces are compared without wetting, or on trees where every dry cast is met by one front only: wetting of a cast met by several fronts depends on the order of visiting by design"]
