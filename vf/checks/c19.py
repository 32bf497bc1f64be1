"""C19: unstable pairs are counted, stabilized casts are stable."""
import math
import numpy as np
from scipy.optimize import nnls, minimize
from vf.core import NANI
from vf.ref import ocean, block
from vf.omega import rat


def f(a):
    a = np.array(a, float); a[a == NANI] = np.nan
    return a


def grads(S, T, P, eos):
    pa = (P[1:] + P[:-1]) / 2
    return (eos(S[1:], T[1:], pa) - eos(S[:-1], T[:-1], pa)) / (P[1:] - P[:-1])


def smallest(S, T, P, m, w, eos, es):
    """weighted size of the smallest change reaching the minimum gradients: sequence of least-distance
    problems (constraints linearised about the last solution; one suffices if density is linear)"""
    n = len(S)
    W = np.concatenate([np.full(n, math.sqrt(w)), np.ones(n)])
    x = np.zeros(2 * n)
    pa, dp = (P[1:] + P[:-1]) / 2, P[1:] - P[:-1]
    for it in range(25):
        s, t = S + x[:n], T + x[n:]
        g = grads(s, t, P, eos) - m
        J = np.zeros((n - 1, 2 * n))
        for i in range(n - 1):
            for j, sg in ((i, -1.0), (i + 1, 1.0)):
                a, b = es(float(s[j]), float(t[j]), float(pa[i]))
                J[i, j] += sg * a / dp[i]; J[i, n + j] += sg * b / dp[i]
        h = J @ x - g                       # J y >= h
        E = np.vstack([(J / W).T * 1.0, h]) # least distance programming (Lawson & Hanson)
        sc = np.max(abs(E)) or 1.0
        u, _ = nnls(E / sc, np.concatenate([np.zeros(2 * n), [1.0]]), maxiter=1000)
        r = E / sc @ u - np.concatenate([np.zeros(2 * n), [1.0]])
        if abs(r[-1]) < 1e-14:
            return None
        y = -r[:-1] / r[-1] / W
        if np.max(abs(y - x)) < 1e-13:
            x = y
            break
        x = y
    return float(np.sum((W * x) ** 2))


def run(ctx):
    q = ctx.quick
    B = "{<<1, 6>>, <<2, 5>>, <<2, 3>>, <<3, 6>>, NoB}"
    g2 = ctx.gen("Stability", dict(NN="{2}", Gaps="{4, 8}", Bottles="{<<1, 6>>, <<2, 5>>, <<2, 3>>, <<3, 6>>, <<4, 1>>, NoB}", Mins="{0, 4, 40}", Weights="{1, 10, 100}" if q else "{1, 5, 10, 100}"), inv=("Inv", "Emitted"), workers=2, name="stab2")
    g3 = ctx.gen("Stability", dict(NN="{3, 4}" if q else "{3, 4, 5}", Gaps="{4, 8}" if not q else "{4}", Bottles=B, Mins="{1}" if q else "{1, 20}", Weights="{100}"), inv=("Inv", "Emitted"), workers=4, name="stab3")
    g4 = ctx.gen("Stability", dict(NN="{3}", Gaps="{4, 8}", Bottles=B, Mins="{0, 20}", Weights="{10}" if q else "{2, 10}"), inv=("Inv", "Emitted"), workers=2, name="stab4")
    from neutralocean.stability import stabilize_ST, count_unstable
    from neutralocean.eos import make_eos, make_eos_s_t, vectorize_eos
    from vf.toy import eos_p8, eos_p8_s_t
    from neutralocean.ppinterp import make_pp
    lin, pch = (make_pp(x, kind="u", out="interp", num_dep_vars=2) for x in ("linear", "pchip"))
    toy_s_t = eos_p8_s_t
    recs, n = [], 0

    def quiet(S, T, P, eos, **kw):
        stabilize_ST(S, T, P, eos, verbose=False, **kw)

    def judge(S0, T0, P, S1, T1, m, w, eos, es, alone, cnt, want, tolg, **info):
        """one cast -> one record"""
        nk = len(S0)
        v = np.isfinite(S0); va = np.isfinite(S1)
        k, K = block(S0, P)
        below, short = [0] * (nk - 1), [0] * (nk - 1)
        excess, outside = 0, True
        if K - k >= 2:
            m1 = m[k:K - 1]
            g0 = grads(S0[k:K], T0[k:K], P[k:K], eos) - m1
            g1 = grads(S1[k:K], T1[k:K], P[k:K], eos) - m1
            for i in range(K - k - 1):
                below[k + i] = 2 if abs(g0[i]) < 1e-13 * max(1, abs(m1[i])) else int(g0[i] < 0)
                short[k + i] = int(min(math.ceil(-g1[i] / tolg), 10 ** 6)) if math.isfinite(g1[i]) and g1[i] < 0 else 0 if math.isfinite(g1[i]) else 10 ** 6
            if np.any(g0 < 0):
                dx = w * np.sum((S1[k:K] - S0[k:K]) ** 2) + np.sum((T1[k:K] - T0[k:K]) ** 2)
                best = smallest(S0[k:K], T0[k:K], P[k:K], m1, w, eos, es)
                if best is not None:
                    excess = int(min(math.ceil(max(0.0, dx - best) / (1e-3 * best + 1e-9)), 10 ** 6)) if math.isfinite(dx) else 10 ** 6
        o = np.ones(nk, bool); o[k:K] = False
        outside = bool(np.array_equal(S0[o], S1[o], equal_nan=True) and np.array_equal(T0[o], T1[o], equal_nan=True))
        same = bool(np.array_equal(S0, S1, equal_nan=True) and np.array_equal(T0, T1, equal_nan=True))
        recs.append(dict(tla=dict(v=v.astype(int).tolist(), va=(va & np.isfinite(T1)).astype(int).tolist(), below=below, short=short, same=same, outside=outside, excess=excess, alone=bool(alone), count=int(cnt), want=int(want)),
                         S=S0, T=T0, P=P, S1=S1, T1=T1, mn=m, w=w, **info))

    # --- small casts from the specification, batched by (length, minimum, weight)
    cases = g2() + g3() + g4()
    ctx.sample(cases[len(cases) // 3])
    grp = {}
    for c in cases:
        grp.setdefault((len(c["s"]), tuple(c["mn"]), c["wt"]), []).append(c)
    chg = 0
    for gi, (key, cs) in enumerate(sorted(grp.items())):
        nk, mn, w = key
        w = w / 10
        S, T, P = (np.array([f(c[x]) for c in cs]) for x in "stp")
        # counting: all casts of the group at once, and one by one
        tot = int(count_unstable(S, T, P, eos=eos_p8))
        if tot != sum(c["count"] for c in cs):
            ctx.fail("Count", dict(got=tot, want=sum(c["count"] for c in cs), S=S, T=T, P=P))
        # ... and with an interpolant, bottle by bottle
        tot = int(count_unstable(S, T, P, interp_two=lin, eos_s_t=toy_s_t))
        if tot != sum(c["icount"] for c in cs):
            ctx.fail("InterpCount", dict(got=tot, want=sum(c["icount"] for c in cs), S=S, T=T, P=P))
        m = np.array(mn, float) / 16
        S1, T1 = S.copy(), T.copy()
        try:
            quiet(S1, T1, P.copy(), eos_p8, min_dLRPDdp=m if len(set(mn)) > 1 or gi % 2 else float(m[0]), weight=float(w))
        except Exception as ex:
            ctx.fail(f"raises {type(ex).__name__}", dict(error=str(ex)[:300], S=S, T=T, P=P, mn=mn))
            continue
        for i, c in enumerate(cs):
            n += 1
            cnt = count_unstable(S[i:i + 1], T[i:i + 1], P[i:i + 1], eos=eos_p8)
            ic = count_unstable(S[i], T[i], P[i], interp_two=lin, eos_s_t=toy_s_t)
            if int(ic) != c["icount"]:
                ctx.fail("InterpCount", dict(case=c, got=int(ic)))
            alone = True
            if c["out"] == "changed":
                chg += 1
                if chg % 9 == 0:
                    a, b = S[i:i + 1].copy(), T[i:i + 1].copy()
                    quiet(a, b, P[i:i + 1], eos_p8, min_dLRPDdp=m, weight=float(w))
                    alone = np.allclose(a[0], S1[i], rtol=0, atol=1e-9, equal_nan=True) and np.allclose(b[0], T1[i], rtol=0, atol=1e-9, equal_nan=True)
            if c["new"]:
                ds, dt = rat(c["new"][0]), rat(c["new"][1])
                k = c["k"] - 1
                want = np.array([S[i, k] - ds, S[i, k + 1] + ds, T[i, k] + dt, T[i, k + 1] - dt])
                got = np.array([S1[i, k], S1[i, k + 1], T1[i, k], T1[i, k + 1]])
                if not np.allclose(got, want, rtol=0, atol=1e-3):
                    ctx.fail("ClosedForm", dict(case=c, got=got, want=want))
            judge(S[i], T[i], P[i], S1[i], T1[i], m, w, eos_p8, eos_p8_s_t, alone, cnt, c["count"], 1e-6, case=c["out"])
            if c["out"] == "same" and not (np.array_equal(S[i], S1[i], equal_nan=True) and np.array_equal(T[i], T1[i], equal_nan=True)):
                ctx.fail("Untouched", dict(case=c, S1=S1[i], T1=T1[i]))
    ctx.note("toy_casts", n); ctx.note("toy_changed", chg)
    # --- oceans
    rng = np.random.default_rng(ctx.seed + 19)
    cfgs = [("jmd95", None, None), ("jmdfwg06", 9.81, 1027.5)]
    for name, grav, rho_c in cfgs:
        e0, es = make_eos(name, grav, rho_c), make_eos_s_t(name, grav, rho_c)
        ev = vectorize_eos(e0)
        for rep in range(5 if q else 30):
            hs = [(6,), (2, 3), (2, 2, 2)][rep % 3]
            nc, nk = int(np.prod(hs)), 8
            S, T, P = ocean(rng, nc, nk, noise=[0.0, 0.3, 1.0][rep % 3], shared_p=rep % 4 == 3)
            if rep % 3 == 0:                       # mild: one pair swapped in half of the casts
                for c in range(0, nc, 2):
                    T[c, [3, 4]] = T[c, [4, 3]]; S[c, [3, 4]] = S[c, [4, 3]]
            m = np.full(nk - 1, 1e-6) if rep % 2 == 0 else 10.0 ** rng.uniform(-7, -4, nk - 1)
            w = [10.0, 1.0, 50.0, 0.2][rep % 4]
            kw = dict() if rep == 0 else dict(min_dLRPDdp=m if rep % 2 else 1e-6, weight=w)
            w = 10.0 if rep == 0 else w
            A, B, C = (x.reshape(*hs, nk).copy() for x in (S, T, P))
            c0 = count_unstable(A, B, C, eos=ev)
            try:
                quiet(A, B, C, ev, **kw)
            except Exception as ex:
                ctx.fail(f"raises {type(ex).__name__}", dict(error=str(ex)[:300], rep=rep, name=name))
                continue
            A, B = A.reshape(nc, nk), B.reshape(nc, nk)
            want = 0
            for c in range(nc):
                ok = np.isfinite(S[c, 1:]) & np.isfinite(S[c, :-1])
                gr = grads(S[c], T[c], P[c], ev)
                want += int(np.sum(ok & (gr <= 0)))
            for c in range(nc):
                alone = True
                if c % 3 == rep % 3:
                    a, b = S[c:c + 1].copy(), T[c:c + 1].copy()
                    quiet(a, b, P[c:c + 1], ev, **kw)
                    alone = np.allclose(a[0], A[c], rtol=0, atol=1e-9, equal_nan=True) and np.allclose(b[0], B[c], rtol=0, atol=1e-9, equal_nan=True)
                judge(S[c], T[c], P[c], A[c], B[c], m, w, ev, es, alone, c0, want, 1e-9, meta=dict(eos=name, rep=rep))
            n += nc
            if int(count_unstable(A, B, P, eos=ev)) > sum(int(np.sum(np.isfinite(S[c, 1:]) & np.isfinite(S[c, :-1]) & (grads(S[c], T[c], P[c], ev) <= 0))) for c in range(nc) if block(S[c], P[c])[1] < nk and np.isfinite(S[c, block(S[c], P[c])[1]:]).any()):
                ctx.fail("StableAfter", dict(rep=rep, name=name))
    # --- bottle by bottle, with the interpolants and a real equation of state
    from scipy.interpolate import PchipInterpolator
    es = make_eos_s_t("jmd95", 9.81, 1027.5)

    def es_v(s, t, p):
        s, t, p = np.broadcast_arrays(s, t, p)
        r = np.array([es(*x) for x in zip(s.ravel().tolist(), t.ravel().tolist(), p.ravel().tolist())]).reshape(-1, 2)
        return r[:, 0].reshape(s.shape), r[:, 1].reshape(s.shape)

    ib = 0
    for rep in range(12 if q else 60):
        hs = [(6,), (2, 3), ()][rep % 3]
        nc, nk = int(np.prod(hs)), 8
        S, T, P = ocean(rng, nc, nk, noise=[0.0, 0.3, 1.0][rep // 3 % 3], shared_p=rep % 4 == 3)
        for fn, kind in ((lin, "linear"), (pch, "pchip")):
            lo = hi = 0
            for c in range(nc):
                k, K = block(S[c], P[c])
                if K - k < 2:
                    continue
                s, t, p = S[c, k:K], T[c, k:K], P[c, k:K]
                if kind == "linear":
                    j = np.maximum(np.arange(K - k) - 1, 0)
                    ds, dt = ((np.diff(x) / np.diff(p))[j] for x in (s, t))
                else:
                    ds, dt = (PchipInterpolator(p, x)(p, 1) for x in (s, t))
                r = es_v(s, t, p)
                a, b = r[0] * ds, r[1] * dt
                tie = abs(a + b) < 1e-11 * (np.max(abs(r[0])) * np.max(abs(np.diff(s) / np.diff(p))) + np.max(abs(r[1])) * np.max(abs(np.diff(t) / np.diff(p))))
                lo += int(np.sum((a + b < 0) & ~tie)); hi += int(np.sum((a + b < 0) | tie))
            A, B, C = (np.ascontiguousarray(x).reshape(*hs, nk) for x in (S, T, P))
            vd = -1
            if rep % 2 and hs:
                A, B, C = (np.ascontiguousarray(np.moveaxis(x, -1, 0)) for x in (A, B, C)); vd = 0
            got = int(count_unstable(A, B, C, interp_two=fn, eos_s_t=es_v, vert_dim=vd))
            ib += hi
            if not lo <= got <= hi:
                ctx.fail("InterpCount", dict(kind=kind, got=got, want=[lo, hi], S=S, T=T, P=P))
    ctx.note("interpolated_falls", ib)
    # --- an optimizer that stops too early: no cast is handed back half way
    raised = 0
    for rep in range(12 if q else 60):
        nc, nk = 6, 8
        S, T, P = ocean(rng, nc, nk, noise=[0.3, 1.0][rep % 2], shared_p=False)
        m = np.full(nk - 1, 1e-6)
        A, B, stopped = S.copy(), T.copy(), False
        try:
            quiet(A, B, P, ev, options={"maxiter": 1 + rep % 4}, min_dLRPDdp=1e-6)
        except RuntimeError:
            stopped = True
            raised += 1
        except Exception as ex:
            ctx.fail(f"raises {type(ex).__name__}", dict(error=str(ex)[:300], rep=rep))
            continue
        for c in range(nc):
            k, K = block(S[c], P[c])
            touched = not (np.array_equal(S[c], A[c], equal_nan=True) and np.array_equal(T[c], B[c], equal_nan=True))
            if K - k > 1 and (touched or not stopped) and np.any(grads(A[c, k:K], B[c, k:K], P[c, k:K], ev) < 1e-6 - 1e-9):
                ctx.fail("HalfWay", dict(rep=rep, cast=c, S=S[c], T=T[c], P=P[c], S1=A[c], T1=B[c]))
    ctx.note("early_stops_raised", raised)
    ctx.trace("StabTrace", recs)
    ctx.note("records", len(recs))
    ctx.note("changed", sum(not r["tla"]["same"] for r in recs))
    ctx.assumptions += ["the minimum gradient is required up to 1e-9 kg/m3 per unit pressure (1e-6 for the toy), the size of the change up to 0.1% of the smallest one, which is found by an independent least-distance solver"]
