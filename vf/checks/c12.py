"""C12: the root finder.  Functions enumerated by RootFinder.tla are given to the real
guess_to_bounds / brent / brent_guess; each call is then judged by RootTrace.tla."""
import numpy as np
from vf.core import fx, NANI


def run(ctx):
    q = ctx.quick
    g = ctx.gen("RootFinder", dict(L=4 if q else 5, FVals="{-2, -1, 0, 1, 3}" if q else "{-2, -1, 0, 1, 3}", Guesses="-1..5" if q else "-1..6"),
                inv=("Inv", "Emitted"), name="rf", workers=6, heap="6g")
    lv = ctx.gen("RootFinder", dict(L=3, FVals="{-1, 0, 2}", Guesses="0..3"), inv=("Inv",), props=("Terminates",), name="rflive", workers=1)
    import numba as nb
    from neutralocean.fzero import brent, guess_to_bounds, brent_guess
    LIM = 3000

    @nb.njit
    def f(x, mode, c, nodes, cnt):
        cnt[0] += 1
        if cnt[0] > 3000:
            raise ValueError("stuck")
        if mode == 0:
            n = len(nodes) - 1
            i = min(max(int(np.floor(x)), 0), n - 1)
            return nodes[i] + (nodes[i + 1] - nodes[i]) * (x - i)
        u = x - c
        if mode == 1:
            return u
        if mode == 2:
            return -(u ** 3)
        if mode == 3:
            return np.tanh(60.0 * u)
        if mode == 4:
            return np.exp(4.0 * u) - 1.0
        if mode == 5:
            return u ** 9 * 1e-4
        if mode == 6:
            return -u * (1.0 + 30.0 * u * u)
        if mode == 7:
            return np.sign(u) * np.sqrt(abs(u)) * 1e-8
        if mode == 8:
            return 1e6 * u / (1e-3 + abs(u))
        return 1e-9 * u * (2.0 + np.sin(40.0 * u))

    recs = []
    no = np.zeros(2)

    def call(fn, *a):
        """(value, stuck)"""
        try:
            return fn(*a), False
        except ValueError:
            return None, True

    def sgn(x, mode, c, nodes):
        return int(np.sign(f(x, mode, c, nodes, np.zeros(1))))

    def rec_bounds(A, B, x, mode, c, nodes):
        r, stuck = call(guess_to_bounds, f, x, A, B, (mode, c, nodes, np.zeros(1)))
        a, b = r if not stuck else (np.nan, np.nan)
        cl = min(max(x, A), B)
        recs.append(dict(tla=dict(kind="bounds", stuck=stuck, A=fx(A, 1e6), B=fx(B, 1e6), g=fx(x, 1e6), a=fx(a, 1e6), b=fx(b, 1e6), one=bool(mode > 0 and A < c < B),
                                  rho=int(1000 * ((c - cl) / (B - cl) if c > cl else (cl - c) / (cl - A) if c < cl else 0)) if A < c < B else 0,
                                  sA=sgn(A, mode, c, nodes), sB=sgn(B, mode, c, nodes), sg=sgn(cl, mode, c, nodes),
                                  sa=0 if np.isnan(a) else sgn(a, mode, c, nodes), sb=0 if np.isnan(b) else sgn(b, mode, c, nodes)),
                         call=["guess_to_bounds", mode, c, nodes.tolist(), A, B, x]))
        return a, b, stuck

    def rec_brent(A, B, t, mode, c, nodes, via=None):
        if via is None:
            r, stuck = call(brent, f, A, B, t, (mode, c, nodes, np.zeros(1)))
        else:
            r, stuck = via
        ok = not (np.isnan(A) or np.isnan(B))
        recs.append(dict(tla=dict(kind="brent" if mode == 0 else "smooth", stuck=stuck, A=fx(A, 1e6), B=fx(B, 1e6),
                                  r=NANI if stuck else fx(r, 1e6), tol=int(np.ceil(t * 1e6)),
                                  sA=sgn(A, mode, c, nodes) if ok else 0, sB=sgn(B, mode, c, nodes) if ok else 0,
                                  fn=[int(v) for v in nodes], z=fx(c, 1e6)),
                         call=["brent", mode, c, nodes.tolist(), A, B, t]))

    cases = g()
    lv()
    ctx.sample(cases[7])
    tols = (1e-1, 1e-3, 1e-6, 1e-12)
    rng = np.random.default_rng(ctx.seed)
    step = 1 if q else 3
    for n, cse in enumerate(cases[::step]):
        nodes = np.array(cse["f"], float)
        L = len(nodes) - 1
        gx = float(cse["g"]) + (0.0, 0.37, -0.21)[n % 3]
        a, b, stuck = rec_bounds(0.0, float(L), gx, 0, 0.0, nodes)
        t = tols[n % 4]
        if not stuck and np.isfinite(a):
            rec_brent(a, b, t, 0, 0.0, nodes)
            r = call(brent_guess, f, gx, 0.0, float(L), t, (0, 0.0, nodes, np.zeros(1)))
            rec_brent(a, b, t, 0, 0.0, nodes, via=r)
        if n % 5 == 0:   # direct calls over the whole and over partial intervals
            A, B = sorted(rng.uniform(0, L, 2)) if n % 2 else (0.0, float(L))
            rec_brent(A, B, t, 0, 0.0, nodes)
            rec_bounds(A, B, gx, 0, 0.0, nodes)
        if n % 97 == 0:
            for A, B in ((np.nan, 1.0), (1.0, np.nan), (np.nan, np.nan), (3.0, 1.0), (2.0, 2.0)):
                rec_brent(A, B, t, 0, 0.0, nodes)
            rec_bounds(2.0, 2.0, gx, 0, 0.0, nodes)
    # smooth functions with one root
    nodes = np.zeros(2)
    for mode in range(1, 10):
        for c in (0.0, 1e-9, 0.013, 0.5, 1.7, 3.3, 3.999, 4.0):
            for t in tols:
                for A, B in ((0.0, 4.0), (-1.0, 4.5), (c - 0.3, c + 2.0), (c, c + 1.0), (c - 1.0, c), (c + 0.1, c + 1.0)):
                    rec_brent(A, B, t, mode, c, nodes)
                for gx in (-3.0, 0.0, 1e-15, c, c + 1e-7, 2.0, 4.0 - 1e-15, 4.0, 9.0):
                    rec_bounds(0.0, 4.0, gx, mode, c, nodes)
    # nearly degenerate intervals
    for A in (1.0, 3.7):
        for k in (1, 2, 3, 7):
            B = A
            for _ in range(k):
                B = np.nextafter(B, 10)
            for c in (A, B, 0.5 * (A + B), A - 1):
                for gx in (A, B, 0.0, 9.0):
                    rec_bounds(A, B, gx, 1, c, nodes)
                rec_brent(A, B, 1e-9, 1, c, nodes)
    ctx.note("calls", len(recs))
    ctx.trace("RootTrace", recs)
    ctx.assumptions.append("functions: all piecewise linear ones on 5-6 nodes with values in {-2..3}, and nine smooth shapes (odd powers, saturating, steep, square-root)")
