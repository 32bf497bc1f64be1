"""C11: interpolants.  Every data set explored by Interp.tla is replayed into every variant."""
import numpy as np
from vf.core import NANI


def f(x):
    return np.nan if x == NANI else float(x)


def rat(r):
    return np.nan if r[0] == NANI else r[0] / r[1]


def derivs(piece, u, d):
    c = [a / b for a, b in piece]
    for _ in range(d):
        c = [c[j] * (len(c) - 1 - j) for j in range(len(c) - 1)] or [0.0]
    v = 0.0
    for a in c:
        v = v * u + a
    return v


def expected(c, kind, d, vals):
    """values at the sites of derivative order d, from the pieces the specification computed"""
    if d == 0:
        return [rat(v) for v in c[vals]]
    k, K, x = c["k"] - 1, c["kk"] - 1, c["x"]
    out = []
    for s, v in zip(c["sites"], c[vals]):
        if v[0] == NANI:
            out.append(np.nan)
            continue
        i = next(i for i in range(k, K) if s <= x[i + 1])
        out.append(derivs(c[kind][i - k], s - x[i], d))
    return out


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.array_equal(np.isnan(a), np.isnan(b)) and np.all((np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b))))


def run(ctx):
    q = ctx.quick
    g = [ctx.gen("Interp", dict(NN="{1, 2, 3, 4}", Gaps="{4, 12}", YVals="{0, 1, 3, NaNI}", XMaxNaN=1), inv=("Inv", "Emitted"), name="i4"),
         ctx.gen("Interp", dict(NN="{5}", Gaps="{4, 12}", YVals="{0, 2, 3, NaNI}" if q else "{0, 1, 3, 7, NaNI}", XMaxNaN=0), inv=("Inv", "Emitted"), name="i5")]
    if not q:
        g.append(ctx.gen("Interp", dict(NN="{6}", Gaps="{4, 8}", YVals="{0, 1, 5, NaNI}", XMaxNaN=0), inv=("Inv", "Emitted"), name="i6"))
        g.append(ctx.gen("Interp", dict(NN="{4}", Gaps="{4, 8, 20}", YVals="{-2, 0, 1, 3, 8, NaNI}", XMaxNaN=2), inv=("Inv", "Emitted"), name="i4b"))
    from neutralocean.ppinterp import (make_pp, ppval_1, ppval_1_two, ppval, ppval_two, ppval_1_nonan, ppval_1_nonan_two,
                                       valid_range_1, valid_range_1_two, valid_range, pval)
    from neutralocean.ppinterp import linear as mlin, pchip as mpch
    import itertools
    # every documented combination of the factory, more than its cache holds, in two orders
    combos = [(i, k, o, n, v) for i in ("linear", "pchip") for k in ("1", "u") for o in ("coeffs", "interp")
              for n in (True, False) for v in (1, 2)]
    fn = {}
    for order in (combos, combos[::-1]):
        for cb in order:
            i, k, o, n, v = cb
            legal = not (o == "coeffs" and v != 1) and not (not n and (o == "interp" or k == "u"))
            try:
                r = make_pp(i, kind=k, out=o, nans=n, num_dep_vars=v)
                if not legal:
                    ctx.fail("FactoryRejects", dict(combo=cb))
                fn[cb] = r
            except ValueError:
                if legal:
                    ctx.fail("FactoryAccepts", dict(combo=cb))
    for badarg in (dict(interpolant="cubic"), dict(kind="2"), dict(out="x"), dict(num_dep_vars=3)):
        try:
            make_pp(**badarg)
            ctx.fail("FactoryRejects", badarg)
        except ValueError:
            pass
    cases = [c for r in g for c in r()]
    ctx.sample(cases[len(cases) // 2]); ctx.sample(cases[-1])
    n_eval = 0
    SC = [(1.0, 0.0, 1.0, 0.0), (2.5, 100.0, 1e-3, 34.0)]   # affine images of the data: x -> a x + b, y -> c y + e
    byN = {}
    for c in cases:
        byN.setdefault((len(c["x"]), len(c["sites"])), []).append(c)
    for (N, M), cs in byN.items():
        X0 = np.array([[f(v) for v in c["x"]] for c in cs])
        Y0 = np.array([[f(v) for v in c["y"]] for c in cs])
        s0 = np.array([[f(v) for v in c["sites"]] for c in cs])
        EXP = {(pk, d): np.array([expected(c, pk, d, vk) for c in cs])
               for pk, vk in (("lp", "lin"), ("pp", "pch")) for d in (0, 1, 2, 3)}
        for (a, b, cc, e) in SC:
            X, Y, s = a * X0 + b, cc * Y0 + e, a * s0 + b
            # sites that are data, or at equal fractions, must stay exactly so
            Z = 5.0 - 2.0 * Y
            for kind, pk, vk in (("linear", "lp", "lin"), ("pchip", "pp", "pch")):
                C, CZ = fn[(kind, "u", "coeffs", True, 1)](X, Y), fn[(kind, "u", "coeffs", True, 1)](X, Z)
                iu, iu2 = fn[(kind, "u", "interp", True, 1)], fn[(kind, "u", "interp", True, 2)]
                for d in (0, 1, 2, 3, 4):
                    E0 = EXP[pk, d] if d < 4 else 0.0 * EXP[pk, 0]
                    E = E0 * cc / a ** d + (e if d == 0 else 0)
                    EZ = (5.0 if d == 0 else 0.0) - 2.0 * E
                    scale = 1e-9 * (np.abs(cc) / a ** d) + 1e-12 * abs(e if d == 0 else 0)
                    y2, z2 = ppval_two(s, X[:, None], C[:, None], CZ[:, None], d)
                    y4, z4 = iu2(s, X[:, None], Y[:, None], Z[:, None], d)
                    got = {"ppval": (ppval(s, X[:, None], C[:, None], d), E), "ppval_two.y": (y2, E), "ppval_two.z": (z2, EZ),
                           "interp": (iu(s, X[:, None], Y[:, None], d), E), "interp_two.y": (y4, E), "interp_two.z": (z4, EZ)}
                    if d == 0 and kind == "pchip":      # the order may be left out
                        yd, zd = iu2(s, X[:, None], Y[:, None], Z[:, None])
                        got.update({"interp.default": (iu(s, X[:, None], Y[:, None]), E), "interp_two.y.default": (yd, E), "interp_two.z.default": (zd, EZ)})
                    for nm, (G, Ex) in got.items():
                        n_eval += G.size
                        badm = (np.isnan(G) != np.isnan(Ex)) | (np.abs(G - Ex) > scale * 4 * (1 + np.abs(Ex)))
                        for r_, s_ in list(zip(*np.nonzero(badm)))[:3]:
                            ctx.fail(f"{kind}:{nm}:d{min(d, 3)}", dict(case=cs[r_], scaling=(a, b, cc, e), site=s[r_, s_], d=d,
                                                                       got=G[r_, s_], want=Ex[r_, s_]))
    # scalar variants, called one at a time
    for n, c in enumerate(cases):
        k, K = c["k"], c["kk"]
        X, Y = np.array([f(v) for v in c["x"]]), np.array([f(v) for v in c["y"]])
        want = (k - 1, K) if K >= k else (len(X), len(X))
        if tuple(map(int, valid_range_1_two(X, Y))) != want or tuple(map(int, valid_range_1_two(Y, X))) != want:
            ctx.fail("ValidRangeTwo", dict(case=c, got=valid_range_1_two(X, Y)))
        if not np.isnan(X).any():
            if tuple(map(int, valid_range_1(Y))) != want or tuple(int(v) for v in valid_range(Y)) != want:
                ctx.fail("ValidRange", dict(case=c, got=[valid_range_1(Y), valid_range(Y)]))
        if n % (4 if q else 1) and len(X) > 3:
            continue
        Z = 5.0 - 2.0 * Y
        for kind, pk, vk in (("linear", "lp", "lin"), ("pchip", "pp", "pch")):
            co, i1, i2 = fn[(kind, "1", "coeffs", True, 1)], fn[(kind, "1", "interp", True, 1)], fn[(kind, "1", "interp", True, 2)]
            cn = fn[(kind, "1", "coeffs", False, 1)]
            C, CZ = co(X, Y), co(X, Z)
            if C.shape[0] != len(X):
                ctx.fail("CoeffShape", dict(case=c, got=C.shape))
            blk = K - k >= 1
            if blk:
                Xb, Yb, Zb = X[k - 1:K].copy(), Y[k - 1:K].copy(), Z[k - 1:K].copy()
                Cb, CZb = cn(Xb, Yb), cn(Xb, Zb)
            if n % 7 == 0:      # the order of the derivative may be left out
                for sv, ex in zip(c["sites"], expected(c, pk, 0, vk)):
                    sv = f(sv)
                    ez = 5.0 - 2.0 * ex
                    got = [("ppval_1", ppval_1(sv, X, C), ex), ("ppval_1_two.y", ppval_1_two(sv, X, C, CZ)[0], ex), ("ppval_1_two.z", ppval_1_two(sv, X, C, CZ)[1], ez)]
                    if blk:
                        got += [("ppval_1_nonan", ppval_1_nonan(sv, Xb, Cb), ex), ("ppval_1_nonan_two.z", ppval_1_nonan_two(sv, Xb, Cb, CZb)[1], ez)]
                    got += [("interp_1", i1(sv, X, Y), ex)] + list(zip(("interp_1_two.y", "interp_1_two.z"), i2(sv, X, Y, Z), (ex, ez)))
                    got += [("pval", pval(sv - X[j], C[j]), ex) for j in range(k - 1, K - 1) if blk and X[j] < sv < X[j + 1]]
                    for nm, v, w in got:
                        if np.isnan(v) != np.isnan(w) or abs(v - w) > 1e-9 * (1 + abs(w)):
                            ctx.fail(f"{kind}:{nm}:default", dict(case=c, site=sv, got=v, want=w))
            for d in (0, 1, 2, 3) if n % 3 == 0 else (0,):
                E = expected(c, pk, d, vk)
                for s, ex in zip(c["sites"], E):
                    s = f(s)
                    ez = (5.0 if d == 0 else 0.0) - 2.0 * ex
                    got = [("ppval_1", ppval_1(s, X, C, d), ex), ("interp_1", i1(s, X, Y, d), ex)]
                    yz = ppval_1_two(s, X, C, CZ, d); got += [("ppval_1_two.y", yz[0], ex), ("ppval_1_two.z", yz[1], ez)]
                    yz = i2(s, X, Y, Z, d); got += [("interp_1_two.y", yz[0], ex), ("interp_1_two.z", yz[1], ez)]
                    if blk:
                        yz = ppval_1_nonan_two(s, Xb, Cb, CZb, d)
                        got += [("ppval_1_nonan", ppval_1_nonan(s, Xb, Cb, d), ex), ("ppval_1_nonan_two.y", yz[0], ex), ("ppval_1_nonan_two.z", yz[1], ez)]
                    n_eval += len(got)
                    for nm, v, w in got:
                        if np.isnan(v) != np.isnan(w) or abs(v - w) > 1e-9 * (1 + abs(w)):
                            ctx.fail(f"{kind}:{nm}:d{d}", dict(case=c, site=s, d=d, got=v, want=w))
    ctx.validated = len(cases)
    ctx.note("evaluations", n_eval)
    ctx.note("data_sets", len(cases))
    ctx.note("variants", "coeffs+ppval(_1,_two,_nonan), interp(_1,_two), universal and scalar, derivatives 0..4")
    ctx.assumptions.append("rational data: X multiples of 4 with 2-3 distinct spacings, Y from a small integer set plus NaN, and an affine image of it at oceanographic scale")
