"""C22: column depth, values at layers, taking and grouping, first unbroken runs."""
import numpy as np
from vf.core import NANI


def nanned(seq):
    return np.array([np.nan if v == NANI else float(v) for v in seq])


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def run(ctx):
    q = ctx.quick
    shapes = "{<<1>>, <<2>>, <<5>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<2, 2, 2>>, <<1, 2, 3>>, <<2, 1, 3>>, <<2, 3, 1>>, <<1, 1, 4>>, <<2, 1, 2, 2>>}"
    big = "{<<2, 3, 4>>, <<3, 1, 2, 3>>, <<4, 5>>}"
    cg = [ctx.gen("Columns", dict(Shapes=shapes, MaxMiss=2 if q else 4), inv=("Inv", "Bijective", "Emitted"), name="cols"),
          ctx.gen("Columns", dict(Shapes=big, MaxMiss=1 if q else 2), inv=("Inv", "Bijective", "Emitted"), name="colsbig")]
    gg = [ctx.gen("Gather", dict(NPlace=2, MaxLen=3), inv=("Inv", "Emitted"), name="gather"),
          ctx.gen("Gather", dict(NPlace=3, MaxLen=6 if q else 9), inv=("Inv", "Emitted"), name="gatherlong", simulate=(600 if q else 20000, 11))]
    from neutralocean.lib import find_first_nan, val_at, take_fill, aggsum
    from neutralocean.ppinterp import valid_range, valid_range_1
    from neutralocean.ppinterp.lib import valid_range_1_two
    nc = ng = 0
    for c in (x for g in cg for x in g()):
        nc += 1
        dims, ax, N = tuple(c["dims"]), c["axis"], len(c["dims"])
        rest = tuple(d for i, d in enumerate(dims) if i != ax)
        A = np.arange(1.0, np.prod(dims) + 1)
        A[np.array(c["miss"]) == 1] = np.nan
        A = A.reshape(dims)
        depth = np.array(c["depth"]).reshape(rest)

        def bad(clause, got):
            ctx.fail(clause, dict(case=c, got=got))
        lay = [A, np.asfortranarray(A), np.moveaxis(np.ascontiguousarray(np.moveaxis(A, 0, -1)), -1, 0), A.astype(np.float32), np.repeat(A, 2, axis=-1)[..., ::2]][nc % 5]
        keep = lay.copy()
        for axis in (ax, ax - N):
            try:
                d = find_first_nan(lay, axis)
            except Exception as e:
                bad("raised", repr(e)); continue
            if not same(d, depth) or np.asarray(d).dtype.kind not in "iu":
                bad("FirstMissingLayer", d)
        if ax == N - 1:
            try:
                d = find_first_nan(lay)
                if not same(d, depth):
                    bad("FirstMissingLayerDefaultAxis", d)
                if not same(val_at(lay, d - 1), nanned(c["bottom"]).reshape(rest)):
                    bad("BottomValue", val_at(lay, d - 1))
                k = np.array(c["pick"]).reshape(rest)
                if not same(val_at(lay, k), nanned(c["picked"]).reshape(rest)):
                    bad("ValueAtLayers", val_at(lay, k))
                for j in range(dims[-1]):
                    if not same(val_at(lay, j), nanned(c["layers"][j]).reshape(rest)):
                        bad("ValueAtLayer", val_at(lay, j))
                v = val_at(lay, -1)
                if not same(v, np.full(rest, np.nan)):
                    bad("NegativeIsNaN", v)
                # levels common to all columns
                Z = 10.0 * np.arange(1, dims[-1] + 1)
                Z0 = Z.copy()
                if rest:
                    want = np.where(depth > 0, 10.0 * depth, np.nan)
                    if not same(val_at(Z, d - 1), want):
                        bad("BottomLevel", val_at(Z, d - 1))
                    if not same(Z, Z0):
                        bad("LevelsChanged", Z)
            except Exception as e:
                bad("raised", repr(e))
        if not same(lay, keep):
            bad("InputChanged", lay)
        ctx.sample(c, 2)
    one = [c for g in gg for c in g()]
    byn = {}
    for c in one:
        ng += 1

        def bad(clause, got):
            ctx.fail(clause, dict(case=c, got=got))
        idx = np.array(c["idx"], dtype=np.int64)
        n = len(idx)
        P = np.array(c["places"], float)
        want = nanned(c["taken"])
        try:
            if not same(take_fill(P, idx), want):
                bad("Take", take_fill(P, idx))
            t7 = take_fill(P, idx, 77.0)
            if not same(t7, np.where(np.isnan(want), 77.0, want)):
                bad("TakeFill", t7)
            # missing data come through as such, whatever the filler
            for j in range(len(P)):
                Q, wq = P.copy(), want.copy()
                Q[j] = np.nan
                wq[idx == j] = np.nan
                t6 = take_fill(Q, idx, -6.0)
                if not same(t6, np.where(idx < 0, -6.0, wq)):
                    bad("TakeMissing", t6)
            if len(P) == 2:
                t2 = take_fill(np.ascontiguousarray(P.reshape(2, 1)), idx)
                if not same(t2, want):
                    bad("TakeLinear", t2)
            v = np.array(c["vals"], float)
            if not same(aggsum(v, idx, len(P)), np.array(c["sums"], float)):
                bad("GroupSums", aggsum(v, idx, len(P)))
            for i in np.flatnonzero(idx >= 0)[:2]:
                w, wg = v.copy(), np.array(c["sums"], float)
                w[i] = wg[idx[i]] = np.nan
                if not same(aggsum(w, idx, len(P)), wg):
                    bad("GroupSumsMissing", aggsum(w, idx, len(P)))
            g5 = aggsum(v, idx, len(P) + 2)
            if not same(g5, np.array(c["sums"] + [0, 0], float)):
                bad("GroupSumsEmpty", g5)
            a, b = (np.where(np.array(c[x], float) == 1, np.arange(n) + 0.5, np.nan) for x in "ab")
            for x, w in ((a, "a"), (b, "b")):
                r = valid_range_1(x)
                if list(map(int, r)) != c["run"][w]:
                    bad("FirstRun", r)
                if n:
                    # an infinite value before the run is not data
                    y = x.copy()
                    y[:c["run"][w][0]] = np.inf
                    if c["run"][w][0] < n and list(map(int, valid_range_1(y))) != c["run"][w]:
                        bad("FirstRunAfterInf", valid_range_1(y))
            r = valid_range_1_two(a, b)
            if list(map(int, r)) != c["run"]["ab"]:
                bad("FirstCommonRun", r)
            byn.setdefault(n, []).append((a, c["run"]["a"]))
        except Exception as e:
            bad("raised", repr(e))
    for n, xs in byn.items():
        if n == 0 or len(xs) < 4:
            continue
        m = len(xs) - len(xs) % 4
        X = np.array([x for x, _ in xs[:m]]).reshape(m // 4, 2, 2, n)
        W = np.array([r for _, r in xs[:m]]).reshape(m // 4, 2, 2, 2)
        k, K = valid_range(X)
        if not (same(k, W[..., 0]) and same(K, W[..., 1])):
            ctx.fail("FirstRunArrays", dict(n=n))
    ctx.sample(one[-1], 3)
    ctx.note("arrays", nc); ctx.note("gathers", ng)
    ctx.validated += nc + ng
