"""C13: grid builders against Grids.tla."""
import numpy as np
from collections import Counter

LLC = {"tile": {  # the 13-tile lat-lon-cap layout of ECCOv4r4
    0: {"X": ((12, "Y", False), (3, "X", False)), "Y": (None, (1, "Y", False))},
    1: {"X": ((11, "Y", False), (4, "X", False)), "Y": ((0, "Y", False), (2, "Y", False))},
    2: {"X": ((10, "Y", False), (5, "X", False)), "Y": ((1, "Y", False), (6, "X", False))},
    3: {"X": ((0, "X", False), (9, "Y", False)), "Y": (None, (4, "Y", False))},
    4: {"X": ((1, "X", False), (8, "Y", False)), "Y": ((3, "Y", False), (5, "Y", False))},
    5: {"X": ((2, "X", False), (7, "Y", False)), "Y": ((4, "Y", False), (6, "Y", False))},
    6: {"X": ((2, "Y", False), (7, "X", False)), "Y": ((5, "Y", False), (10, "X", False))},
    7: {"X": ((6, "X", False), (8, "X", False)), "Y": ((5, "X", False), (10, "Y", False))},
    8: {"X": ((7, "X", False), (9, "X", False)), "Y": ((4, "X", False), (11, "Y", False))},
    9: {"X": ((8, "X", False), None), "Y": ((3, "X", False), (12, "Y", False))},
    10: {"X": ((6, "Y", False), (11, "X", False)), "Y": ((7, "Y", False), (2, "X", False))},
    11: {"X": ((10, "X", False), (12, "X", False)), "Y": ((8, "Y", False), (1, "X", False))},
    12: {"X": ((11, "X", False), None), "Y": ((9, "Y", False), (0, "X", False))}}}


def llc_links():
    out = []
    for f, ax in LLC["tile"].items():
        for a, (l, r) in ax.items():
            if l:
                out.append(((f, a), (l[0], l[1])))
    return out


def tla_links(links):
    return "<<" + ", ".join('<<<<%d, "%s">>, <<%d, "%s">>>>' % (e[0], e[1], r[0], r[1]) for e, r in links) + ">>"


def bag(edges, vals):
    return Counter((e[0], e[1], d, w) for e, (d, w) in zip(edges, vals) if e[0] != e[1])


def shapes(full, dims):
    """scalar, per-column, per-row and full geometry arrays with distinct values: (input, value at (p, q))"""
    n1, n2 = dims
    yield "full", full, lambda p, q: full[p, q]
    row, col = 1.0 + np.arange(n2) * 3, 2.0 + np.arange(n1)[:, None] * 5
    yield "row", row, lambda p, q: row[q]
    yield "col", col, lambda p, q: col[p, 0]
    yield "scalar", 4.0, lambda p, q: 4.0


def run(ctx):
    q = ctx.quick
    rng = np.random.default_rng(ctx.seed)
    sz = "1..5" if q else "1..6"
    g1 = ctx.gen("Grids", dict(Grids=f"RectGrids({sz}, {sz}) \\union TriGrids({sz}, {sz})"), inv=("Inv", "Emitted"), name="planar")
    m2 = "Matchings(Edge2(2), Edge2(2))"
    # all ways to join the edges of one tile; all ways for two tiles (a seeded sample is replayed)
    g2 = ctx.gen("Grids", dict(Grids='TileGrids(3, 1, Matchings(Edge2(1), Edge2(1)), {<<"t", "j", "i">>, <<"i", "t", "j">>})'), inv=("Inv", "Emitted"), name="tile1")
    g3 = ctx.gen("Grids", dict(Grids=f'TileGrids(2, 2, {m2}, ' + ('{<<"t", "j", "i">>, <<"j", "i", "t">>}' if q else "Perms") + ')'), inv=("Inv", "Emitted"), name="tile2", workers=4)
    g4 = ctx.gen("Grids", dict(Grids='TileGrids(2, 13, {%s}, {<<"t", "j", "i">>, <<"i", "j", "t">>})' % tla_links(llc_links())), inv=("Inv", "Emitted"), name="llc")
    from neutralocean.grid import rectilinear, tripolar
    from neutralocean.grid import xgcm as tiled
    n_run = 0

    def check(name, case, out, geo_d, geo_w, detail):
        """the built grid against the bag of edges with their geometry"""
        a, b = (np.asarray(x).astype(int) for x in out["edges"])
        ds, dp = np.asarray(out["dist"], float), np.asarray(out["distperp"], float)
        if not (len(a) == len(b) == len(ds) == len(dp)):
            ctx.fail(name + ":Aligned", dict(case=case["grid"], detail=detail, lens=[len(a), len(b), len(ds), len(dp)]))
            return
        want = bag(case["edges"], [(geo_d(*e[2:]), geo_w(*e[2:])) for e in case["edges"]])
        got = bag([(min(x, y), max(x, y)) for x, y in zip(a.tolist(), b.tolist())], list(zip(ds.tolist(), dp.tolist())))
        if got != want:
            ctx.fail(name + ":Edges", dict(case=case["grid"], detail=detail, extra=list((got - want).items())[:6], missing=list((want - got).items())[:6]))

    def roundtrip(name, case, out, dims, maps, detail):
        """each edge's value must come back at the place that edge is stored, NaN elsewhere"""
        a, b = (np.asarray(x).astype(int) for x in out["edges"])
        code = np.arange(1.0, len(a) + 1)
        F = maps(code)
        place = {1: np.full(dims, np.nan), 2: np.full(dims, np.nan)}
        # the edge stored at a place, by its pair; several edges may share a pair
        seen = Counter()
        for e in case["edges"]:
            place[e[2]][tuple(e[3:3 + len(dims)])] = 1.0
        for d in (1, 2):
            Fd = np.asarray(F[d - 1])
            if Fd.shape != tuple(dims):
                ctx.fail(name + ":MapShape", dict(case=case["grid"], detail=detail, got=Fd.shape))
                return
            if not np.array_equal(np.isnan(Fd), np.isnan(place[d])):
                ctx.fail(name + ":MapNaN", dict(case=case["grid"], detail=detail, d=d, got=Fd))
                return
        for e in case["edges"]:
            v = np.asarray(F[e[2] - 1])[tuple(e[3:3 + len(dims)])]
            k = int(v) - 1
            seen[k] += 1
            if (min(a[k], b[k]), max(a[k], b[k])) != (e[0], e[1]):
                ctx.fail(name + ":MapPlace", dict(case=case["grid"], detail=detail, edge=e, got=[a[k], b[k]]))
                return
        if len(seen) != len(a):
            ctx.fail(name + ":MapLost", dict(case=case["grid"], detail=detail))

    for case in g1():
        g = case["grid"]
        dims = (g["n1"], g["n2"])
        if n_run == 40:
            ctx.sample(case)
        full = [k * 1000.0 + np.arange(dims[0] * dims[1]).reshape(dims) for k in (1, 2, 3, 4)]
        combos = [[s for s in shapes(full[k], dims)] for k in range(4)]
        for var in range(4):
            # rotate the shapes through the four arrays
            pick = [combos[k][(var + k) % 4 if var else 0] for k in range(4)]
            (n1, x1, v1), (n2, x2, v2), (n3, x3, v3), (n4, x4, v4) = pick
            detail = [n1, n2, n3, n4]
            gd = lambda d, p, q_, r: float((v1 if d == 1 else v2)(p, q_))
            gw = lambda d, p, q_, r: float((v3 if d == 1 else v4)(p, q_))
            if g["kind"] == "rect":
                per = (g["per1"], g["per2"])
                out = rectilinear.build_grid(dims, per, dxC=x1, dyC=x2, dyG=x3, dxG=x4)
                check("rect", case, out, gd, gw, detail)
                if var == 0:
                    roundtrip("rect", case, out, dims, lambda c: rectilinear.edgedata_to_maps(c, dims, per), detail)
                    out = rectilinear.build_grid(dims, per)
                    check("rect", case, out, lambda *e: 1.0, lambda *e: 1.0, "defaults")
            else:
                # e2v: northward distance, e1u: eastward distance, e1v / e2u the face widths
                out = tripolar.build_grid(dims, e1u=x2, e2v=x1, e2u=x4, e1v=x3)
                check("tri", case, out, gd, gw, detail)
                if var == 0:
                    roundtrip("tri", case, out, dims, lambda c: tripolar.edgedata_to_maps(c, dims), detail)
                    pad = lambda z: np.pad(z, ((0, 1), (1, 1)), constant_values=-7.0)
                    for w in range(4):
                        arg = [pad(z) if k <= w else z for k, z in enumerate((x1, x2, x3, x4))]
                        out = tripolar.build_grid(dims, e2v=arg[0], e1u=arg[1], e1v=arg[2], e2u=arg[3])
                        check("tri", case, out, gd, gw, "padded")
                    out = tripolar.build_grid(dims)
                    check("tri", case, out, lambda *e: 1.0, lambda *e: 1.0, "defaults")
        n_run += 1

    # tiled grids
    import xarray as xr
    t1, t2, t3 = g2(), g3(), g4()
    if q:
        t1 = [t1[k] for k in sorted(rng.choice(len(t1), min(len(t1), 60), replace=False))]
        t2 = [t2[k] for k in sorted(rng.choice(len(t2), min(len(t2), 260), replace=False))]
        t3 = [t3[k] for k in sorted(rng.choice(len(t3), 3, replace=False))]
        ctx.exhaustive = False
    else:
        t2 = [t2[k] for k in sorted(rng.choice(len(t2), min(len(t2), 1500), replace=False))]
    for num, case in enumerate(t1 + t2 + t3):
        g = case["grid"]
        n, nf = g["n"], g["nf"]
        fc = {f: {"X": [None, None], "Y": [None, None]} for f in range(nf)}
        for (lf, la), (rf, ra) in g["link"]:
            fc[lf][la][0] = (rf, ra, False)
            fc[rf][ra][1] = (lf, la, False)
        fc = {"tile": {f: {a: tuple(v) for a, v in ax.items() if any(v)} for f, ax in fc.items()}}
        nm = {"t": "tile", "i": "i", "j": "j"}
        dims = tuple(nm[x] for x in g["perm"])
        shape = tuple(nf if x == "t" else n for x in g["perm"])
        full = [k * 1000.0 + np.arange(nf * n * n).reshape(shape) for k in (1, 2, 3, 4)]
        gd = lambda d, p, q_, r: float(full[d - 1][p, q_, r])
        gw = lambda d, p, q_, r: float(full[d + 1][p, q_, r])
        args = (n, fc, dims, g["xsh"], g["ysh"])
        try:
            if num % 3 == 0:
                da = [xr.DataArray(z, dims=dims) for z in full]
                out = tiled.build_grid(*args, dxC=da[0], dyC=da[1], dyG=da[2], dxG=da[3])
            else:
                out = tiled.build_grid(*args, dxC=full[0], dyC=full[1], dyG=full[2], dxG=full[3])
            check("tile", case, out, gd, gw, dims)
            if num % 3 == 1:
                roundtrip("tile", case, out, shape, lambda c: tiled.edgedata_to_maps(c, *args), dims)
            if num % 3 == 2:
                out = tiled.build_grid(*args, dxC=5.0, dyG=full[2])
                check("tile", case, out, lambda d, *e: 5.0 if d == 1 else 1.0,
                      lambda d, p, q_, r: float(full[2][p, q_, r]) if d == 1 else 1.0, "scalars")
                out = tiled.build_grid(*args, dyC=full[1], dxG=7.0)
                check("tile", case, out, lambda d, *e: 1.0 if d == 1 else float(full[1][e]), lambda d, *e: 1.0 if d == 1 else 7.0, "defaults")
        except Exception as e:
            ctx.fail("tile:Raises", dict(case=g, error=repr(e)[:500]))
        n_run += 1
    ctx.sample(t3[0]["grid"])
    ctx.validated = n_run
    ctx.assumptions += ["a periodic direction of length one may or may not carry self-loops",
                        "tiles are joined left edge to right edge (xgcm's reverse=False), as in the LLC layout"]
