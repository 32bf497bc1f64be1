"""C24: the synthetic ocean has the walls, levels, structure and geometry its arguments ask for."""
import math
import numpy as np
from vf.core import fx, fxs, NANI
from vf.epsilon import units


def geometry(g, ni, nj, nk):
    """differences from a uniform spherical grid from 80S to 60N, in tolerances"""
    r, dlon, dlat = 6370000.0, 2 * math.pi / ni, math.radians(140.0) / nj
    yg = [math.radians(-80.0) + j * dlat for j in range(nj)]
    yc = [y + dlat / 2 for y in yg]
    band = lambda a, b: r * r * dlon * abs(math.sin(b) - math.sin(a))
    want = dict(nx=ni, ny=nj, nz=nk, rSphere=r, resx=ni / 360, resy=nj / 140,
                XGvec=[360.0 * i / ni for i in range(ni)], XCvec=[360.0 * (i + 0.5) / ni for i in range(ni)],
                YGvec=[math.degrees(y) for y in yg], YCvec=[math.degrees(y) for y in yc],
                DXGvec=[r * math.cos(y) * dlon for y in yg], DXCvec=[r * math.cos(y) * dlon for y in yc], DYGsc=r * dlat, DYCsc=r * dlat,
                RACvec=[band(y, y + dlat) for y in yg], RAWvec=[band(y, y + dlat) for y in yg],
                RASvec=[band(y - dlat, y) for y in yc], RAZvec=[band(y - dlat, y) for y in yc])
    out = {}
    for k, w in want.items():
        x = np.asarray(g.get(k, np.nan), float)
        w = np.asarray(w, float)
        out[k] = units(float(np.max(abs(x - w))), 1e-9 * float(np.max(abs(w))) + 1e-9) if x.shape == w.shape else 9999
    a = np.asarray(g["RACvec"], float).sum() * ni      # the cells tile the band
    out["tiling"] = units(a - 2 * math.pi * r * r * (math.sin(math.radians(60)) + math.sin(math.radians(80))), 1e-9 * a)
    return out


def run(ctx):
    q = ctx.quick
    gen = ctx.gen("Synth", dict(Shapes="{<<a, b>> : a \\in {1, 2, 3, 5%s}, b \\in {2, 3, 6%s}}" % (("", "") if q else (", 8, 16", ", 11, 20"))), inv=("Inv", "Emitted"), name="synth")
    from neutralocean.synthocean import synthocean
    rng = np.random.default_rng(ctx.seed + 24)
    recs = []
    for v, c in enumerate(gen()):
        ni, nj = c["dims"]
        for rep in range(3 if q else 8):
            nk = int(rng.integers(2, 12))
            uni = bool(rng.integers(2))
            asked = dict(zonally_uniform=uni, wrap=tuple(c["wrap"]), pbot=float(rng.choice([4000.0, 1500.0, 5712.5])), SSSSa=float(rng.choice([0.0, 0.3, 1.7, -0.6])))
            eff = dict(asked)
            if rep == 1:            # what is left out has its default
                del asked["pbot"], asked["SSSSa"]
                eff.update(pbot=4000.0, SSSSa=0.3)
                if not uni:
                    del asked["zonally_uniform"]
                if not any(c["wrap"]):
                    del asked["wrap"]
            try:
                S, T, P, g = synthocean((ni, nj, nk), **asked)
                S0, T0, P0, _ = synthocean((ni, nj, nk), **dict(eff, SSSSa=0.0))
            except Exception as e:
                ctx.fail("raised", dict(case=c, asked=asked, error=repr(e)))
                continue
            if S.shape != (ni, nj, nk) or T.shape != S.shape or np.shape(P) != (nk,):
                ctx.fail("Shapes", dict(case=c, asked=asked, got=[S.shape, T.shape, np.shape(P)]))
                continue
            f = np.isfinite(S) & np.isfinite(T)
            none = np.isnan(S) & np.isnan(T)
            mask = np.where(f.all(-1), 1, np.where(none.all(-1), 0, 2))
            rows = [i for i in range(ni) if mask[i].any()]
            alike = all(np.array_equal(X[i], X[rows[0]], equal_nan=True) for X in (S, T) for i in rows)
            if len(rows) < 2:
                alike = uni
            elif not uni:           # some zonal structure in both
                alike = any(np.array_equal(X[rows[0]], X[i], equal_nan=True) for X in (S, T) for i in rows[1:])
            geo = geometry(g, ni, nj, nk)
            recs.append(dict(tla=dict(want=c["water"], mask=mask.tolist(), p=fxs(P, 1e3), pbot=fx(eff["pbot"], 1e3), rise=[fxs(x, 1e6) for x in (S - S0)[:, :, 0]], anom=fx(eff["SSSSa"], 1e6),
                                      tsame=bool(np.array_equal(T, T0, equal_nan=True) and np.array_equal(P, P0)), alike=bool(alike), uniform=uni, geo=geo), asked=asked, dims=[ni, nj, nk]))
    ctx.sample(dict(asked=recs[0]["asked"], dims=recs[0]["dims"], tla=recs[0]["tla"]))
    ctx.trace("SynthTrace", recs)
