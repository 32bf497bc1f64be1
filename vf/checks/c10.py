"""C10: the base of the mixed layer."""
import numpy as np
from scipy.interpolate import PchipInterpolator
from vf.core import NANI
from vf.ref import ocean, block


def f(a):
    a = np.array(a, float); a[a == NANI] = np.nan
    return a


def run(ctx):
    q = ctx.quick
    g = ctx.gen("MixedLayer", dict(NN="{2, 3, 4}" if q else "{1, 2, 3, 4}", Gaps="{4, 12}", Bottles="{<<1, 6>>, <<2, 5>>, <<2, 3>>, <<3, 3>>, <<4, 1>>, NoB}",
                PMiss="{{}}" if q else "{{}, {1}, {2}, {3}, {4}}", Refs="{0, 16}", Thr="{4, 16, 40}" if q else "{4, 8, 16, 40, 60}", Bot="{1, 2, 3}"), inv=("Inv", "Emitted"), workers=6)
    g2 = ctx.gen("MixedLayer", dict(NN="{4}", Gaps="{4}", Bottles="{<<1, 6>>, <<2, 5>>, <<3, 3>>, <<4, 1>>}",
                PMiss="{{1}, {2}, {3}, {4}, {1, 2}}", Refs="{0}", Thr="{4, 16}", Bot="{1, 2, 3}"), inv=("Inv", "Emitted"), workers=2)
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.eos import make_eos
    from vf.toy import eos_p8, eos_p8_inv
    cases = g() + g2()
    ctx.sample(cases[len(cases) // 2])
    grp, n = {}, 0
    for c in cases:
        grp.setdefault((len(c["s"]), c["ref"], c["thr"], c["bot"]), []).append(c)
    for gi, ((nk, ref, thr, bot), cs) in enumerate(sorted(grp.items())):
        if bot > nk:
            continue
        S, T, P = (np.array([f(c[x]) for c in cs]) for x in "stp")
        for form in ("density", "specvol"):
            kw = dict(pot_dens_diff=thr / 8, ref_p=float(ref), bottle_index=bot - 1)
            ml = np.asarray(mixed_layer(S, T, P, eos_p8 if form == "density" else eos_p8_inv, **kw))
            if ml.shape != (len(cs),):
                ctx.fail("shape", dict(shape=ml.shape, want=len(cs)))
                continue
            n += len(cs)
            for i, c in enumerate(cs):
                want = c["ml"][0] / c["ml"][1] if c["ml"] else np.nan
                if form == "specvol" and c["tie"] and np.isnan(ml[i]):
                    continue
                if np.isnan(want) != np.isnan(ml[i]) or (np.isfinite(want) and abs(ml[i] - want) > 1e-7):
                    ctx.fail(f"{form}:Base", dict(case=c, got=ml[i], want=want))
            # defaults: bottle 1, threshold and reference are keywords; one cast alone gives the same
            i = gi % len(cs)
            one = np.asarray(mixed_layer(S[i:i + 1], T[i:i + 1], P[i:i + 1], eos_p8 if form == "density" else eos_p8_inv, **kw))
            if not np.array_equal(one[0], ml[i], equal_nan=True):
                ctx.fail("Independent", dict(case=cs[i], alone=one, among=ml[i]))
    ctx.note("toy_casts", n)
    # real equations of state; the records carry the distance from the definition, in tolerances
    rng = np.random.default_rng(ctx.seed + 10)
    recs = []
    cfgs = [("gsw", None, None), ("jmd95", 9.81, 1027.5), ("jmdfwg06", None, None)] + ([] if q else [("gsw", 9.8, 1030.0), ("jmd95", None, None)])
    for ci, (name, grav, rho_c) in enumerate(cfgs):
        eos = make_eos(name, grav, rho_c)
        dens = (lambda s, t, p: 1 / eos(s, t, p)) if name == "gsw" or eos(34.5, 3.0, 1000.0) < 1 else eos
        for rep in range(3 if q else 8):
            S, T, P = ocean(rng, 30, 10, pnan=True)
            if rep == 0:
                S, T, P = (x.reshape(5, 6, 10) for x in (S, T, P))
            for interp in (("linear", "pchip") if ci < 2 else ("linear",)):
                kw = [dict(), dict(pot_dens_diff=0.125, ref_p=500.0, bottle_index=0), dict(pot_dens_diff=0.5, bottle_index=2)][rep % 3]
                ml = np.asarray(mixed_layer(S, T, P, name, grav, rho_c, interp=interp, **kw))
                th, rp, bi = kw.get("pot_dens_diff", 0.03), kw.get("ref_p", 100.0), kw.get("bottle_index", 1)
                for ix in np.ndindex(S.shape[:-1]):
                    a, b, c = S[ix], T[ix], P[ix]
                    k, K = block(a, c)
                    near = bool(np.isfinite(a[bi]))
                    v = (np.isfinite(a) & np.isfinite(c)).astype(int)
                    D = np.array([dens(a[i], b[i], rp) - dens(a[bi], b[bi], rp) - th if v[i] and near else 0.0 for i in range(len(a))])
                    if K - k >= 2 and near and not np.all(np.diff(D[k:K]) > 0):
                        continue
                    if np.any((abs(D) < 1e-9) & (v == 1)) and near:
                        continue
                    du = 0
                    if np.isfinite(ml[ix]) and K - k >= 2 and near and D[k] < 0 < D[K - 1]:
                        w = PchipInterpolator(D[k:K], c[k:K])(0.0) if interp == "pchip" and K - k > 2 else np.interp(0.0, D[k:K], c[k:K])
                        du = int(min(np.ceil(abs(ml[ix] - w) / 1e-5), 1e6))
                    recs.append(dict(tla=dict(v=v.tolist(), f=np.sign(D).astype(int).tolist(), near=near, ok=bool(np.isfinite(ml[ix])), du=du),
                                     S=a, T=b, P=c, got=ml[ix], meta=dict(eos=name, grav=grav, interp=interp, **kw)))
    k = ctx.trace("MixedTrace", recs)
    ctx.validated = n + k
    ctx.assumptions += ["casts whose potential density is not increasing downward are outside the property and skipped"]
