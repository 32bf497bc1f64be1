"""C01: potential density and anomaly surfaces sit on their isovalue."""
import numpy as np
from vf.core import NANI
from vf.ref import ocean, Col
from vf import points


def arr(rows):
    a = np.array(rows, float)
    a[a == NANI] = np.nan
    return a


def toy_cases(ctx):
    q = ctx.quick
    com = dict(NN="{1, 2, 3, 4}", Gaps="{4, 12}", PMiss="{{}}")
    pot = dict(com, Kind='"potential"', Bottles="{<<0, 0>>, <<1, 3>>, <<3, 2>>, NoB}", Refs="{<<0, 0>>, <<12, 0>>}", Isos="{-9, 0, 3, 24}")
    pot2 = dict(com, Kind='"potential"', NN="{3}", Bottles="{<<0, 0>>, <<2, 0>>, <<5, 0>>, <<9, 0>>}", PMiss="SUBSET {1, 2, 3}", Refs="{<<4, 0>>}", Isos="{5, 60}")
    ano = dict(com, Kind='"anomaly"', Bottles="{<<1, 0>>, <<1, 2>>, <<1, 6>>, NoB}", Refs="{<<0, 0>>, <<2, 1>>}", Isos="{-35, -13, 0, 7}")
    if not q:
        pot.update(Bottles="{<<0, 0>>, <<1, 3>>, <<3, 2>>, <<2, 6>>, NoB}", Refs="{<<0, 0>>, <<12, 0>>, <<40, 0>>}", Isos="{-9, -16, 0, 3, 24}")
        ano.update(Bottles="{<<1, 0>>, <<1, 2>>, <<1, 6>>, <<1, 9>>, NoB}", Isos="{-35, -13, -8, 0, 7, 20}")
    return [ctx.gen("Isopycnal", c, inv=("Inv", "Emitted"), name=f"iso{i}", workers=4) for i, c in enumerate((pot, pot2, ano))]


def group(cases):
    d = {}
    for c in cases:
        d.setdefault((len(c["s"]), tuple(c["ref"]), c["iso"]), []).append(c)
    return d


def near(p, zeros, tol):
    return any(a[0] / a[1] - tol <= p <= b[0] / b[1] + tol for a, b in zeros)


def run(ctx):
    gens = toy_cases(ctx)
    from neutralocean.surface import potential_surf, anomaly_surf
    from vf.toy import eos_p8
    rng = np.random.default_rng(ctx.seed)
    n = 0
    tols = (1e-4, 1e-9, 0.5)
    recs = []
    for kind, gs in (("potential", gens[:2]), ("anomaly", gens[2:])):
        surf = potential_surf if kind == "potential" else anomaly_surf
        cases = [c for g in gs for c in g()]
        ctx.sample(cases[len(cases) // 3], 6)
        for gi, ((nk, ref, iso), cs) in enumerate(group(cases).items()):
            S, T, P = (arr([c[x] for c in cs]) for x in "stp")
            r = float(ref[0]) if kind == "potential" else (float(ref[0]), float(ref[1]))
            iv = (1000.0 if kind == "potential" else 0.0) + iso / 8
            for interp in ("linear", "pchip"):
                tol = tols[(gi + (interp == "pchip")) % 3]
                s, t, p, d = surf(S, T, P, ref=r, isoval=iv, eos=eos_p8, diags=False, interp=interp, TOL_P_SOLVER=tol)
                n += len(cs)
                for i, c in enumerate(cs):
                    why = None
                    if np.isnan(p[i]):
                        if c["must"]:
                            why = "PresentIfBracketed"
                    elif not c["zeros"]:
                        why = "AbsentIfNowhere"
                    elif interp == "linear":
                        if not near(p[i], c["zeros"], 2 * tol + 1e-8):
                            why = "OnIsovalue"
                    if np.isnan(s[i]) != np.isnan(p[i]) or np.isnan(t[i]) != np.isnan(p[i]):
                        why = "SharedNaN"
                    if why:
                        # pchip of two varying properties need not be monotone between bottles
                        if interp == "pchip" and why == "AbsentIfNowhere":
                            pass
                        else:
                            ctx.fail(f"{kind}:{interp}:{why}", dict(case=c, tol=tol, got=[s[i], t[i], p[i]]))
                # the pchip answers, and a sample of the linear ones, as recorded traces
                for i in range(0, len(cs), 11 if interp == "linear" else 3):
                    if kind == "potential":
                        res = lambda a, b, x: float(eos_p8(a, b, r) - iv)
                    else:
                        res = lambda a, b, x: float(eos_p8(a, b, x) - eos_p8(r[0], r[1], x) - iv)
                    recs.append(points.record(S[i], T[i], P[i], s[i], t[i], p[i], res, 2 * tol + 1e-8, interp,
                                              meta=dict(kind=kind, ref=ref, iso=iso)))
    ctx.note("toy_casts_replayed", n)
    # the real equations of state
    from neutralocean.eos import make_eos
    cfgs = [("gsw", None, None), ("jmd95", 9.81, 1027.5), ("jmdfwg06", None, None)]
    if not ctx.quick:
        cfgs += [("gsw", 9.8, 1035.0), ("jmd95", None, None), ("jmdfwg06", 9.81, 1027.5)]
    nreal = 0
    for ci, (name, grav, rho_c) in enumerate(cfgs):
        e = make_eos(name, grav, rho_c)
        for noise in (0.0, 1.0):
            S, T, P = ocean(rng, 60 if ctx.quick else 200, 9, noise=noise, pnan=True)
            for interp in ("linear", "pchip") if (ctx.quick and ci == 0) or not ctx.quick else (("linear", "pchip")[ci % 2],):
                for kind in ("potential", "anomaly"):
                    for rep in range(3):
                        tol = (1e-4, 1e-7, 1e-2)[rep]
                        if kind == "potential":
                            r = float(rng.choice([0.0, 1000.0, 2000.0]))
                            iv = float(e(34.6 + 0.3 * rng.random(), 3 + 6 * rng.random(), r))
                            res = lambda a, b, x: float(e(a, b, r) - iv)
                            out = potential_surf(S, T, P, ref=r, isoval=iv, eos=name, grav=grav, rho_c=rho_c, diags=False, interp=interp, TOL_P_SOLVER=tol)
                        else:
                            r = (34.5 + rng.random(), 3 + 5 * rng.random())
                            x0 = float(rng.uniform(400, 1500))
                            iv = 0.0 if rep == 0 else float(e(34.8, 6.0, x0) - e(r[0], r[1], x0))
                            res = lambda a, b, x: float(e(a, b, x) - e(r[0], r[1], x) - iv)
                            out = anomaly_surf(S, T, P, ref=r, isoval=iv, eos=name, grav=grav, rho_c=rho_c, diags=False, interp=interp, TOL_P_SOLVER=tol)
                        s, t, p, d = out
                        for i in range(S.shape[0]):
                            recs.append(points.record(S[i], T[i], P[i], s[i], t[i], p[i], res, 2 * tol + 2e-5, interp,
                                                      meta=dict(kind=kind, eos=name, grav=grav, ref=r, iso=iv, i=i)))
                            nreal += 1
    ctx.note("real_eos_casts", nreal)
    k = ctx.trace("PointTrace", recs)
    ctx.validated = n + k
    ctx.assumptions += ["toy EOS 1000+s(1+p/8)-t on casts of up to 4 bottles (exhaustive), real EOS on seeded random oceans",
                        "an isovalue exactly equal to the value at the deepest bottle is allowed to be missed (rounding)"]
