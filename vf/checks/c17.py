"""C17: equations of state: derivatives, published values, factories and their histories."""
import math
import numpy as np
from vf.core import NANI

H = dict(s=lambda s: 0.02 * max(s, 0.5), t=lambda s: 0.3, p=lambda s: 60.0)


def fd(f, v, x):
    """sixth order centred difference"""
    h, i = H[v](x[0]), "stp".index(v)

    def at(k):
        y = list(x); y[i] += k * h
        return float(f(*y))
    return (45 * (at(1) - at(-1)) - 9 * (at(2) - at(-2)) + (at(3) - at(-3))) / (60 * h)


def run(ctx):
    q = ctx.quick
    eos, unk, kinds = '{"gsw", "jmd95", "jmdfwg06"}', '{"nosuch"}', '{"", "s_t", "p"}'
    gs = [ctx.gen("EosRegistry", dict(Eos='{"gsw", "jmd95"}', Unknown=unk, Kinds='{"", "p"}', Consts="{<<0, 0>>, <<981, 10275>>, <<0, 10275>>}" if q else "{<<0, 0>>, <<981, 10275>>, <<980, 10275>>, <<0, 10275>>}", Cap=2, Cap2=1, MaxLen=2 if q else 3),
                  inv=("Inv", "Emitted"), name="reg_small", workers=2)]
    many = "{<<0, 0>>, <<981, 0>>, <<0, 10275>>, <<981, 10275>>, <<980, 10275>>, <<981, 10300>>, <<10275, 981>>}"
    gs.append(ctx.gen("EosRegistry", dict(Eos='{"gsw", "jmd95", "jmdfwg06", "toy", "toy2"}', Unknown=unk, Kinds=kinds, Consts=many, Cap=10, Cap2=10, MaxLen=40), inv=("Inv", "Emitted"),
                      name="reg_long", simulate=(12 if q else 60, 42), workers=1))
    gd = ctx.gen("Derivs", dict(MaxOrder=3), inv=("Inv", "Emitted"), workers=1)
    import numba as nb
    from neutralocean.eos import make_eos, make_eos_s_t, make_eos_p, vectorize_eos
    from neutralocean.eos import tools
    from neutralocean.eos import gsw as G, jmd95, jmdfwg06, gswc
    import gsw as GSW
    from vf import eosref
    from vf.toy import eos_p8, eos_p8_inv, eos_p8_s_t, eos_lin, eos_inv
    rng = np.random.default_rng(ctx.seed + 17)
    n = 60 if q else 600
    pts = [(float(a), float(b), float(c)) for a in (0.6, 20.0, 35.0, 41.5) for b in (-1.8, 4.0, 36.0) for c in (0.0, 1000.0, 9800.0)]
    pts += [(float(rng.uniform(0.5, 42)), float(rng.uniform(-2, 38)), float(rng.uniform(0, 10000))) for _ in range(n)]
    recs = []

    def rec(rule, d, **kw):
        d = float(d)
        recs.append(dict(tla=dict(rule=rule, d=NANI if math.isnan(d) else int(min(math.ceil(d), 10 ** 6))), **kw))

    # --- derivatives
    part = lambda f, i: (lambda *x: f(*x)[i])
    D = {"gsw": {"": G.specvol}, "jmd95": {"": jmd95.rho}, "jmdfwg06": {"": jmdfwg06.rho}, "gswc": {"": gswc.rho}}
    for names, f in (("s t p", G.specvol_first_derivs), ("ss st tt sp tp pp", G.specvol_second_derivs), ("sss sst stt ttt ssp stp ttp spp tpp ppp", G.specvol_third_derivs)):
        for i, a in enumerate(names.split()):
            D["gsw"][a] = part(f, i)
    for m, nm in ((jmd95, "jmd95"), (jmdfwg06, "jmdfwg06"), (gswc, "gswc")):
        D[nm].update(s=part(m.rho_s_t, 0), t=part(m.rho_s_t, 1), p=m.rho_p)
    edges = {(e["from"], e["by"], e["to"]) for e in gd()}
    nd = 0
    for name, fs in D.items():
        for a, v, b in sorted(edges):
            if a in fs and b in fs:
                nd += 1
                vals = np.array([float(fs[b](*x)) for x in pts])
                med = np.median(abs(vals))
                tol = 1e-5 if b == "sss" else 1e-6 if b == "sst" and v == "s" else 1e-7
                for x, y in zip(pts, vals):
                    rec("derivative", abs(y - fd(fs[a], v, x)) / (abs(y) + 0.01 * med) / tol, eos=name, edge=(a, v, b), at=x, got=y)
    ctx.note("derivative_edges", nd)
    # bundles of derivatives agree with one another
    for names, f in (("s t ss st tt sp tp", G.specvol_s_t_ss_st_tt_sp_tp), ("s t ss st tt sp tp sss sst stt ttt ssp stp ttp spp tpp", G.specvol_s_t_ss_st_tt_sp_tp_sss_sst_stt_ttt_ssp_stp_ttp_spp_tpp),
                     ("s t", G.specvol_s_t)):
        for x in pts[::3]:
            got = f(*x)
            for a, y in zip(names.split(), got):
                w = D["gsw"][a](*x)
                rec("bundle", abs(y - w) / (abs(w) * 1e-10 + 1e-300) if y != w else 0, fn=names, which=a, at=x, got=y, want=w)
    for x in pts:
        rec("bundle", abs(G.specvol_p(*x) - D["gsw"]["p"](*x)) / 1e-20, fn="specvol_p", at=x)
    # --- published values
    for x in pts:
        rec("library", abs(G.specvol(*x) - float(GSW.specvol(*x))) / 1e-15, at=x)
        rec("library", abs(gswc.rho(*x) - float(GSW.rho(*x))) / 1e-9, at=x)
        rec("polynomial", abs(jmd95.rho(*x) - eosref.jmd95(*x)) / 1e-9, eos="jmd95", at=x)
        rec("polynomial", abs(jmdfwg06.rho(*x) - eosref.jmdfwg06(*x)) / 1e-9, eos="jmdfwg06", at=x)
    # --- histories of requests
    base = {("gsw", ""): G.specvol, ("gsw", "s_t"): G.specvol_s_t, ("gsw", "p"): G.specvol_p, ("jmd95", ""): jmd95.rho, ("jmd95", "s_t"): jmd95.rho_s_t, ("jmd95", "p"): jmd95.rho_p,
            ("jmdfwg06", ""): jmdfwg06.rho, ("jmdfwg06", "s_t"): jmdfwg06.rho_s_t, ("jmdfwg06", "p"): jmdfwg06.rho_p}
    custom = {"toy": eos_p8, "toy2": eos_lin}
    make = {"": make_eos, "s_t": make_eos_s_t, "p": make_eos_p}
    ev = [(34.5, 3.0, 1000.0), (35.2, 17.0, 220.0), (10.0, 1.0, 4000.0)]

    def value(w, x):
        """the meaning of a function identity, from the pressure form"""
        f = base.get((w["base"], w["d"]), custom.get(w["base"]))
        k = 1e-4 * w["k"][0] / 100 * w["k"][1] / 10
        if w["k"][0] == 0:
            k, np_ = 1.0, 0
        else:
            np_ = w["np"]
        y = np.atleast_1d(np.array(f(x[0], x[1], x[2] * k), float))
        return y * k ** np_

    seen, hs = set(), []
    for c in (c for g in gs for c in g()):
        key = repr(c["h"][:-1]) if len(c["h"]) > 3 else repr(c["h"])      # a simulated step offers every successor: keep one
        if key not in seen:
            seen.add(key); hs.append(c["h"])
    ctx.sample(hs[0])
    ask = 0
    for h in hs:
        for e in h:
            r, w = e["r"], e["want"]
            ask += 1
            gr, rc = (r["k"][0] / 100 or None), (r["k"][1] / 10 or None)
            name = custom.get(r["eos"], r["eos"])
            info = dict(request=r, position=h.index(e))
            try:
                f = make[r["d"]](name, gr, rc) if ask % 2 else make[r["d"]](name, grav=gr, rho_c=rc)
            except Exception as ex:
                rec("request", 0 if w["base"] == "error" and isinstance(ex, (ValueError, TypeError, KeyError)) else 9, **info, error=str(ex)[:200])
                continue
            if w["base"] == "error":
                rec("request", 9, **info, error="no error")
                continue
            for x in ev[:1 + (ask % 7 == 0) * 2]:
                try:
                    got = np.atleast_1d(np.array(f(*x), float))
                    want = value(w, x)
                    rec("boussinesq" if w["k"][0] else "request", np.max(abs(got - want) / (abs(want) * 1e-11)) if got.shape == want.shape else 9, **info, at=x, got=got, want=want)
                except Exception as ex:
                    rec("request", 9, **info, error=str(ex)[:200])
    ctx.note("requests", ask)
    ctx.note("histories", len(hs))
    # --- make_bsq directly, more forms than a memory holds, asked again in another order
    forms = [(fn, g, r, k) for fn in (G.specvol, jmd95.rho, jmd95.rho_p) for g, r in ((9.81, 1027.5), (9.8, 1030.0)) for k in (0, 1, 2)]
    order = list(range(len(forms))) + list(rng.permutation(len(forms)))[:6 if q else None]
    for i in order:
        fn, g, r, k = forms[i]
        z = 1e-4 * g * r
        got = (tools.make_bsq(fn, g, r, k) if k else tools.make_bsq(fn, g, r))(34.7, 5.0, 800.0)
        want = fn(34.7, 5.0, 800.0 * z) * z ** k
        rec("boussinesq", abs(got - want) / (abs(want) * 1e-11), form=(str(fn), g, r, k), got=got, want=want)
    # --- vectorised forms, also more than a memory holds
    fns = [G.specvol, jmd95.rho, jmdfwg06.rho, G.specvol_p, jmd95.rho_p, jmdfwg06.rho_p, eos_p8, eos_p8_inv, eos_lin, eos_inv, make_eos("gsw", 9.81, 1027.5), make_eos("jmd95", 9.8, 1030.0)]
    for rep in range(2):
        for fn in (fns if rep == 0 else fns[:4]):
            fv = vectorize_eos(fn)
            s, t, p = np.array([34.0, 35.0, np.nan, 36.0]), np.array([[1.0], [12.0]]), np.array([[0.0], [1500.0]])
            got = np.asarray(fv(s, t, p))
            want = np.array([[fn(s[j], t[i, 0], p[i, 0]) for j in range(4)] for i in range(2)])
            ok = got.shape == want.shape and np.array_equal(np.isnan(got), np.isnan(want))
            rec("vectorised", np.nanmax(abs(got - want) / (abs(want) * 1e-11)) if ok else 9, fn=str(fn), got=got, want=want)
            sc = float(fv(34.0, 1.0, 500.0))
            rec("vectorised", abs(sc - fn(34.0, 1.0, 500.0)) / abs(sc * 1e-11), fn=str(fn))
    ctx.trace("EosTrace", recs)
    ctx.assumptions += ["derivatives are compared with sixth order differences of the supplied function: agreement to 1e-7 relative (1e-5 for the third S-derivative) at the sampled states",
                        "the long request histories are TLC simulations (seeded), the short ones exhaustive"]
