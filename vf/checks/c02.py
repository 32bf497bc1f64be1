"""C02: ref / isoval / pin arguments select the documented surface."""
import numpy as np
from vf.core import NANI
from vf.ref import ocean, Col

CP = ["[s |-> <<3, 4, 6>>, t |-> <<9, 6, 1>>, p |-> <<4, 10, 22>>]", "[s |-> <<2, NaNI, 6>>, t |-> <<8, NaNI, 1>>, p |-> <<4, 10, 22>>]",
      "[s |-> <<NaNI, 3, 5>>, t |-> <<NaNI, 7, 2>>, p |-> <<2, 8, 16>>]", "[s |-> <<2, 5, 4>>, t |-> <<7, 8, 2>>, p |-> <<4, 8, 20>>]"]
CA = ["[s |-> <<3, 3, 3>>, t |-> <<9, 6, 1>>, p |-> <<4, 10, 22>>]", "[s |-> <<2, NaNI, 2>>, t |-> <<8, NaNI, 1>>, p |-> <<4, 10, 22>>]",
      "[s |-> <<NaNI, 4, 4>>, t |-> <<NaNI, 11, 2>>, p |-> <<2, 8, 16>>]", "[s |-> <<4, 4, 4>>, t |-> <<12, 9, 3>>, p |-> <<4, 8, 20>>]"]


def f(a):
    a = np.array(a, float); a[a == NANI] = np.nan
    return a


def rat(x):
    return x[0] / x[1]


def run(ctx):
    q = ctx.quick
    gens = {}
    for kind, C in (("potential", CP), ("anomaly", CA)):
        oc = "{<<%s>>, <<%s>>, <<%s>>}" % (", ".join(C[:3]), ", ".join([C[3], C[0], C[2]]), ", ".join([C[1], C[3], C[0]]))
        refs = "{Omit, <<<<0, 1>>>>, <<<<12, 1>>>>}" if kind == "potential" else "{Omit, Partial, <<<<2, 1>>, <<3, 1>>>>, <<<<2, 1>>, <<0, 1>>>>, <<<<4, 1>>, <<5, 1>>>>}"
        isos = "{Omit, <<-3, 1>>, <<5, 2>>}" if kind == "potential" else "{Omit, <<-3, 1>>, <<0, 1>>}"
        gens[kind] = ctx.gen("Select", dict(Kind=f'"{kind}"', Oceans=oc, Refs=refs, Isos=isos, PinCasts="{Omit, <<1>>, <<2>>, <<3>>}",
                             PinPs="{Omit, <<7, 1>>, <<8, 1>>, <<25, 2>>, <<4, 1>>, <<40, 1>>, <<1, 1>>}"), inv=("Inv", "Emitted"), name="sel_" + kind, workers=3)
    from neutralocean.surface import potential_surf, anomaly_surf
    from neutralocean.eos import make_eos
    from vf.toy import eos_p8
    F = dict(potential=potential_surf, anomaly=anomaly_surf)
    n = 0
    for kind, g in gens.items():
        cases = g()
        ctx.sample([c for c in cases if c["out"] == "done" and c["pinned"]][5])
        for j, c in enumerate(cases):
            S, T, P = (np.array([f(x[k]) for x in c["oc"]]) for k in "stp")
            ref = None if not c["ref"] else ((None, 3.0) if j % 2 else (2.0, None)) if len(c["ref"]) == 3 else \
                rat(c["ref"][0]) if kind == "potential" else (rat(c["ref"][0]), rat(c["ref"][1]))
            off = 1000.0 if kind == "potential" else 0.0
            kw = {}
            if ref is not None or j % 2:
                kw["ref"] = ref
            if c["iso"]:
                kw["isoval"] = off + rat(c["iso"])
            elif j % 2:
                kw["isoval"] = None
            if c["pinc"]:
                kw["pin_cast"] = c["pinc"][0] - 1 if j % 3 else (c["pinc"][0] - 1,)
            if c["pinp"]:
                kw["pin_p"] = rat(c["pinp"])
            n += 1
            try:
                s, t, p, d = F[kind](S, T, P, eos=eos_p8, diags=False, TOL_P_SOLVER=1e-9, **kw)
            except Exception as e:
                if c["out"] != "error":
                    ctx.fail(f"{kind}:raised", dict(case=c, error=repr(e)))
                continue
            why = None
            if c["out"] == "error":
                why = "Rejected"
            elif c["out"] == "nowhere":
                if not (np.isnan(p[c["pinc"][0] - 1]) and np.isnan(s[c["pinc"][0] - 1])):
                    why = "NowhereAtPin"
            else:
                ur, ui = [rat(x) for x in c["uref"]], rat(c["uiso"])
                dr = np.atleast_1d(np.array(d["ref"], float))
                if len(dr) != len(ur) or not np.allclose(dr, ur, rtol=1e-12, atol=1e-12):
                    why = "ReportedRef"
                elif not abs(d["isoval"] - off - ui) < 1e-9:
                    why = "ReportedIsoval"
                elif not c["pinned"] and (np.any(dr != np.atleast_1d(np.array(ref, float))) or d["isoval"] != kw["isoval"]):
                    why = "ReportedAsGiven"
                for i in range(len(p)):
                    if np.isnan(p[i]):
                        if c["must"][i] or (c["pinned"] and i == c["pinc"][0] - 1):
                            why = "Present"
                    elif not any(rat(a) - 1e-6 <= p[i] <= rat(b) + 1e-6 for a, b in c["surf"][i]):
                        why = "OnSelectedSurface"
                if c["pinned"] and p[c["pinc"][0] - 1] != kw["pin_p"]:
                    why = "ThroughPin"
                if not c["pinned"] and c["pinc"] + c["pinp"]:
                    o2 = F[kind](S, T, P, eos=eos_p8, diags=False, TOL_P_SOLVER=1e-9, ref=ref, isoval=kw["isoval"])
                    if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip((s, t, p), o2[:3])):
                        why = "PinIgnored"
            if why:
                ctx.fail(f"{kind}:{why}", dict(case=c, args=kw, got=dict(s=s, t=t, p=p, ref=d["ref"], isoval=d["isoval"])))
    ctx.note("toy_calls", n)
    # real equations of state on random 2-D oceans
    rng = np.random.default_rng(ctx.seed + 2)
    recs = []
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "pchip"), ("gsw", 9.8, 1030.0, "linear")])
    for name, grav, rho_c, interp in cfgs:
        eos = make_eos(name, grav, rho_c)
        for rep in range(40 if q else 200):
            S, T, P = ocean(rng, 6, 8, masks=["full", "full", "full", "land", "top", "floor", "hole"])
            S, T, P = (x.reshape(2, 3, 8) for x in (S, T, P))
            pin = (int(rng.integers(2)), int(rng.integers(3)))
            col = Col(S[pin], T[pin], P[pin], interp)
            if not col.ok:
                continue
            x = rep % 8
            pp = float(rng.uniform(col.P[0], col.P[-1]) if x < 4 else col.P[0] if x == 4 else col.P[-1] if x == 5 else col.P[0] * 0.5 if x == 6 else col.P[-1] + 5)
            inside = bool(col.inside(pp))
            s0, t0 = col.at(pp)
            for kind in ("potential", "anomaly"):
                ref = float(rng.choice([0.0, 1000.0])) if kind == "potential" else (34.7, 0.0 if rep % 4 == 1 else 5.0)
                iv = float(eos(34.8, 6.0, 1000.0 if kind == "anomaly" else ref)) - (0.0 if kind == "potential" else float(eos(*ref, 1000.0)))
                for hr, hi, hc, hpp in [(1, 1, 0, 0), (1, 1, 1, 1), (1, 0, 1, 1), (0, 0, 1, 1), (0, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0), (0, 1, 1, 1), (1, 1, 1, 0)]:
                    if rep % 5 and (hr, hi, hc, hpp) not in [(1, 0, 1, 1), (0, 0, 1, 1), (1, 1, 1, 1)]:
                        continue
                    kw = dict(eos=name, grav=grav, rho_c=rho_c, interp=interp, diags=False, TOL_P_SOLVER=1e-7)
                    a = dict(kw)
                    if hr: a["ref"] = ref
                    if hi: a["isoval"] = iv
                    if hc: a["pin_cast"] = pin if rep % 2 else list(pin) and pin
                    if hpp: a["pin_p"] = pp
                    r = dict(hr=bool(hr), hi=bool(hi), hp=bool(hc and hpp), inside=inside, raised=False, refg=False, isog=False, refp=False, isop=False,
                             exact=False, none=False, same=False)
                    got = None
                    try:
                        s, t, p, d = F[kind](S, T, P, **a)
                    except Exception as e:
                        r["raised"] = True
                        got = repr(e)[:300]
                    else:
                        got = dict(p=p, ref=d["ref"], isoval=d["isoval"])
                        r["refg"] = bool(d["ref"] == ref); r["isog"] = bool(d["isoval"] == iv)
                        r["none"] = bool(np.isnan(p[pin]) and np.isnan(s[pin]) and np.isnan(t[pin]))
                        r["exact"] = bool(p[pin] == pp)
                        if inside:
                            rr = d["ref"]
                            if kind == "potential":
                                r["refp"] = bool(rr == pp)
                                want = eos(s0, t0, rr)
                            else:
                                r["refp"] = bool(abs(rr[0] - s0) < 1e-9 and abs(rr[1] - t0) < 1e-9)
                                want = eos(s0, t0, pp) - eos(rr[0], rr[1], pp)
                            sc = abs(float(eos(s0, t0, pp)))
                            r["isop"] = bool(abs(d["isoval"] - want) < 1e-12 * sc)
                        if hi or inside:
                            o2 = F[kind](S, T, P, ref=d["ref"], isoval=float(d["isoval"]), **kw)
                            m = np.ones(p.shape, bool)
                            if not hi:
                                m[pin] = False
                            r["same"] = all(np.array_equal(u[m], v[m], equal_nan=True) for u, v in zip((s, t, p), o2[:3]))
                    recs.append(dict(tla=r, kind=kind, args={k: v for k, v in a.items()}, S=S, T=T, P=P, pin=pin, pp=pp, got=got))
    k = ctx.trace("SelectTrace", recs)
    ctx.validated = n + k
