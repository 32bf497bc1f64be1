"""C05: the wet region of an omega surface."""
import numpy as np
from vf.core import NANI, fx
from vf import omega as O
from vf.ref import ocean, Col, neutral_roots


def wet(p):
    return np.isfinite(p).tolist()


def run(ctx):
    q = ctx.quick
    cfg = O.configs(q)
    gens = {n: ctx.gen("Omega", cfg[n], inv=("Inv", "Emitted"), props=("NoGrowth", "GrowthOnlyByWetting"), name="om_" + n, workers=3) for n in ("region", "window", "split", "rest")}
    # stand-alone searches, from any state
    sa = O.search_config(q)
    gP = ctx.gen("Omega", dict(sa, Opts=O.opts(O.opt(imax=1), O.opt(imax=1, reps=1))), inv=("Inv", "EmittedWet"), name="om_perim", workers=2)
    gB = ctx.gen("Omega", dict(sa, Opts=O.opts(O.opt(imax=1))), inv=("InvB", "EmittedB"), name="om_bfs", workers=2, spec="SpecB")
    from neutralocean.bfs import bfs_conncomp1_wet, bfs_conncomp1_wet_perim
    from neutralocean.grid.graph import edges_to_csr
    from neutralocean.ppinterp import make_pp
    from neutralocean.eos import make_eos
    from neutralocean.grid import rectilinear
    from vf.toy import eos_p8
    n = 0
    for name, g in gens.items():
        pin = int(cfg[name]["Pin"]) - 1
        G = O.groups(g())
        ctx.sample(G[len(G) // 2][0], 3)
        for v, cs in enumerate(G):
            c = cs[0]
            kmax = len(c["hist"]) - 1
            live = cs
            for k in range(kmax + 1) if c["out"] == "done" else [1]:
                n += 1
                form = "poisson" if (v + k) % 4 else "gradient"
                try:
                    s, t, p, d = O.call(c, imax=k, variant=v, pin_cast=pin, OMEGA_FORMULATION=form)
                except Exception as e:
                    if c["out"] != "error":
                        ctx.fail("raised", dict(case=c, error=repr(e)[:400]))
                    break
                if c["out"] == "error":
                    break  # C04's business
                # histories of the model still compatible with what was observed
                nxt = [h for h in live if wet(O.surf_of(h["hist"][k])) == wet(p) and (k > 0 or O.close(p, O.surf_of(h["hist"][0])))
                       and (k == 0 or h["hist"][k]["new"] == d["n_newly_wet"][k])]
                if not nxt:
                    ctx.fail("Region" if wet(p) not in [wet(O.surf_of(h["hist"][k])) for h in live] else "WettedAtMeanOfLinks",
                             dict(case=dict(c, hist=c["hist"][:k + 1]), iteration=k, variant=v, got=p, newly=d["n_newly_wet"], allowed=[O.surf_of(h["hist"][k]) for h in live]))
                    break
                live = nxt
    ctx.note("omega_runs", n)
    ppc = make_pp("linear", kind="1", out="coeffs", nans=False)
    m = 0
    for kind, gen in (("perim", gP), ("bfs", gB)):
        for v, cs in enumerate(O.groups(gen())):
            c = cs[0]
            S, T, P, ml = O.columns(c, v)
            ed = O.grid_of(c)["edges"]
            N = len(S)
            ip, ix = edges_to_csr(ed, N)
            p = np.array([np.nan if x == NANI else float(x) for x in c["ini"]])
            s, t = (np.full(N, np.nan) for _ in range(2))
            for i in range(N):
                s[i], t[i] = Col(S[i], T[i], P[i]).at(p[i]) if np.isfinite(p[i]) else (np.nan, np.nan)
            p[np.isnan(s)] = np.nan
            a = (s, t, p, ip, ix, 0, S, T, P, 1e-10, eos_p8, ppc, ml)
            m += 1
            if kind == "perim":
                reps = c["op"]["reps"]
                new = bfs_conncomp1_wet_perim(*a, np.iinfo(int).max if reps >= 99 else reps)
                ok = any(O.close(p, O.surf_of(h["hist"][0])) and new == h["hist"][0]["new"] for h in cs)
            else:
                out = bfs_conncomp1_wet(*a)
                qu, new = out
                ok = any(O.close(p, O.surf_of(h["hist"][0])) and new == h["hist"][0]["new"] and sorted(qu.tolist()) == [i for i in range(N) if h["seen"][i]]
                         for h in cs) and (len(qu) == 0 or qu[0] == 0)
            f = np.isfinite(p)
            sok = np.allclose(t[f], [O.TYPES[c["ty"][i] - 1]["off"] - p[i] for i in np.nonzero(f)[0]], atol=1e-6)
            if not ok or not sok:
                ctx.fail("search:" + kind, dict(case=c, got=dict(p=p, new=new), allowed=[O.surf_of(h["hist"][0]) for h in cs]))
    ctx.note("searches", m)
    # real columns
    rng = np.random.default_rng(ctx.seed + 5)
    recs, nfresh = [], 0
    cfgs = [("gsw", None, None, "linear"), ("jmd95", 9.81, 1027.5, "pchip")] + ([] if q else [("jmdfwg06", None, None, "linear"), ("gsw", 9.8, 1030.0, "pchip")])
    for name, grav, rho_c, interp in cfgs:
        eos = make_eos(name, grav, rho_c)
        ppc = make_pp(interp, kind="1", out="coeffs", nans=False)
        for rep in range(30 if q else 150):
            ni, nj = [(3, 4), (4, 4), (2, 5)][rep % 3]
            N = ni * nj
            S, T, P = ocean(rng, N, 8, masks=["full"] * 5 + ["land", "top", "floor", "hole", "single", "pair"], like=0.8, pnan=True)
            ed = tuple(np.asarray(x) for x in rectilinear.build_grid((ni, nj), (rep % 2 == 0 and ni > 2, ni == 2))["edges"])
            cols = [Col(S[i], T[i], P[i], interp) for i in range(N)]
            p, s, t = (np.full(N, np.nan) for _ in range(3))
            x0 = rng.uniform(300, 1200)
            for i in range(N):
                x = x0 + rng.uniform(-60, 60)
                if cols[i].inside(x) and rng.random() < 0.45:
                    p[i] = x; s[i], t[i] = cols[i].at(x)
            w = np.nonzero(np.isfinite(p))[0]
            if not len(w):
                continue
            root = int(w[rng.integers(len(w))])
            ml = np.full(N, -np.inf) if rep % 3 == 0 else np.where(rng.random(N) < 0.4, x0 + rng.uniform(-200, 200, N), 50.0)
            ip, ix = edges_to_csr(ed, N)
            s0, t0, p0 = s.copy(), t.copy(), p.copy()
            reps = np.iinfo(int).max if rep % 4 else 1 + rep % 3
            new = bfs_conncomp1_wet_perim(s, t, p, ip, ix, root, S, T, P, 1e-7, eos, ppc, ml, reps)
            nb = [[] for _ in range(N)]
            for a, b in zip(*ed):
                nb[a].append(int(b)); nb[b].append(int(a))
            link = []
            for i in range(N):
                L = []
                for mm in sorted(set(nb[i])):
                    if np.isfinite(p[mm]) and cols[i].ok and not (np.isfinite(p0[i]) and np.isfinite(p[i]) and p[i] == p0[i]):
                        z = neutral_roots(eos, (s[mm], t[mm], p[mm]), cols[i])
                        if z is None or len(z) > 1:
                            for y in (z or [p[i] if np.isfinite(p[i]) else 0.0]):
                                L.append([mm + 1, fx(y, 1e4), 2])
                        elif len(z) == 1:
                            L.append([mm + 1, fx(z[0], 1e4), 2 if abs(z[0] - ml[i]) < 1e-3 else int(z[0] > ml[i])])
                link.append(L)
            keep = [int(np.isfinite(p0[i]) and p[i] == p0[i] and s[i] == s0[i] and t[i] == t0[i]) for i in range(N)]
            fresh = np.isfinite(p) & ~np.isfinite(p0)
            nfresh += int(fresh.sum())
            for i in np.nonzero(np.isfinite(p))[0]:
                a, b = cols[i].at(p[i])
                if not (abs(a - s[i]) < 1e-6 and abs(b - t[i]) < 1e-6):
                    ctx.fail("WettedOnCast", dict(i=i, S=S[i], T=T[i], P=P[i], got=[s[i], t[i], p[i]]))
            recs.append(dict(tla=dict(nb=[[x + 1 for x in y] for y in nb], root=root + 1, w0=np.isfinite(p0).astype(int).tolist(), w1=np.isfinite(p).astype(int).tolist(),
                                      p=[fx(x, 1e4) for x in p], keep=keep, link=link, land=[int(not c.ok) for c in cols], new=int(new), tol=25, all=bool(reps > 100)),
                             S=S, T=T, P=P, p0=p0, p=p, ml=ml, edges=ed, meta=[name, grav, interp]))
    k = ctx.trace("WetTrace", recs)
    ctx.note("real_casts_wetted", nfresh)
    ctx.validated = n + m + k
