"""C21: what a call asks for.  Every request Requests.tla explores is made; a refused one must raise,
an answered one must agree with the call in which every setting is spelled out."""
import contextlib, io, json, multiprocessing as mp
import numpy as np
from vf.ref import ocean
from vf.checks.c20 import warm, same

CALCS = ["potential", "anomaly", "omega", "mixed", "trajectory", "link", "veronis", "norms", "stabilize", "unstable"]
G, R = 9.9, 1060.0


def custom():
    import numba as nb

    @nb.njit
    def rho(s, t, p):
        return 1000.0 + 0.8 * s - 0.15 * t - 1e-6 * t * p + 0.0045 * p

    @nb.njit
    def rho_s_t(s, t, p):
        return 0.8 + 0.0 * s, -0.15 - 1e-6 * p + 0.0 * t
    return rho, rho_s_t


def make(seed):
    rng = np.random.default_rng(seed + 21)
    ni, nj, nk = 4, 4, 9
    S, T, P = ocean(rng, ni * nj, nk, masks=["full"], shared_p=True, like=0.85)
    S, T, P = (np.reshape(x, (ni, nj, nk)).copy() for x in (S, T, P))
    T[..., :] -= np.linspace(0, 0.6, ni).reshape(ni, 1, 1)
    T[..., 1] = T[..., 0] - 0.05               # something of a mixed layer
    # a column mixed to below the surface, of about its density
    f = (5.0 / (P[1, 1, 5] - P[1, 1, 4]))
    s0, t0 = (x[1, 1, 4] + f * (x[1, 1, 5] - x[1, 1, 4]) for x in (S, T))
    S[3, 0, :7], T[3, 0, :7] = s0, t0 + 0.015 * (2.5 - np.arange(7))
    # a column with a heavy top: its mixed layer is the deepest for any threshold
    S[2, 3, :3], T[2, 3, :3] = S[2, 3, 3], T[2, 3, 3] + np.array([0.12, 0.11, 0.05])
    S[3, 3] = T[3, 3] = np.nan                 # land
    S[0, 3, 7:] = T[0, 3, 7:] = np.nan
    return S, T, P


class Lab:
    """the calls of one calculation, from the names in a request"""

    def __init__(self, calc, seed):
        from neutralocean.grid.rectilinear import build_grid
        self.c = calc
        S, T, P = make(seed)
        if calc in ("stabilize", "unstable"):
            T = T.copy()
            T[..., 3], T[..., 4] = T[..., 4].copy() - 0.4, T[..., 3].copy()
        if calc == "trajectory":
            S, T, P = (x[:, 1].copy() for x in (S, T, P))
        if calc in ("veronis", "link"):
            S, T, P = (x[2, 1].copy() for x in (S, T, P))
        self.data = S, T, P
        self.bottle = make(seed)[0][0, 0, 3], make(seed)[1][0, 0, 3], make(seed)[2][0, 0, 3]
        self.e = np.array(build_grid((4, 4), (False, True))["edges"]) if calc in ("potential", "anomaly", "omega", "norms") else None
        self.toy = custom()
        self.p = P
        rng = np.random.default_rng(seed)
        n = 0 if self.e is None else self.e.shape[1]
        self.dist, self.perp = rng.uniform(0.5, 3.0, n), rng.uniform(0.5, 3.0, n)

    def grid(self, v, full=False):
        if v == "absent":
            return None
        if v == "noedges":
            return dict(dist=self.dist)
        g = dict(edges=tuple(self.e))
        one = np.ones(self.e.shape[1])
        if v == "ones":
            g.update(dist=1.0, distperp=1.0)
        if v in ("dist", "both"):
            g["dist"] = self.dist
        if v == "both":
            g["distperp"] = self.perp
        if full:
            g.setdefault("dist", one); g.setdefault("distperp", one)
            g = {k: (one if np.ndim(x) == 0 else x) for k, x in g.items()}
        return g

    def eos(self, v):
        return {"pair": self.toy, "alone": self.toy[1] if self.c == "norms" else self.toy[0], "number": 3}.get(v, v)

    def pinit(self, v):
        S, T, P = self.data
        base = np.full((4, 4), float(P[1, 1, 4]) + 5.0)
        if v == "scalar":
            return float(base[0, 0])
        if v == "below":
            return 9e4
        if v == "text":
            return "deep"
        if v == "nested":
            return base.tolist()
        if v == "reshaped":
            return base.reshape(2, 8)
        if v == "shape":
            return base[:3]
        base[2, 2] = np.nan
        base[0, 2] = np.nan
        if v == "nan":
            base[1, 1] = base[2, 1] = np.nan
        if v == "labelled":
            import xarray as xr
            return xr.DataArray(base, dims=("y", "x"))
        return base

    def mixed(self, kw, eos=None):
        from neutralocean.mixed_layer import mixed_layer
        return mixed_layer(*self.data, eos or "gsw", **kw)

    @property
    def deep(self):
        """mixed-layer parameters that reach below the surface somewhere, not at the pin"""
        if not hasattr(self, "_deep"):
            # one whose answer tells the linear from the pchip mixed layer (its own default is linear), if there is one
            from neutralocean.surface import omega_surf
            p = self.pinit("scalar")
            q = omega_surf(*(x.copy() for x in self.data), self.grid("plain"), (1, 1), p, interp="pchip", diags=False, output=False)[2]
            d, best = 0.3, -1
            for e in np.linspace(0.02, 3.0, 300):
                m, m2 = (self.mixed(dict(pot_dens_diff=float(e), ref_p=500.0, interp=i)) for i in ("linear", "pchip"))
                if m[1, 1] < p - 60 and m[2, 1] < p - 60 and np.nansum(m > p + 40) >= 1:
                    gap = np.where((m > q) != (m2 > q), np.minimum(abs(m - q), abs(m2 - q)), 0.0)
                    if np.nanmax(gap) > best:
                        d, best = e, np.nanmax(gap)
            self._deep = dict(pot_dens_diff=float(d), ref_p=500.0)
        return self._deep

    def value(self, o, v, full, ef=None):
        """keyword and value of option o = v; spelled out if full"""
        S, T, P = self.data
        vd = {"last": -1, "two": S.ndim - 1}
        top = float(P.reshape(-1, P.shape[-1])[0, 0])
        pin = {"std": (1, 1), "other": (2, 1), "outside": (44, 1), "land": (3, 3)}
        if o == "eos":
            return dict(eos=self.eos(v)) if self.c != "norms" else dict(eos_s_t=self.eos(v))
        if o == "bsq":
            return dict(none={} if not full else dict(grav=None, rho_c=None), grav=dict(grav=G), rho=dict(rho_c=R), both=dict(grav=G, rho_c=R))[v]
        if o == "interp":
            return dict(interp=v)
        if o == "vert":
            return dict(vert_dim=vd[v])
        if o in ("diags", "output", "verbose"):
            return {o: v == "yes"}
        if o == "tol":
            return {"TOL_P_SOLVER" if self.c in ("potential", "anomaly", "omega") else "tol_p": float(v)}
        if o == "ref":
            if self.c == "potential":
                return dict(ref={"given": 1800.0, "badref": "deep", "pin": None}[v])
            return dict(ref={"given": (35.1, 7.5), "badref": 35.0, "pin": None}[v])
        if o == "pinc":
            return dict(pin_cast=pin[v])
        if o == "pinp":
            return dict(pin_p=float(P[1, 1, 4]) + 5.0 if v == "std" else "deep")
        if o == "grid":
            g = self.grid(v, full)
            return {} if g is None and not full else dict(grid=g)
        if o == "pinit":
            return dict(p_init=self.pinit("array" if full and v == "labelled" else v))
        if o in ("itermin", "itermax"):
            return {"ITER_" + o[4:].upper(): int(v)}
        if o in ("start", "stop"):
            return {dict(start="ITER_START_WETTING", stop="ITER_STOP_WETTING")[o]: np.inf if v == "inf" else int(v)}
        if o in ("tollrpd", "tolp"):
            return {dict(tollrpd="TOL_LRPD_MAV", tolp="TOL_P_CHANGE_RMS")[o]: float(v)}
        if o == "form":
            return dict(OMEGA_FORMULATION=v)
        if o == "pml":
            given = dict(default={}, dict=self.deep if v == "dict" else None, none=None,
                         array=np.where(np.arange(16).reshape(4, 4) % 3 == 0, float(P[1, 1, 4]) + 400.0, 10.0))[v]
            if full and isinstance(given, dict):
                return dict(p_ml=self.mixed(dict(dict(pot_dens_diff=0.03, ref_p=100.0, bottle_index=1, interp="linear", vert_dim=-1), **given), ef))
            return dict(p_ml=given)
        if o == "pstart":
            if self.c == "veronis":
                return dict(p0={"top": top if full else None, "mid": 0.4 * float(P[3]) + 0.6 * float(P[4])}[v])
            return dict(p0=float(P[0, 3]) + (2.0 if v == "std" else 90.0))
        if o == "pref":
            return {"ref_p" if self.c == "mixed" else "p_ref": float(v)}
        if o == "diff":
            return dict(pot_dens_diff=float(v))
        if o == "bottle":
            return dict(bottle_index=int(v))
        if o == "b":
            return dict(b=float(v))
        if o == "step":
            return dict(dp=float(v))
        if o == "least":
            return dict(min_dLRPDdp=np.linspace(1e-6, 5e-4, 8) if v == "array" else float(v))
        if o == "weight":
            return dict(weight=float(v))
        if o == "tolmin":
            return dict(tol=float(v))
        if o == "method":
            return dict(method=v)
        if o == "iters":
            return dict(options=dict(maxiter=int(v)))
        raise KeyError(o)

    def call(self, setting, full=False, bsq=False):
        """(answer or None, exception, printed)"""
        from neutralocean import surface, traj, label, ntp, stability
        from neutralocean.eos import make_eos, make_eos_s_t
        kw, ef = {}, None
        if full and "eos" in setting and setting["eos"] in ("gsw", "jmd95"):
            a = (G, R) if bsq else (None, None)
            ef = make_eos(setting["eos"], *a), make_eos_s_t(setting["eos"], *a)
        elif full and setting.get("eos") == "pair":
            ef = self.toy
        for o, v in setting.items():
            if v == "-":
                continue
            if full and o == "eos" and ef is not None:
                pair = self.c in ("potential", "anomaly", "omega", "veronis")
                kw.update(eos_s_t=ef[1]) if self.c == "norms" else kw.update(eos=ef if pair else ef[0])
            elif full and o == "bsq" and ef is not None:
                kw.update(grav=None, rho_c=None)
            else:
                kw.update(self.value(o, v, full, ef and ef[0]))
        S, T, P = (x.copy() for x in self.data)
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                c = self.c
                if c == "potential":
                    r = surface.potential_surf(S, T, P, **kw)
                elif c == "anomaly":
                    r = surface.anomaly_surf(S, T, P, **kw)
                elif c == "omega":
                    a = [kw.pop(k) for k in ("grid", "pin_cast", "p_init") if k in kw]
                    r = surface.omega_surf(S, T, P, *a, **kw)
                elif c == "mixed":
                    r = self.mixed(kw, kw.pop("eos", None)) if full else self.mixed_asked(kw)
                elif c == "trajectory":
                    a = [kw.pop("p0")] if "p0" in kw else []
                    r = traj.neutral_trajectory(S, T, P, *a, **kw)
                elif c == "link":
                    r = traj.ntp_bottle_to_cast(*self.bottle, S, T, P, **kw)
                elif c == "veronis":
                    r = label.veronis(float(P[5]) + 40.0, S, T, P, **kw)
                elif c == "norms":
                    g = [kw.pop("grid")] if "grid" in kw else []
                    # a slope through the data, not along levels
                    z = S[..., 3].copy(), T[..., 3].copy(), P[..., 3] + np.arange(16.0).reshape(4, 4)
                    r = ntp.ntp_epsilon_errors_norms(*z, *g, **kw), ntp.ntp_epsilon_errors(*z, *g, **kw)
                elif c == "stabilize":
                    a = [kw.pop("eos")] if "eos" in kw else []
                    stability.stabilize_ST(S, T, P, *a, **kw)
                    r = S, T
                else:
                    r = stability.count_unstable(S, T, P, **kw)
        except Exception as x:
            return None, repr(x)[:200], out.getvalue()
        return r, None, out.getvalue()

    def mixed_asked(self, kw):
        from neutralocean.mixed_layer import mixed_layer
        return mixed_layer(*(x.copy() for x in self.data), **kw)


def arrays(x):
    if isinstance(x, dict):
        return [a for k in sorted(x) if not k.startswith("timer") for a in arrays(x[k])]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in arrays(y)]
    return [np.asarray(x, float)]


def compile_key(c):
    q = c["eff"] or c["req"]
    return [str(q.get("eos")), str(q.get("bsq") == "both"), str(q.get("interp"))]


def play(job):
    calc, cases, heeds, seed = job
    lab = Lab(calc, seed)
    bad, n, memo = [], dict(answered=0, refused=0, heeded=0, finite=0), {}

    def spelled(eff, bsq):
        k = json.dumps(eff, sort_keys=True)
        if k not in memo:
            memo[k] = lab.call(eff, True, bsq)
        return memo[k]
    for c in sorted(cases, key=compile_key):
        r, err, text = lab.call(c["req"])
        n[c["out"]] += 1
        if c["out"] == "refused":
            if err is None:
                bad.append(("Refused", dict(request=c["req"], got=arrays(r))))
            continue
        if err is not None:
            bad.append(("Answered", dict(request=c["req"], error=err)))
            continue
        w, werr, _ = spelled(c["eff"], c["bsq"])
        if werr is not None:
            bad.append(("Answered", dict(request=c["eff"], error=werr)))
            continue
        if calc in ("potential", "anomaly", "omega"):
            if not (isinstance(r, tuple) and len(r) == 4 and isinstance(r[3], dict)):
                bad.append(("FourOutputs", dict(request=c["req"])))
                continue
            if ("e_RMS" in r[3]) != (c["eff"]["diags"] == "yes"):
                bad.append(("DiagnosticsAsAsked", dict(request=c["req"], got=list(r[3]))))
        n["finite"] += any(np.isfinite(x).any() for x in arrays(r))
        if not same(arrays(r), arrays(w)):
            bad.append(("SameAsSpelledOut", dict(request=c["req"], settings=c["eff"], got=arrays(r), want=arrays(w))))
        if bool(text) != c["prints"]:
            bad.append(("Prints", dict(request=c["req"], printed=text[:200])))
    lab = Lab(calc, 1)      # an ocean on which every option of Heeded shows
    for h in heeds:
        base = dict(next(c["req"] for c in cases if c["out"] == "answered" and all(v in ("-", "plain", "std", "scalar", "alone") for v in c["req"].values())))
        if h["with"]:
            base[h["with"][0]] = h["with"][1]
        a, b = (lab.call({**base, h["opt"]: v}) for v in (h["v"], h["w"]))
        n["heeded"] += 1
        if a[1] or b[1]:
            bad.append(("Answered", dict(request=h, error=a[1] or b[1])))
        elif same(arrays(a[0]), arrays(b[0])):
            bad.append(("Heeded", dict(request=h, both=arrays(a[0]))))
    return bad, n


def run(ctx):
    q = ctx.quick
    gs = [ctx.gen("Requests", dict(Calcs='{"%s"}' % c, Dev=2), inv=("Inv", "Emitted"), name="req_" + c, workers=2) for c in CALCS]
    hs = ctx.gen("Requests", dict(Calcs="{%s}" % ", ".join('"%s"' % c for c in CALCS), Dev=1), inv=("HeedInv",), spec="HeedSpec", name="heed", workers=1)
    warm()
    jobs = []
    heeds = hs()
    for c, g in zip(CALCS, gs):
        cases = g()
        for x in cases:
            x["eff"] = x["eff"] or {}
        if q:   # a compilation per equation of state and interpolant: not all of them
            odd = lambda x: ((x["req"].get("eos", "-") not in ("-", "gsw")) + (x["req"].get("bsq", "-") == "both") + (x["req"].get("interp") == "pchip")) >= 2
            cases = [x for x in cases if x["out"] == "refused" or not odd(x)]
        jobs.append((c, cases, [h["heed"] for h in heeds if h["heed"]["calc"] == c], ctx.seed))
    ctx.sample(jobs[2][1][3]); ctx.sample(jobs[2][2][0])
    jobs.sort(key=lambda j: ["omega", "potential", "anomaly"].index(j[0]) if j[0] in ("omega", "potential", "anomaly") else 9)
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(play, jobs, chunksize=1)
    tot = {}
    for (c, *_), (bad, n) in zip(jobs, res):
        for clause, d in bad:
            ctx.fail(clause, dict(calc=c, **d))
        for k, v in n.items():
            tot[k] = tot.get(k, 0) + v
    for k, v in tot.items():
        ctx.note(k, v)
    ctx.validated = sum(tot[k] for k in ("answered", "refused", "heeded"))
    ctx.assumptions.append("one seeded 4x4 ocean per run; refusals are of any exception type")
