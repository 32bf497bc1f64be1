"""C25: answers do not depend on units or datums.  Units.tla enumerates changes of scale and says how every
argument and answer is rewritten; the rewritten call must give the rewritten answer."""
import contextlib, io, multiprocessing as mp
import numpy as np
from vf.checks.c20 import warm
from vf.checks.c21 import make

CALCS = ["potential", "anomaly", "omega", "mixed", "trajectory", "link", "veronis", "norms", "unstable"]
PAR = np.zeros(10)           # what the equation of state reads: S, T, p as kept are k x + c of the ocean's; a b c d
_eos = {}


def equations():
    """one compiled equation of state that follows PAR (a call compiles once, whatever the units)"""
    if _eos:
        return _eos["f"], _eos["g"]
    import numba as nb
    from numba.core import types, cgutils

    @nb.extending.intrinsic
    def pointer(ctx, x):
        def gen(c, b, s, a):
            return b.inttoptr(a[0], cgutils.voidptr_t)
        return types.voidptr(x), gen
    at = PAR.ctypes.data

    @nb.njit
    def base(s, t, p):      # sane everywhere: omega_surf and mixed_layer try it at (34.5, 3, 1000) on the caller's scales
        s, t, p = np.minimum(np.maximum(s, 0.0), 60.0), np.minimum(np.maximum(t, -9.0), 60.0), np.minimum(np.maximum(p, -3000.0), 2e4)
        return 1000.0 + 0.8 * s - 0.15 * t - 0.003 * t * t + 0.001 * s * t - 4e-5 * t * p + 1e-6 * s * p + 0.0045 * p

    @nb.njit
    def f(s, t, p):
        u = nb.carray(pointer(at), (10,), np.float64)
        r = base((s - u[1]) / u[0], (t - u[3]) / u[2], (p - u[5]) / u[4])
        return (u[6] * r + u[7]) / (u[8] * r + u[9])

    @nb.njit
    def g(s, t, p):
        u = nb.carray(pointer(at), (10,), np.float64)
        s, t, p = (s - u[1]) / u[0], (t - u[3]) / u[2], (p - u[5]) / u[4]
        q = u[8] * base(s, t, p) + u[9]
        k = (u[6] * u[9] - u[7] * u[8]) / (q * q)
        return k * (0.8 + 0.001 * t + 1e-6 * p) / u[0], k * (-0.15 - 0.006 * t + 0.001 * s - 4e-5 * p) / u[2]
    _eos.update(f=f, g=g)
    return f, g


def rat(x):
    return x[0] / x[1]


NONE = dict(S=[[1, 1], [0, 1]], T=[[1, 1], [0, 1]], p=[[1, 1], [0, 1]], d=[1, 0, 0, 1],
            conv={k: [[1, 1], [0, 1]] for k in ("S", "T", "p", "dp", "length", "density", "ddensity", "ddensity/length", "reading", "sequence")})


class Lab:
    def __init__(self, calc, seed):
        from neutralocean.grid.rectilinear import build_grid
        self.c, self.seed = calc, seed
        S, T, P = make(seed)
        if calc == "unstable":
            T = T.copy(); T[..., 3], T[..., 4] = T[..., 4].copy() - 0.4, T[..., 3].copy()
        self.S, self.T, self.P = S, T, P
        self.e = build_grid((4, 4), (False, True))["edges"]
        rng = np.random.default_rng(seed)
        self.dist, self.perp = (rng.uniform(0.5, 3.0, len(self.e[0])) for _ in range(2))
        self.base = {}

    def variants(self):
        c = self.c
        if c == "potential":
            return ["pinned", "pin only", "value"]
        if c == "anomaly":
            return ["pinned", "pin only"]
        if c == "omega":
            return ["array", "scalar", "dict", "ml", "gradient", "stop"]
        if c == "norms":
            return ["weighted", "plain"]
        if c == "unstable":
            return ["diff", "gradient"]
        return ["linear", "pchip"]

    def call(self, v, u):
        """(kinds and values of the answer)"""
        from neutralocean import surface, traj, label, ntp, stability
        from neutralocean.mixed_layer import mixed_layer
        from neutralocean.ppinterp import make_pp
        f, g = equations()
        PAR[:] = [rat(u["S"][0]), rat(u["S"][1]), rat(u["T"][0]), rat(u["T"][1]), rat(u["p"][0]), rat(u["p"][1])] + list(u["d"])
        conv = lambda kind, x: rat(u["conv"][kind][0]) * x + rat(u["conv"][kind][1])
        S, T, P = conv("S", self.S), conv("T", self.T), conv("p", self.P)
        tol = conv("dp", 1e-6)
        c, c0 = self.c, (1, 1)
        p0 = conv("p", float(self.P[1, 1, 4]) + 5.0)
        grid = dict(edges=self.e, dist=conv("length", self.dist), distperp=conv("length", self.perp))
        with contextlib.redirect_stdout(io.StringIO()):
            if c in ("potential", "anomaly"):
                kw = dict(eos=(f, g), TOL_P_SOLVER=tol, grid=grid)
                if v != "value":
                    kw.update(pin_cast=c0, pin_p=p0)
                    if v == "pinned":
                        kw["ref"] = conv("p", 1500.0) if c == "potential" else (conv("S", 35.1), conv("T", 7.5))
                else:
                    kw.update(ref=conv("p", 1500.0), isoval=conv("density", self.iso))
                s, t, p, d = getattr(surface, c + "_surf")(S, T, P, **kw)
                out = [("S", s), ("T", t), ("p", p), ("sequence", d["n_wet"]), ("ddensity/length", d["e_RMS"]), ("ddensity/length", d["e_MAV"])]
                if c == "potential":
                    out += [("p", d["ref"]), ("density", d["isoval"])]
                else:
                    out += [("S", d["ref"][0]), ("T", d["ref"][1])] + ([("ddensity", d["isoval"])] if v == "pinned" else [])
                return out
            if c == "omega":
                kw = dict(eos=(f, g), TOL_P_SOLVER=tol, TOL_LRPD_MAV=0.0, ITER_MAX=4, output=False)
                init = np.full((4, 4), p0)
                if v == "scalar":
                    init = p0
                if v == "dict":
                    kw.update(p_ml=dict(pot_dens_diff=conv("reading", 0.9), ref_p=conv("p", 200.0)))
                if v == "ml":
                    kw.update(p_ml=conv("p", np.where(np.arange(16).reshape(4, 4) % 3 == 0, float(self.P[1, 1, 4]) + 400.0, 10.0)))
                if v == "gradient":
                    kw.update(OMEGA_FORMULATION="gradient")
                if v == "stop":
                    kw.update(TOL_P_CHANGE_RMS=conv("dp", 0.5), ITER_MAX=9)
                s, t, p, d = surface.omega_surf(S, T, P, grid, c0, init, **kw)
                return [("S", s), ("T", t), ("p", p), ("sequence", d["n_wet"]), ("sequence", d["n_newly_wet"]), ("ddensity/length", d["e_RMS"]), ("ddensity/length", d["e_MAV"]),
                        ("ddensity", d["ϕ_MAV"]), ("dp", d["Δp_MAV"]), ("dp", d["Δp_RMS"]), ("dp", d["Δp_Linf"])]
            if c == "mixed":
                return [("p", mixed_layer(S, T, P, f, pot_dens_diff=conv("reading", 0.4), ref_p=conv("p", 300.0), interp=v))]
            if c == "trajectory":
                s, t, p = traj.neutral_trajectory(S[:, 1].copy(), T[:, 1].copy(), P[:, 1].copy(), conv("p", float(self.P[0, 1, 3]) + 2.0), eos=f, tol_p=tol, interp=v)
                return [("S", s), ("T", t), ("p", p)]
            if c == "link":
                out = []
                for i in ((1, 2), (2, 0), (0, 1)):
                    s, t, p = traj.ntp_bottle_to_cast(S[0, 0, 3], T[0, 0, 3], P[0, 0, 3], S[i].copy(), T[i].copy(), P[i].copy(), eos=f, tol_p=tol, interp=v)
                    out += [("S", s), ("T", t), ("p", p)]
                return out
            if c == "veronis":
                S, T, P = S[2, 1].copy(), T[2, 1].copy(), P[2, 1].copy()
                return [("density", label.veronis(conv("p", float(self.P[2, 1, 5]) + 40.0), S, T, P, p0=conv("p", float(self.P[2, 1, 1]) + 3.0), p_ref=conv("p", 700.0), dp=conv("dp", 9.0), eos=(f, g), interp=v))]
            if c == "norms":
                z = S[..., 3].copy(), T[..., 3].copy(), P[..., 3] + conv("dp", np.arange(16.0).reshape(4, 4))
                gr = grid if v == "weighted" else dict(edges=self.e)
                a, b = ntp.ntp_epsilon_errors_norms(*z, gr, g)
                k = "ddensity/length" if v == "weighted" else "ddensity"
                return [(k, a), (k, b), (k, ntp.ntp_epsilon_errors(*z, gr, g))]
            kw = dict(eos=f) if v == "diff" else dict(eos_s_t=g, interp_two=make_pp("linear", kind="u", out="interp", num_dep_vars=2))
            return [("sequence", stability.count_unstable(S, T, P, **kw))]


def play(job):
    calc, cases, seed = job
    lab = Lab(calc, seed)
    bad, n = [], dict(compared=0, finite=0)
    vs = lab.variants()
    try:
        if calc == "potential":
            lab.iso = float(dict(lab.call("pinned", NONE))["density"])
        base = {v: lab.call(v, NONE) for v in vs}
    except Exception as x:
        return [("Answered", dict(calc=calc, units="as given", error=repr(x)[:300]))], n
    for i, u in enumerate(cases):
        for v in (vs if len(u["word"]) == 1 else [vs[i % len(vs)]]):
            if v == "value" and "density" not in u["conv"]:
                v = "pinned"
            if v == "dict" and "reading" not in u["conv"]:
                v = "ml"
            try:
                r = lab.call(v, u)
            except Exception as x:
                bad.append(("Answered", dict(calc=calc, request=v, change=u["word"], error=repr(x)[:300])))
                continue
            for j, ((k, x), (_, y)) in enumerate(zip(base[v], r)):
                if k not in u["conv"]:
                    continue
                a, b = (rat(z) for z in u["conv"][k])
                x, y = np.asarray(x, float), np.asarray(y, float)
                n["compared"] += 1
                n["finite"] += int(np.isfinite(x).any())
                # in the units of the change: slopes of the ocean are ~1e-2 per dbar at most
                slack = dict(p=2e-4, S=1e-5, T=1e-5, density=1e-6, ddensity=1e-7, dp=3e-4, sequence=0).get(k, 1e-7)
                if v == "gradient" and calc == "omega":
                    slack *= 3000        # lsqr stops at a relative tolerance of 1e-6
                w = a * x + b
                if x.shape != y.shape or not np.array_equal(np.isnan(w), np.isnan(y)) or not np.all((abs(w - y) <= slack * abs(a) + 1e-9 * abs(b)) | np.isnan(w)):
                    bad.append(("SameInOtherUnits", dict(calc=calc, request=v, change=u["word"], what=k, answer=j, as_given=x.tolist(), rewritten=w.tolist(), got=y.tolist())))
                    break
    return bad, n


def run(ctx):
    q = ctx.quick
    com = dict(Factors="{<<10, 1>>, <<1, 8>>}", PFactors="{<<10000, 1>>, <<1, 1000>>}", Shifts="{<<30, 1>>, <<-200, 1>>}", PShifts="{<<30, 1>>, <<-5000, 1>>}", RShifts="{<<-1000, 1>>, <<25, 1>>}", LFactors="{<<1, 1000>>, <<7, 1>>}")
    gs = [ctx.gen("Units", dict(com, Calcs='{"%s"}' % c, Depth=2 if q else 3), inv=("Inv", "Emitted"), name="units_" + c, workers=1) for c in CALCS]
    warm()
    jobs = []
    for i, c in enumerate(CALCS):
        cases = gs[i]()
        seen, keep = set(), []
        for u in sorted(cases, key=lambda u: len(u["word"])):
            k = str((u["S"], u["T"], u["p"], u["d"], u["conv"].get("length")))
            if k not in seen and k != str((NONE["S"], NONE["T"], NONE["p"], NONE["d"], NONE["S"])):
                seen.add(k); keep.append(u)
        jobs.append((c, keep, ctx.seed))
    ctx.sample(jobs[0][1][5]); ctx.sample(jobs[2][1][-1])
    jobs.sort(key=lambda j: -["norms", "unstable", "link", "mixed", "trajectory", "veronis", "potential", "anomaly", "omega"].index(j[0]))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        res = pool.map(play, jobs, chunksize=1)
    for (c, cs, _), (bad, n) in zip(jobs, res):
        for clause, d in bad[:20]:
            ctx.fail(clause, d)
        ctx.note("changes_" + c, len(cs))
        ctx.note("compared_" + c, n["finite"])
        ctx.validated += n["compared"]
        if not bad and n["finite"] < 0.5 * n["compared"]:
            ctx.fail("Answered", dict(calc=c, error="answers are missing throughout"))
    ctx.assumptions.append("one seeded 4x4 ocean and one polynomial equation of state per run; stabilize_ST is excluded: it weighs salinity against temperature changes")
