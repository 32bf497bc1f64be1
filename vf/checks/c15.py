"""C15: array layout and container do not matter; inputs are not modified."""
import numpy as np
from vf.core import jsonable
from vf.ref import ocean

NK = 6


def edges_of(hs):
    """adjacency of the horizontal array (C numbering)"""
    idx = np.arange(int(np.prod(hs))).reshape(hs)
    a, b = [], []
    for ax in range(len(hs)):
        n = hs[ax]
        a += list(np.take(idx, range(n - 1), ax).reshape(-1)); b += list(np.take(idx, range(1, n), ax).reshape(-1))
    return np.array(a, int), np.array(b, int)


def eq(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol, equal_nan=True)


class Lay:
    """an array laid out in memory as the specification's case says"""

    def __init__(self, case, dtype):
        self.c, self.dtype = case, np.dtype(dtype)

    def put(self, canon):
        c = self.c
        buf = np.asarray(canon, float).reshape(-1)[np.array(c["mem"]) - 1].astype(self.dtype)
        it = self.dtype.itemsize
        a = np.lib.stride_tricks.as_strided(buf[c["base"]:], shape=c["shape"], strides=[s * it for s in c["strides"]])
        return a

    def label(self, a, name, xr, dims=None):
        c = self.c
        dims = c["axes"] if dims is None else dims
        if c["cont"] == "plain":
            return a
        co = {}
        if c["cont"] == "coords":
            for d, n in zip(dims, a.shape):
                co[d] = {"x": 10.0 * np.arange(n), "y": 40.0 - 5.0 * np.arange(n), "w": np.array([7, 3, 5, 11, 2][:n]), "z": 100.0 * np.arange(n)}[d]
        return xr.DataArray(a, dims=dims, coords=co, name=name, attrs=dict(units="u" + name))

    def pin(self):
        c = self.c
        ix = tuple(int(i) for i in c["pin"])
        if c["pinform"] == "int":
            return ix[0]
        if c["pinform"] == "index":
            return ix
        co = {"x": lambda i: 10.0 * i, "y": lambda i: 40.0 - 5.0 * i, "w": lambda i: [7, 3, 5, 11, 2][i]}
        items = [(d, co[d](i) if c["cont"] == "coords" else i) for d, i in zip("xyw", ix)]
        return dict(items if c["pinform"] == "labels" else items[::-1])

    def vert(self):
        v = self.c["vspec"]
        return "z" if v[0] == "name" else int(v[1])


def run(ctx):
    q = ctx.quick
    g = ctx.gen("Layout", dict(Shapes="{<<6>>, <<2, 6>>, <<2, 1, 2>>}", NK=NK, Memories='{"C", "F", "back"}', Containers='{"plain", "coords", "bare"}',
                               PForms='{"full", "profile"}', Calls='{"read", "mutate"}'), inv=("Inv", "Emitted"), workers=6)
    import xarray as xr
    from neutralocean.surface import potential_surf, anomaly_surf, omega_surf
    from neutralocean.mixed_layer import mixed_layer
    from neutralocean.traj import neutral_trajectory
    from neutralocean.stability import stabilize_ST, count_unstable
    from neutralocean.eos import make_eos, vectorize_eos
    eosv = vectorize_eos(make_eos("jmd95"))
    rng = np.random.default_rng(ctx.seed + 15)
    EOS = dict(eos="jmd95")
    # one ocean per (shape, pressure form, float width), canonical = C order, vertical last, plain, full pressure
    oceans, results = {}, {}

    def get_ocean(hs, pform, f4, k):
        key = (hs, pform, f4, k)
        if key not in oceans:
            nc = int(np.prod(hs))
            S, T, P = ocean(rng, nc, NK, masks=["full", "full", "full", "top", "floor", "hole"], like=0.8, shared_p=pform == "profile")
            for c in {0, min(nc, 2 + len(hs)) - 1}:           # pinning casts are complete
                S[c], T[c], _ = (x[0] for x in ocean(np.random.default_rng(c), 1, NK, masks=["full"], like=0.8))
            if f4:
                S, T, P = (x.astype("f4").astype("f8") for x in (S, T, P))
            U = T.copy(); V = S.copy()                         # an unstable twin, for the stabilizer
            U[::2, 2] -= 6.0; V[::2, 2] += 0.3
            if f4:
                U, V = (x.astype("f4").astype("f8") for x in (U, V))
            oceans[key] = tuple(x.reshape(*hs, NK) for x in (S, T, P, V, U))
        return oceans[key]

    def calls(what, S, T, P, vert, pin, pp, hs, alt, wrapper=lambda a, n: a):
        """one calculation; returns a list of (name, array, tolerance)"""
        kw = dict(vert_dim=vert)
        ed = edges_of(hs)
        if what == "potential":
            s, t, p, d = potential_surf(S, T, P, grid=dict(edges=ed), pin_cast=pin, pin_p=pp, output=False, diags=alt % 2 == 0, **EOS, **kw)
            return [("s", s, 1e-9), ("t", t, 1e-9), ("p", p, 1e-7), ("iso", d["isoval"], 1e-9)]
        if what == "potential-ref":
            s, t, p, d = potential_surf(S, T, P, ref=700.0, isoval=float(eosv(34.8, 8.0, 700.0)), output=False, diags=False, interp="pchip", **EOS, **kw)
            return [("s", s, 1e-9), ("t", t, 1e-9), ("p", p, 1e-7)]
        if what == "anomaly":
            s, t, p, d = anomaly_surf(S, T, P, grid=dict(edges=ed), pin_cast=pin, pin_p=pp, output=False, diags=alt % 2 == 1, **EOS, **kw)
            return [("s", s, 1e-9), ("t", t, 1e-9), ("p", p, 1e-7), ("ref", d["ref"][0], 1e-9)]
        if what.startswith("omega"):
            grid = dict(edges=ed, dist=1.0e5 * (1 + np.arange(len(ed[0]))), distperp=2.0e5)
            keep = [x.copy() for x in ed] + [grid["dist"].copy()]
            base = dict(output=False, ITER_MAX=2, ITER_MIN=2, **EOS, **kw)
            extra = []
            if what == "omega-scalar":
                if alt % 4 == 1:
                    grid = dict(edges=[list(map(int, x)) for x in ed], dist=list(grid["dist"]), distperp=2.0e5)
                elif alt % 4 == 2:
                    grid = dict(edges=np.stack(ed), dist=grid["dist"], distperp=np.full(len(ed[0]), 2.0e5))
                elif alt % 4 == 3:
                    grid = dict(edges=tuple(x.astype("i4") for x in ed), dist=grid["dist"], distperp=2.0e5)
                p0 = pp
            else:
                p0 = np.full(hs, pp) + 20.0 * np.sin(np.arange(int(np.prod(hs)))).reshape(hs)
                p0 = np.round(p0)                       # exact in every number format
                p0 = p0.astype(["f8", "i8", "f4", ">f8"][alt % 4])
                p0 = np.asfortranarray(p0) if alt % 3 == 0 else p0
                p0 = wrapper(p0, "p0")
                extra.append(("p_init", p0, p0.copy()))
                ml = np.full(hs, -np.inf); ml.reshape(-1)[-1] = 1.0e5
                ml = ml.reshape(-1) if alt % 3 == 1 else np.asfortranarray(ml) if alt % 3 == 2 else ml
                base["p_ml"] = ml
                extra.append(("p_ml", ml, ml.copy()))
            if what == "omega-mixed":
                base["p_ml"] = dict(pot_dens_diff=0.2, bottle_index=0) if alt % 2 == 0 else np.asarray(mixed_layer(S, T, P, vert_dim=vert, pot_dens_diff=0.2, bottle_index=0, **EOS))
            told = [dict(x) for x in (grid, base["p_ml"] if isinstance(base.get("p_ml"), dict) else {}, pin if isinstance(pin, dict) else {})]
            s, t, p, d = omega_surf(S, T, P, grid, pin_cast=pin, p_init=p0, diags=alt % 2 == 0, **base)
            for nm, x, y in zip(("grid", "p_ml", "pin_cast"), (grid, base.get("p_ml"), pin), told):
                if isinstance(x, dict) and (list(x) != list(y) or any(x[k] is not y[k] for k in y)):
                    ctx.fail("InputsUnmodified", dict(what=what, which=nm, before=str(y), after=str(x)))
            for nm, x, y in extra + [("edges", ed[0], keep[0]), ("edges", ed[1], keep[1])]:
                if not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True):
                    ctx.fail("InputsUnmodified", dict(what=what, which=nm))
            return [("s", s, 1e-7), ("t", t, 1e-7), ("p", p, 1e-5)]
        if what == "mixed":
            return [("ml", mixed_layer(S, T, P, vert_dim=vert, pot_dens_diff=0.3, bottle_index=0, **EOS), 1e-7)]
        if what == "traj":
            s, t, p = neutral_trajectory(S, T, P, pp, vert_dim=vert, **EOS)
            return [("s", s, 1e-9), ("t", t, 1e-9), ("p", p, 1e-7)]
        if what == "count":
            return [("n", count_unstable(S, T, P, eos=eosv, vert_dim=vert), 0)]
        raise KeyError(what)

    cases = g()
    ctx.sample(cases[7])
    n = 0
    WHAT = ["potential", "anomaly", "omega-scalar", "omega-array", "omega-mixed", "mixed", "count", "potential-ref", "traj"]
    turn = {}
    for ci, c in enumerate(cases):
        hs = tuple(c["hs"])
        flat = int(np.ravel_multi_index(c["pin"], hs))
        # rotate calculations so that every (axes, memory, container, vspec, pressure) meets every calculation over its pin forms
        if c["call"] == "mutate":
            if c["pinform"] != "index" or any(c["pin"]):
                continue
            whats = ["stab"] if (not q or turn.setdefault(("m", c["pform"]), 0) % 2 == 0) else []
            turn[("m", c["pform"])] = turn.get(("m", c["pform"]), 0) + 1
        else:
            key = (hs, tuple(c["axes"]), c["memo"], c["cont"], tuple(c["vspec"]), c["pform"])
            k = turn.get(key, 0); turn[key] = k + 1
            pins = WHAT[:5]
            if c["pinform"] in ("labels", "labels-reversed", "int"):
                whats = [pins[(ci + i) % 5] for i in range(2)]
            else:
                whats = [WHAT[(ci + i) % 9] for i in range(3)]
            if not q or (c["memo"] == "C" and c["axes"][-1] == "z" and c["cont"] == "plain"):
                whats = WHAT
        alt = (ci * 7) % 12
        dt = ["f8", "f4", "f8", ">f8"][(ci // 2) % 4]
        if c["memo"] == "C" and c["axes"][-1] == "z" and c["cont"] == "plain" and c["pinform"] == "index":
            dt = "f8"                                       # nothing to convert: the calculation sees the caller's memory
        L = Lay(c, dt)
        S0, T0, P0, V0, U0 = get_ocean(hs, c["pform"], dt == "f4", 0)
        for what in whats:
            if what == "traj" and len(hs) != 1:
                continue
            n += 1
            A, B = (V0, U0) if what in ("stab", "count") else (S0, T0)
            S, T = (L.label(L.put(x), nm, xr) for x, nm in ((A, "S"), (B, "T")))
            if c["pform"] == "profile":
                pr = P0.reshape(-1, NK)[0].astype(L.dtype)
                P = xr.DataArray(pr, dims=["z"], name="P", attrs=dict(units="dbar")) if c["cont"] != "plain" and ci % 3 else pr
            else:
                P = L.put(P0)
                P = L.label(P, "P", xr) if ci % 3 else P
            before = [x.copy(deep=True) if hasattr(x, "dims") else x.copy() for x in (S, T, P)]
            pp = float(P0.reshape(-1, NK)[flat][2] + 0.3 * (P0.reshape(-1, NK)[flat][3] - P0.reshape(-1, NK)[flat][2]))
            info = dict(what=what, case={k: c[k] for k in ("hs", "axes", "memo", "cont", "vspec", "pform", "pinform", "pin")}, dtype=dt, alt=alt)
            wrap = (lambda a, nm: L.label(a, nm, xr, dims=[d for d in c["axes"] if d != "z"])) if ci % 2 else (lambda a, nm: a)
            try:
                if what == "stab":
                    ck = (hs, c["pform"], dt == "f4", "stab")
                    if ck not in results:
                        a, b = V0.copy(), U0.copy()
                        stabilize_ST(a, b, P0.copy(), eosv, verbose=False)
                        results[ck] = (a, b)
                    stabilize_ST(S, T, P, eosv, vert_dim=L.vert(), verbose=False)
                    for nm, x, want in (("S", S, results[ck][0]), ("T", T, results[ck][1])):
                        # read the caller's array back through the case's own axes
                        back = np.moveaxis(np.asarray(x.values if hasattr(x, "values") else x, float), c["axes"].index("z"), -1)
                        if not eq(back, want, 2e-4 if dt == "f4" else 1e-6):
                            ctx.fail("Mutated", dict(info, which=nm, got=back, want=want))
                    pa, pb = (np.asarray(x) for x in (P, before[2]))
                    if not np.array_equal(pa, pb, equal_nan=True):
                        ctx.fail("InputsUnmodified", dict(info, which="P"))
                    continue
                ck = (hs, c["pform"], dt == "f4", what, tuple(c["pin"]) if what in WHAT[:5] or what == "traj" else 0)
                if ck not in results:
                    results[ck] = calls(what, A.copy(), B.copy(), P0.copy(), -1, tuple(int(i) for i in c["pin"]), pp, hs, 0)
                got = calls(what, S, T, P, L.vert(), L.pin(), pp, hs, alt, wrap)
            except Exception as e:
                ctx.fail(f"raises {type(e).__name__}", dict(info, error=str(e)[:300]))
                continue
            for (nm, x, _), (_, y, tol) in zip(got, results[ck]):
                if not eq(x, y, tol):
                    ctx.fail("SameResult", dict(info, which=nm, got=np.asarray(x), want=np.asarray(y)))
                if nm in "stp" and what not in ("traj",):
                    if c["cont"] == "plain":
                        if type(x) is not np.ndarray:
                            ctx.fail("PlainStaysPlain", dict(info, which=nm, type=str(type(x))))
                    else:
                        ok = isinstance(x, xr.DataArray) and list(x.dims) == c["dims"] and "z" not in x.coords
                        if ok and c["cont"] == "coords":
                            ok = all(d in x.coords and np.array_equal(x.coords[d].values, S.coords[d].values) for d in c["dims"])
                        if not ok:
                            ctx.fail("Labelled", dict(info, which=nm, got=str(x)[:400]))
            for nm, x, y in zip("STP", (S, T, P), before):
                same = x.identical(y) if hasattr(x, "dims") else np.array_equal(x, y, equal_nan=True)
                if not same:
                    ctx.fail("InputsUnmodified", dict(info, which=nm))
    wet = {}
    for ck, r in results.items():
        if ck[3] != "stab":
            wet.setdefault(ck[3], []).append(float(np.isfinite(np.asarray(r[-1][1], float)).mean()))
    ctx.note("fraction_finite", {k: round(float(np.mean(v)), 2) for k, v in wet.items()})
    ctx.validated = n
    ctx.note("calls_compared", n)
    ctx.note("calculations", WHAT + ["stab"])
