"""Configurations of Omega.tla and their replay."""
import itertools

# type index: s, off, lo, hi, ml
TYPES = [
    dict(s=1, off=0, lo=3, hi=45, ml=None),      # 1 plain
    dict(s=1, off=14, lo=5, hi=50, ml=None),     # 2 deeper by 14
    dict(s=1, off=-14, lo=3, hi=40, ml=None),    # 3 shallower by 14
    dict(s=1, off=0, lo=24, hi=45, ml=None),     # 4 data starts below: 21 outcrops, 28 does not
    dict(s=1, off=0, lo=3, hi=45, ml=25),        # 5 deep mixed layer: 21 is inside it, 28 below
    dict(s=1, off=0, lo=1, hi=0, ml=None),       # 6 land
    dict(s=2, off=0, lo=3, hi=45, ml=None),      # 7.. saltier
    dict(s=0, off=7, lo=3, hi=50, ml=None),      # 8 fresher
    dict(s=3, off=3, lo=2, hi=60, ml=None),      # 9
    dict(s=1, off=0, lo=3, hi=17, ml=None),      # 10 shallow floor: 21 incrops
    # 11.. round numbers (interpolation is exact): mixed layer down to exactly 24, none, below 24
    dict(s=1, off=0, lo=0, hi=64, ml=24), dict(s=1, off=0, lo=0, hi=64, ml=None), dict(s=1, off=0, lo=0, hi=64, ml=26),
]


def types_tla():
    return "<<" + ", ".join("[s |-> %d, off |-> %d, lo |-> %d, hi |-> %d, ml |-> %s]" % (t["s"], t["off"], t["lo"], t["hi"], "NaNI" if t["ml"] is None else t["ml"]) for t in TYPES) + ">>"


def seq(x):
    return "<<" + ", ".join(seq(y) if isinstance(y, (list, tuple)) else "NaNI" if y is None else str(y) for y in x) + ">>"


def sset(xs):
    return "{" + ", ".join(seq(x) for x in xs) + "}"


def opt(start=1, stop=5, reps=99, imin=1, imax=3, tol=(0, 1), tolp2=(0, 1), stats=True):
    return "[start |-> %d, stop |-> %d, reps |-> %d, imin |-> %d, imax |-> %d, tol |-> %s, tolp2 |-> %s, stats |-> %s]" % (start, stop, reps, imin, imax, seq(tol), seq(tolp2), "TRUE" if stats else "FALSE")


def opts(*os):
    return "{" + ", ".join(os) + "}"


PATH, STAR, CYC, TRI = [[1, 2, 4], [2, 3, 4], [3, 4, 4]], [[1, 2, 4], [1, 3, 4], [4, 1, 4]], [[1, 2, 4], [2, 3, 8], [3, 4, 2], [4, 1, 4]], [[2, 1, 4], [2, 3, 4], [3, 1, 4], [3, 4, 1]]
DIS, K4 = [[1, 2, 4], [3, 4, 4]], [[1, 2, 4], [1, 3, 4], [1, 4, 2], [2, 3, 1], [2, 4, 4], [3, 4, 4]]


def configs(quick):
    com = dict(Types=types_tla())
    out = {}
    # region and wetting: equal salinities, all four nodes, pin = node 2 or 1
    kinds = [1, 2, 4, 5, 6, 10]
    tys = [[1, a, b, c] for a in (1, 4, 5, 6) for b in (1, 5, 4) for c in ((1, 4, 3) if quick else kinds)]
    inits = [[21], [21, 28, 28, 28], [21, 14, None, 28], [21, None, 28, 28], [21, 28, None, None]]
    out["region"] = dict(com, Nodes="1..4", Pin=1, Graphs=sset([PATH, CYC, TRI, STAR] if quick else [PATH, CYC, TRI, STAR, DIS, K4]), TypeSets=sset(tys), Inits=sset(inits),
                         Opts=opts(opt(), opt(start=2, stop=2)) if quick else opts(opt(), opt(start=2, stop=2), opt(start=9, stop=9), opt(reps=1), opt(start=3, stop=5, imax=4)))
    out["window"] = dict(com, Nodes="1..4", Pin=2, Graphs=sset([PATH, CYC]), TypeSets=sset([[1, 1, 2, 3], [4, 5, 1, 1], [5, 1, 5, 1], [1, 1, 6, 1], [1, 1, 4, 1]]),
                         Inits=sset([[21], [28, 21, None, 14], [28, 21, 28, None], [21, 2, 21, 21]]),
                         Opts=opts(*[opt(start=a, stop=b, reps=r) for a, b in ((1, 1), (2, 3), (3, 3), (9, 9), (1, 5)) for r in (1, 2, 99)]))
    # water that cannot be reached from the pin at all
    out["split"] = dict(com, Nodes="1..4", Pin=1, Graphs=sset([DIS, [[2, 1, 4]], [[1, 3, 4], [2, 4, 4]]] + ([] if quick else [[], [[1, 4, 1], [2, 3, 1]]])),
                        TypeSets=sset([[1, 1, 1, 1], [1, 2, 3, 1], [1, 5, 1, 4], [1, 1, 6, 1]] + ([] if quick else [[1, 4, 4, 4], [1, 10, 5, 2]])),
                        Inits=sset([[21, 28, 28, 28], [21, 14, None, 28], [21, None, 28, None], [21]]), Opts=opts(opt(imax=2), opt(imax=2, start=9, stop=9), opt(imax=2, start=2)))
    # a surface at rest, touching the mixed layer's base without being inside it
    out["rest"] = dict(com, Nodes="1..4", Pin=1, Graphs=sset([PATH, CYC, STAR]), TypeSets=sset(itertools.product((11, 12), (11, 13), (11, 12), (11, 13))),
                       Inits=sset([[24, 24, 24, 24], [24, 24, None, 24]]), Opts=opts(opt(start=9, stop=9), opt(stop=1)))
    out["pin"] = dict(com, Nodes="1..3", Pin=3, Graphs=sset([[[1, 2, 4], [2, 3, 4]], []]), TypeSets=sset([[1, 1, 1], [1, 2, 4], [1, 2, 5], [1, 1, 6], [1, 1, 10]]),
                      Inits=sset([[21], [1], [28], [60], [21, 21, None], [21, None, 28], [21, 28, 70]]), Opts=opts(opt(), opt(imax=0), opt(imax=1)))
    # the global problem: salinities differ, one iteration, weights differ
    gs = [[[1, 2, a], [2, 3, b], [3, 1, c]] for a, b, c in ((4, 4, 4), (4, 8, 2), (1, 4, 16), (8, 4, 1))] + [[[1, 2, 4], [3, 2, 8]], [[1, 3, 4], [1, 2, 4], [2, 1, 4]]]
    sal = [1, 7, 8, 9]
    out["solve3"] = dict(com, Nodes="1..3", Pin=1, Graphs=sset(gs), TypeSets=sset(list(itertools.product(sal, repeat=3))), Inits=sset([[20, 25, 16], [18]]), Opts=opts(opt(imax=1, start=9, stop=9, stats=False)))
    out["solve4"] = dict(com, Nodes="1..4", Pin=2, Graphs=sset([CYC, K4, TRI]), TypeSets=sset([t for t in itertools.product(sal, repeat=4) if len(set(t)) >= 3][::3]),
                         Inits=sset([[20, 25, 16, 24]]), Opts=opts(opt(imax=1, start=9, stop=9, stats=False)))
    # stopping
    out["stop"] = dict(com, Nodes="1..3", Pin=1, Graphs=sset([[[1, 2, 4], [2, 3, 4]]]), TypeSets=sset([[1, 1, 1], [1, 2, 3], [1, 4, 1]]), Inits=sset([[21, 28, 14], [21, 28, 28], [21]]),
                       Opts=opts(*[opt(start=9, stop=9, imin=a, imax=b, tol=t, tolp2=u) for a in (0, 1, 2, 3) for b in (1, 2, 4) for t in ((0, 1), (1, 3), (5, 1)) for u in ((0, 1), (1, 5), (60, 1))]))
    return out


# ---------------------------------------------------------------------------
import numpy as np
from vf.core import NANI


def rat(x):
    return x[0] / x[1] if x else np.nan


def columns(case, variant=0):
    """bottles of every column: constant salinity, temperature off - p, some padding NaNs"""
    N = len(case["ty"])
    nk = 5
    S, T, P = (np.full((N, nk), np.nan) for _ in range(3))
    ml = np.full(N, -np.inf)
    for n, ti in enumerate(case["ty"]):
        c = TYPES[ti - 1]
        if c["lo"] > c["hi"]:
            P[n] = 2.0 + 10 * np.arange(nk)
            if variant % 2:
                S[n, 1], T[n, 1] = 1.0, 3.0          # a single bottle is as good as land
            continue
        lo, hi = c["lo"], c["hi"]
        x = [lo, lo + 0.3 * (hi - lo), lo + 0.8 * (hi - lo), hi] if lo else [0.0, hi / 4, 3 * hi / 4, hi]
        k = (n + variant) % 3
        if (2 * n + variant) % 5 == 4:
            x = [lo, hi, hi + 3.0, hi + 6.0, hi + 9.0]; v = [1, 1, 0, 0, variant % 2]      # two bottles are enough
        elif k == 0:
            x = x + [hi + 7.0]; v = [1, 1, 1, 1, 0]
        elif k == 1:
            x = [lo - 2.0] + x; v = [0, 1, 1, 1, 1]
        else:
            x = [x[0], x[1], x[3], hi + 3.0, hi + 9.0]; v = [1, 1, 1, 0, 1]   # valid data again below a gap
        v = np.array(v, bool)
        P[n] = x
        S[n, v] = c["s"]
        T[n, v] = c["off"] - P[n, v]
        if c["ml"] is not None:
            ml[n] = c["ml"]
    return S, T, P, ml


def grid_of(case, variant=0):
    g = case["g"]
    ed = (np.array([e[0] - 1 for e in g], int), np.array([e[1] - 1 for e in g], int))
    w = np.array([e[2] for e in g], float) / 4
    grid = {"edges": ed}
    if len(g) and not np.all(w == 1.0):
        d = 1000.0 * (1 + np.arange(len(g)) % 3) if variant % 3 else 3000.0
        grid["dist"] = d
        grid["distperp"] = w * d
    elif variant % 2:
        grid["dist"] = 2000.0; grid["distperp"] = (2000.0, 500.0, 6000.0)[variant % 3]    # one ratio for all: no effect
    elif variant % 8 == 2:
        grid["distperp"] = 3.0
    return grid


def call(case, imax=None, variant=0, **over):
    from neutralocean.surface import omega_surf
    from vf.toy import eos_p8, eos_p8_s_t
    S, T, P, ml = columns(case, variant)
    op = case["op"]
    ini = case["ini"]
    p_init = float(ini[0]) if len(ini) == 1 else np.array([np.nan if x == NANI else float(x) for x in ini])
    kw = dict(ITER_MIN=op["imin"], ITER_MAX=op["imax"] if imax is None else imax, ITER_START_WETTING=op["start"], ITER_STOP_WETTING=op["stop"],
              TOL_LRPD_MAV=rat(op["tol"]), TOL_P_CHANGE_RMS=rat(op["tolp2"]) ** 0.5, TOL_P_SOLVER=1e-10, eos=(eos_p8, eos_p8_s_t), output=False)
    if np.any(np.isfinite(ml)) or variant % 3 == 1:
        kw["p_ml"] = ml
    if op["reps"] < 99:
        kw["ITER_WET_PERIM"] = op["reps"]
    kw.update(over)
    pin = over.pop("pin_cast", None) if "pin_cast" in over else None
    return omega_surf(S, T, P, grid_of(case, variant), pin_cast=kw.pop("pin_cast", pin), p_init=p_init, **kw)


def groups(cases):
    d = {}
    for c in cases:
        d.setdefault(repr((c["g"], c["ty"], c["ini"], c["op"])), []).append(c)
    return [v for _, v in sorted(d.items()) if not any(x["tie"] for x in v)]


def surf_of(h):
    return np.array([rat(x) for x in h["p"]])


def close(a, b, tol=1e-6):
    return np.allclose(a, b, rtol=0, atol=tol, equal_nan=True)


def search_config(quick):
    """states for the stand-alone searches (pin = node 1)"""
    tys = [[1, a, b, c] for a in (1, 4, 5, 6) for b in (1, 5, 2) for c in (1, 10, 3)]
    inits = [[21, None, None, None], [21, 28, None, 28], [21, None, 28, None], [21, 14, None, None], [21, None, None, 28], [21, None, 28, 14]]
    return dict(Types=types_tla(), Nodes="1..4", Pin=1, Graphs=sset([PATH, STAR, CYC, TRI, DIS] if quick else [PATH, STAR, CYC, TRI, DIS, K4, [[1, 2, 4]]]), TypeSets=sset(tys), Inits=sset(inits))
