"""Planted bugs: edits (file, old, new) and a demonstration."""
D = {}


def bug(id, property, edits, demo, needs, breaks):
    D[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


TOY = '''
import numpy as np, numba as nb, sys
@nb.njit
def rho(s, t, p):
    return 1000.0 + s * (1 + p / 8.0) - t
@nb.njit
def rho_s_t(s, t, p):
    return 1 + p / 8.0, -1.0
def bad(c, *m):
    if c:
        print("property broken:", *m); sys.exit(1)
'''

bug("c01-endpoint", "C01", [("surface/_vertsolve.py", """            lb, ub = guess_to_bounds(zero_func, pn, Pn[0], Pn[-1], args)

            if np.isfinite(lb):
""", """            lb, ub = guess_to_bounds(zero_func, pn, Pn[0], Pn[-1], args)

            if lb < ub:
""")], TOY + '''
from neutralocean.surface import potential_surf
S = np.array([[1.0, 2.0, 3.0, 4.0]]); T = np.zeros((1, 4)); P = np.array([[0.0, 10.0, 20.0, 30.0]])
s, t, p, d = potential_surf(S, T, P, ref=0.0, isoval=1001.0, eos=rho, diags=False)
bad(not abs(p[0]) < 1e-3, p)
''', "an isovalue exactly equal to the value of the shallowest (or deepest) bottle", "the surface is NaN although the isovalue is attained at the end of the valid block")

bug("c02-zero-ref", "C02", [("surface/isopycnal.py", """            if ref is None:
                ref = pin_p
            isoval""", """            if not ref:
                ref = pin_p
            isoval""")], TOY + '''
from neutralocean.surface import potential_surf
S = np.array([[1.0, 2.0, 3.0, 4.0]]); T = np.zeros((1, 4)); P = np.array([[0.0, 10.0, 20.0, 30.0]])
s, t, p, d = potential_surf(S, T, P, ref=0.0, pin_cast=0, pin_p=15.0, eos=rho, diags=False)
bad(d["ref"] != 0.0, d)
''', "a reference pressure of exactly 0 together with a pin", "the given reference pressure is replaced by the pin's pressure")

bug("c03-mean-properties", "C03", [("bfs.py", """                p0 = 0.0  # for accumulating pressures
""", """                p0 = 0.0  # for accumulating pressures
                s0 = 0.0
                t0 = 0.0
"""), ("bfs.py", """                            p0 += p_
                            denom += 1
""", """                            p0 += p_
                            s_, t_ = ppval_1_two(p_, Pm, Sppc, Tppc, 0)
                            s0 += s_
                            t0 += t_
                            denom += 1
"""), ("bfs.py", """                    s[m], t[m] = ppval_1_two(p[m], Pm, Sppc, Tppc, 0)
""", """                    s[m], t[m] = s0 / denom, t0 / denom
""")], TOY + '''
from neutralocean.surface import omega_surf
S = np.ones((4, 3)); P = np.tile([0.0, 20.0, 60.0], (4, 1))
T = np.array([[40.0, 20.0, -20.0], [30.0, 10.0, -30.0], [90.0, 50.0, 10.0], [40.0, 25.0, -60.0]])
e = (np.array([0, 1, 0, 1]), np.array([1, 2, 3, 3]))
p0 = np.array([10.0, 28.0, 50.0, np.nan])
s, t, p, d = omega_surf(S, T, P, dict(edges=e), pin_cast=0, p_init=p0, eos=(rho, rho_s_t), ITER_MAX=1, output=False, TOL_P_SOLVER=1e-9)
s, t, p, d = omega_surf(S, T, P, dict(edges=(np.array([0, 0, 1]), np.array([1, 2, 2]))), pin_cast=0, p_init=10.0, eos=(rho, rho_s_t), ITER_MAX=0, output=False, TOL_P_SOLVER=1e-9)
from neutralocean.bfs import bfs_conncomp1_wet_perim
from neutralocean.ppinterp import make_pp
from neutralocean.grid.graph import edges_to_csr
ip, ix = edges_to_csr(e, 4)
s = np.ones(4); p = p0.copy(); t = np.array([np.interp(p[i], P[i], T[i]) for i in range(4)])
s[3] = np.nan
bfs_conncomp1_wet_perim(s, t, p, ip, ix, 0, S, T, P, 1e-9, rho, make_pp("linear", kind="1", out="coeffs", nans=False), np.full(4, -np.inf), 9)
bad(not abs(t[3] - np.interp(p[3], P[3], T[3])) < 1e-6, p, t)
''', "wetting a cast through two links that land in different intervals of it", "salinity and temperature of a wetted cast are not the interpolant at its pressure")

bug("c06-uniform-ratio", "C06", [("surface/omega.py", """        fac = np.full(e.shape, distratio)
        if distratio""", """        fac = np.ones(e.shape)
        if distratio"""), ("surface/omega.py", """        if distratio != 1.0:
            e *= fac  # scale e""", """        if distratio != 1.0:
            e *= distratio  # scale e""")], TOY + '''
from neutralocean.surface import omega_surf
S = np.ones((3, 3)); P = np.tile([0.0, 20.0, 60.0], (3, 1)); T = np.array([[40.0, 20.0, -20.0], [50.0, 30.0, -10.0], [45.0, 25.0, -15.0]])
e = (np.array([0, 1]), np.array([1, 2]))
kw = dict(pin_cast=0, p_init=np.array([20.0, 20.0, 20.0]), eos=(rho, rho_s_t), ITER_MAX=1, output=False, TOL_P_SOLVER=1e-9)
p = omega_surf(S, T, P, dict(edges=e, dist=2.0, distperp=1.0), **kw)[2]
bad(not np.allclose(p, [20, 30, 25]), p)
''', "one scalar width-to-distance ratio different from one", "each iteration's perturbation is scaled by the ratio instead of being independent of it")

bug("c07-no-diags-stop", "C07", [("surface/omega.py", """        if diags or TOL_P_CHANGE_RMS > 0:
            Δp = p - p_old""", """        if diags:
            Δp = p - p_old""")], TOY + '''
from neutralocean.surface import omega_surf
rng = np.random.default_rng(1)
S = np.tile(rng.uniform(1, 3, (4, 1)), (1, 3)); P = np.tile([0.0, 20.0, 60.0], (4, 1)); T = rng.uniform(-3, 3, (4, 1)) - P
e = (np.array([0, 1, 2, 3]), np.array([1, 2, 3, 0]))
kw = dict(pin_cast=0, p_init=np.full(4, 25.0), eos=(rho, rho_s_t), ITER_MAX=6, TOL_P_CHANGE_RMS=1e-8, TOL_LRPD_MAV=0.0, output=False)
a, b = (omega_surf(S, T, P, dict(edges=e), diags=x, **kw)[2] for x in (True, False))
bad(not np.array_equal(a, b), a, b)
''', "diagnostics off together with a pressure-change tolerance", "the iterations stop at the minimum number")

bug("c08-nan-edges-weigh", "C08", [("ntp.py", """    denom = np.sum(area * np.isfinite(e))
""", """    if area.ndim == 0:
        denom = area * e.size
    else:
        denom = np.sum(area * np.isfinite(e))
"""), ("ntp.py", """    if denom == 0.0:
""", """    if denom == 0.0 or not np.isfinite(e).any():
""")], TOY + '''
from neutralocean.ntp import ntp_epsilon_errors_norms
s = np.array([1.0, 2.0, np.nan, 1.5]); t = np.array([0.0, 1.0, np.nan, 2.0]); p = np.array([8.0, 8.0, np.nan, 8.0])
e = (np.array([0, 1, 2]), np.array([1, 2, 3]))
R, M = ntp_epsilon_errors_norms(s, t, p, dict(edges=e), rho_s_t)
bad(abs(M - 1.0) > 1e-12 or abs(R - 1.0) > 1e-12, R, M)
''', "geometry given as scalars (or not at all) and a surface with dry casts", "dry edges dilute the norms")

bug("c09-narrow-search", "C09", [("traj.py", """    lb, ub = guess_to_bounds(_pot_dens_diff, pB, P[0], P[-1], args)
""", """    lb, ub = guess_to_bounds(
        _pot_dens_diff, pB, max(P[0], min(pB, P[-1]) - 2000.0), P[-1], args
    )
""")], TOY + '''
from neutralocean.traj import ntp_bottle_to_cast
P = np.array([0.0, 1000.0, 2000.0, 4000.0]); S = np.zeros(4); T = -P / 100
s, t, p = ntp_bottle_to_cast(0.0, -1.0, 3500.0, S, T, P, eos=rho)
bad(not abs(p - 100) < 1e-2, p)
s, t, p = ntp_bottle_to_cast(0.0, -1.0, 5000.0, S, T, P, eos=rho)
bad(not abs(p - 100) < 1e-2, p)
''', "a link that climbs by more than 2000 dbar (or a bottle below the deepest datum)", "existing neutral links are not found")

bug("c10-linearised", "C10", [("mixed_layer.py", """        DD = 1 / eos(S, T, ref_p) - 1 / eos(SB, TB, ref_p)
""", """        DD = 1e6 * (eos(SB, TB, ref_p) - eos(S, T, ref_p))
""")], '''
import numpy as np, sys
from neutralocean.mixed_layer import mixed_layer
from neutralocean.eos import make_eos
v = make_eos("gsw")
P = np.array([[5.0, 15.0, 50.0, 100.0, 200.0]]); T = np.array([[20.0, 19.9, 18.0, 15.0, 10.0]]); S = np.full((1, 5), 35.0)
ml = mixed_layer(S, T, P, eos="gsw", pot_dens_diff=0.5, ref_p=0.0, bottle_index=1)[0]
r = np.array([1 / v(s, t, 0.0) for s, t in zip(S[0], T[0])])
want = np.interp(r[1] + 0.5, r, P[0])
sys.exit(int(not abs(ml - want) < 1e-6))
''', "an equation of state that gives specific volume, and a density far from 1000 kg/m3", "the threshold is off by a few percent")

bug("c13-tripolar-trim", "C13", [("grid/tripolar.py", """    if np.shape(u) == (nj + 1, ni + 2):
        u = u[:-1, 1:-1]
""", """    if np.shape(u) == (nj + 1, ni + 2):
        u = u[:-1, :-2]
""")], '''
import numpy as np, sys
from neutralocean.grid.tripolar import build_grid
nj, ni = 3, 4
A = [np.arange((nj + 1) * (ni + 2), dtype=float).reshape(nj + 1, ni + 2) + 100 * k for k in range(4)]
g = build_grid((nj, ni), *A)
h = build_grid((nj, ni), *[a[:-1, 1:-1] for a in A])
sys.exit(int(not (np.array_equal(g["dist"], h["dist"]) and np.array_equal(g["distperp"], h["distperp"]))))
''', "geometry given with the halo of the mesh_mask file", "zonal geometry is attached to the neighbouring edge")

bug("c14-sorted-neighbours", "C14", [("grid/graph.py", """        n = a[i]
        indices[ctr[n]] = b[i]
        ctr[n] += 1
""", """        n = a[i]
        indices[ctr[n]] = b[i]
        if a[i] != b[i]:
            ctr[n] += 1
""")], '''
import numpy as np, sys
from neutralocean.grid.graph import edges_to_csr
ip, ix = edges_to_csr((np.array([0, 1, 1]), np.array([1, 1, 2])), 3)
sys.exit(int(sorted(ix[ip[1]:ip[2]].tolist()) != [0, 1, 1, 2]))
''', "an edge from a node to itself (a periodic direction of length one)", "a slot of the neighbour list is left uninitialised")

bug("c04-rezero", "C04", [("surface/_vertsolve.py", """        if ϕn == 0.0:
            continue""", """        if ϕn == 0.0 and tol_p == 0.0:
            continue""")], TOY + '''
from neutralocean.surface import omega_surf
rng = np.random.default_rng(0)
for k in range(20):
    P = np.tile([0.0, 10.0, 25.0, 60.0], (3, 1)); T = np.array([40.0, 30.0, 2.0, -80.0]) + rng.uniform(-4, 4, (3, 1)); S = np.tile(rng.uniform(1, 3, (3, 1)), (1, 4))
    e = (np.array([0, 1]), np.array([1, 2]))
    q = rng.uniform(5, 50)
    s, t, p, d = omega_surf(S, T, P, dict(edges=e), pin_cast=0, p_init=np.array([q, q + 1, q - 1]), eos=(rho, rho_s_t), ITER_MAX=2, output=False, TOL_P_SOLVER=2.0)
    bad(p[0] != q or not abs(t[0] - np.interp(q, P[0], T[0])) < 1e-9, s, t, p)
''', "a coarse vertical solver tolerance", "the pinning cast's salinity and temperature belong to another pressure than the pin's")

bug("c11-end-slope", "C11", [("ppinterp/pchip.py", """            elif (np.sign(δ[1]) != np.sign(δ[0])) and (
                np.abs(d[1]) > np.abs(3 * δ[1])
            ):""", """            elif (np.sign(δ[1]) != np.sign(δ[0])) and (
                np.abs(d[1]) > np.abs(3 * δ[0])
            ):""")], '''
import numpy as np, sys
from scipy.interpolate import pchip_interpolate
from neutralocean.ppinterp import make_pp
f = make_pp("pchip", kind="1", out="interp")
X = np.array([0.0, 1.0, 2.0, 4.0]); Y = np.array([0.0, 1.0, 9.0, 8.0])
x = np.linspace(2, 4, 9)
y = np.array([f(v, X, Y, 0) for v in x])
sys.exit(int(not np.allclose(y, pchip_interpolate(X, Y, x))))
''', "a turning point one datum before the end of the block", "direct pchip evaluation differs from the definition (and from the stored coefficients) in the last interval")

bug("c12-tiny-values", "C12", [("fzero.py", """        if abs(m) <= tol or fb == 0.0:
            break""", """        if abs(m) <= tol or abs(fb) <= eps * eps:
            break""")], '''
import numpy as np, numba as nb, sys
from neutralocean.fzero import brent
@nb.njit
def f(x):
    return 1e-33 * (x ** 3 - 2.0)
x = brent(f, 0.0, 3.0, 1e-6)
sys.exit(int(not abs(x - 2 ** (1 / 3)) <= 2e-6))
''', "a function whose values are all tiny", "the search stops far from the sign change")

bug("c05-stray-island", "C05", [("bfs.py", """    p[~good] = np.nan
""", """    if qT < qH:  # there is a perimeter
        p[~good] = np.nan
""")], TOY + '''
from neutralocean.surface import omega_surf
S = np.ones((4, 3)); P = np.tile([0.0, 20.0, 60.0], (4, 1)); T = np.array([[40.0, 20.0, -20.0], [50.0, 30.0, -10.0], [45.0, 25.0, -15.0], [41.0, 21.0, -21.0]])
e = (np.array([0, 2]), np.array([1, 3]))
try:
    p = omega_surf(S, T, P, dict(edges=e), pin_cast=0, p_init=np.full(4, 20.0), eos=(rho, rho_s_t), ITER_MAX=1, output=False)[2]
except Exception as ex:
    bad(True, ex)
bad(np.isfinite(p[2:]).any() or not np.isfinite(p[:2]).all(), p)
''', "water that is not connected to the pin, and a connected region without any dry neighbour, while wetting is on", "casts that are not connected to the pinning cast stay on the surface (and spoil the matrix problem)")

bug("c15-swapped-axes", "C15", [("lib.py", """        S = np.moveaxis(S, vert_dim, -1)
""", """        S = np.swapaxes(S, vert_dim, -1)
""")], TOY + '''
from neutralocean.surface import potential_surf
rng = np.random.default_rng(0)
P = np.array([0.0, 10.0, 20.0, 30.0]); T = np.zeros((3, 3, 4)); S = np.arange(1.0, 5.0) + rng.uniform(0, 0.5, (3, 3, 1)); Q = np.broadcast_to(P, S.shape)
kw = dict(ref=0.0, isoval=1002.0, eos=rho, diags=False)
a = potential_surf(S, T, Q, **kw)[2]
b = potential_surf(*(np.moveaxis(x, -1, 0).copy() for x in (S, T, Q)), vert_dim=0, **kw)[2]
c = potential_surf(*(np.moveaxis(x, -1, 1).copy() for x in (S, T, Q)), vert_dim=1, **kw)[2]
bad(not np.allclose(a, c), a, c)
bad(not np.allclose(a, b), a, b)
''', "three-dimensional data with the vertical axis first", "the horizontal dimensions come out transposed")

bug("c16-upwind", "C16", [("ntp.py", """            0.5 * (p[a_] + p[b_]),
""", """            max(p[a_], p[b_]) if a_ < b_ else 0.5 * (p[a_] + p[b_]),
""")], TOY + '''
from neutralocean.surface import omega_surf
S = np.array([[1.0], [2.0], [3.5]]) + np.zeros((3, 3)); P = np.tile([0.0, 20.0, 60.0], (3, 1)); T = np.array([[40.0, 20.0, -20.0], [50.0, 30.0, -10.0], [45.0, 25.0, -15.0]])
kw = dict(eos=(rho, rho_s_t), ITER_MAX=1, output=False, TOL_P_SOLVER=1e-9, p_init=np.array([20.0, 30.0, 24.0]), pin_cast=0)
a = omega_surf(S, T, P, dict(edges=(np.array([0, 1, 2]), np.array([1, 2, 0]))), **kw)[2]
b = omega_surf(S, T, P, dict(edges=(np.array([1, 2, 0]), np.array([0, 1, 2]))), **kw)[2]
bad(not np.allclose(a, b), a, b)
''', "a sloping surface and edges listed in the direction of increasing numbers", "reversing an edge changes the surface")

bug("c16-warm-start", "C16", [("surface/_vertsolve.py", """    for n in np.ndindex(shape2D):

        # Select this water column""", """    p_last = np.nan
    for n in np.ndindex(shape2D):

        # Select this water column"""), ("surface/_vertsolve.py", """            pn = (Pn[0] + Pn[-1]) * 0.5
""", """            pn = (Pn[0] + Pn[-1]) * 0.5
            if np.isfinite(p_last):
                pn = p_last  # neighbouring casts are usually similar
"""), ("surface/_vertsolve.py", """                p[n] = brent(zero_func, lb, ub, tol_p, args)
""", """                p[n] = brent(zero_func, lb, ub, tol_p, args)
                p_last = p[n]
""")], TOY + '''
from neutralocean.surface import potential_surf
P = np.tile([0.0, 10.0, 20.0, 30.0, 40.0], (2, 1)); T = np.zeros((2, 5)); S = np.array([[0.0, 0.1, 0.2, 0.3, 7.0], [1.0, 3.0, 0.0, 0.5, 5.0]])
kw = dict(ref=0.0, isoval=1002.0, eos=rho, diags=False)
for iso in (1002.5, 1002.0):
    kw["isoval"] = iso
    a = potential_surf(S, T, P, **kw)[2]
    b = potential_surf(S[::-1], T, P, **kw)[2][::-1]
    c = potential_surf(S[1:], T[1:], P[1:], **kw)[2]
    bad(not np.allclose(a, b, atol=1e-2, equal_nan=True) or not np.allclose(a[1:], c, atol=1e-2, equal_nan=True), iso, a, b, c)
''', "an unstable cast that attains the isovalue more than once", "which zero is found depends on the casts solved before")

bug("c17-round-gravity", "C17", [("eos/tools.py", """@ft.lru_cache(maxsize=10)
def make_bsq(""", """_bsq = dict()


def make_bsq("""), ("eos/tools.py", """    z_to_p = 1e-4 * grav * rho_c

    if""", """    z_to_p = 1e-4 * grav * rho_c

    # Keep the compiled functions
    key = (fn, round(z_to_p, 4))
    if key in _bsq:
        return _bsq[key]

    if"""), ("eos/tools.py", """    return fn_bsq


@ft""", """    _bsq[key] = fn_bsq
    return fn_bsq


@ft""")], '''
import sys
from neutralocean.eos import make_eos, make_eos_p
a = make_eos("jmd95", 9.81, 1027.5)
b = make_eos("jmd95", 9.81, 1027.502)
r = make_eos("jmd95")
z = 4000.0
x = r(35.0, 3.0, z * 1e-4 * 9.81 * 1027.502)
sys.exit(int(abs(b(35.0, 3.0, z) - x) > 1e-7 * 1e-2))
''', "two Boussinesq equations of state requested in one session whose hydrostatic factors agree to four digits", "the second request returns the first equation of state")

bug("c18-long-steps", "C18", [("label.py", """    n = int(np.ceil((P[k + 1] - p) / dp)) + 1
""", """    n = int((P[k + 1] - p) / dp) + 1
    if p < P[k + 1]:
        n = max(n, 2)
""")], TOY + '''
from neutralocean.label import veronis
@nb.njit
def q(s, t, p):
    return 1000.0 + s * s - t
@nb.njit
def qst(s, t, p):
    return s * s * s, t * 0 - 1.0
S = np.array([0.0, 3.0]); T = np.zeros(2); P = np.array([0.0, 3.0])
a = veronis(3.0, S, T, P, dp=2.0, eos=(q, qst), p0=0.0) - 1000
bad(not abs(a - 0.5 * 1.5 * (0 + 2 * 1.5**3 + 27)) < 1e-9, a)
''', "a piece of the cast that is not a whole number of steps long, with curvature", "the integration steps are longer than the given maximum")

bug("c19-min-offset", "C19", [("stability.py", """        min_dLRPDdp_1 = min_dLRPDdp[k : K - 1]
""", """        min_dLRPDdp_1 = min_dLRPDdp[: K - k - 1]
""")], TOY + '''
from neutralocean.stability import stabilize_ST
S = np.array([[np.nan, 1.0, 2.0, 3.0]]); T = np.where(np.isnan(S), np.nan, 0.0); P = np.array([[0.0, 10.0, 20.0, 30.0]])
@nb.vectorize
def r(s, t, p):
    return 1000.0 + s - t
stabilize_ST(S, T, P, r, min_dLRPDdp=np.array([0.0, 0.0, 0.3]), verbose=False)
g = np.diff(1000 + S[0] - T[0])[1:] / 10
bad(not (g >= np.array([0.0, 0.3]) - 1e-6).all(), g)
''', "a per-interval minimum and a cast whose top is missing", "the minimum gradients are applied to the wrong intervals")

bug("c19-count-top", "C19", [("stability.py", """            num_unstab += np.sum(σ1 >= σ2)
""", """            num_unstab += np.sum(~(σ1 < σ2) & np.isfinite(σ1))
""")], TOY + '''
from neutralocean.stability import count_unstable
S = np.array([[1.0, 2.0, np.nan], [2.0, 1.0, 3.0]]); P = np.tile([0.0, 1.0, 2.0], (2, 1))
bad(count_unstable(S, S * 0, P, eos=rho) != 1)
''', "a cast that ends above the deepest level", "the last bottle of every shallow cast is counted as unstable")

bug("c07-specvol-tol", "C07", [("surface/omega.py", """        TOL_LRPD_MAV = TOL_LRPD_MAV / 1000.0**2
""", """        TOL_LRPD_MAV = TOL_LRPD_MAV * eos(34.5, 3.0, 1000.0)
""")], '''
import numpy as np, sys
from neutralocean.surface import omega_surf
from neutralocean.eos import make_eos, make_eos_s_t
rng = np.random.default_rng(3)
P = np.tile(np.array([0.0, 500.0, 1000.0, 2000.0]), (5, 1)); T = np.array([20.0, 12.0, 6.0, 3.0]) + rng.uniform(-2, 2, (5, 1)); S = 35.0 + rng.uniform(-0.3, 0.3, (5, 1)) + 0 * P
e = (np.array([0, 1, 2, 3, 4]), np.array([1, 2, 3, 4, 0]))
s, t, p, d = omega_surf(S, T, P, dict(edges=e), pin_cast=0, p_init=np.full(5, 800.0), eos="gsw", ITER_MIN=1, ITER_MAX=10, TOL_LRPD_MAV=1e-3, TOL_P_CHANGE_RMS=0.0, TOL_P_SOLVER=1e-8, output=False)
x = d["ϕ_MAV"][1:]
ok = (x[:-1] >= 1e-9).all() and (x[-1] < 1e-9 or len(x) == 10)
print(x)
sys.exit(int(not ok))
''', "an equation of state giving specific volume", "the iterations stop a thousand times too early")

bug("c02-partial-ref", "C02", [("surface/isopycnal.py", """            if ref is None or any(x is None for x in ref):
                ref = (s0, t0)
""", """            if ref is None:
                ref = (s0, t0)
            elif any(x is None for x in ref):
                ref = (ref[0] or s0, ref[1] or t0)
""")], TOY + '''
from neutralocean.surface import anomaly_surf
S = np.array([[1.0, 2.0, 3.0, 4.0]]); T = np.zeros((1, 4)); P = np.array([[0.0, 10.0, 20.0, 30.0]])
d = anomaly_surf(S, T, P, ref=(9.0, None), pin_cast=0, pin_p=15.0, eos=rho, diags=False)[3]
bad(d["ref"] != (2.5, 0.0), d)
''', "an anomaly surface with one of the two reference values missing", "the documented rule (both are taken from the pin) is not followed")

bug("c09-stale-bottle", "C09", [("traj.py", """        if np.isnan(p[c]):
            # The neutral trajectory incropped or outcropped
            break
""", """        if np.isnan(p[c]):
            # The neutral trajectory incropped or outcropped
            if c + 1 < nc and K - k > 1:
                break
            s[c], t[c], p[c] = s[c - 1], t[c - 1], p[c - 1]
""")], TOY + '''
from neutralocean.traj import neutral_trajectory
S = np.zeros((3, 3)); P = np.tile([0.0, 10.0, 20.0], (3, 1)); T = -P.copy(); 
S[1] = np.nan; T[1] = np.nan
s, t, p = neutral_trajectory(S, T, P, 5.0, eos=rho)
bad(np.isfinite(p[1:]).any(), p)
''', "a trajectory that meets land", "the trajectory goes on across land")

bug("c10-shared-nan", "C10", [("mixed_layer.py", """    SB = S[..., bottle_index : bottle_index + 1]  # keep singleton trailing dim
    TB = T[..., bottle_index : bottle_index + 1]
""", """    SB = S[..., : bottle_index + 1].max(axis=-1, keepdims=True)
    TB = T[..., bottle_index : bottle_index + 1]
""")], '''
import numpy as np, sys
from neutralocean.mixed_layer import mixed_layer
from neutralocean.eos import make_eos
P = np.array([[5.0, 15.0, 50.0, 100.0, 200.0]]); T = np.array([[22.0, 20.0, 18.0, 15.0, 10.0]]); S = np.array([[35.2, 35.0, 35.0, 35.0, 35.0]])
v = make_eos("jmd95")
ml = mixed_layer(S, T, P, eos="jmd95", pot_dens_diff=0.3, ref_p=0.0, bottle_index=1)[0]
r = np.array([v(s, t, 0.0) for s, t in zip(S[0], T[0])])
sys.exit(int(not abs(ml - np.interp(r[1] + 0.3, r[1:], P[0][1:])) < 1e-6))
''', "water fresher at the reference bottle than at the very top", "the reference density is not that of the reference bottle")

bug("c06-one-way", "C06", [("surface/omega.py", """        fac = distratio[ge]
        e *= fac  # scale e
""", """        fac = distratio[ge]
        fac = np.minimum(fac, 1e3 * np.mean(fac))  # keep the matrix well conditioned
        e *= distratio[ge]  # scale e
""")], TOY + '''
from neutralocean.surface import omega_surf
N = 2001
S = np.ones((N, 3)); P = np.tile([0.0, 20.0, 60.0], (N, 1)); T = np.array([40.0, 20.0, -20.0]) + (np.arange(N) % 3)[:, None] * 5.0
e = (np.arange(N - 1), np.arange(1, N)); perp = np.ones(N - 1); perp[5] = 1e7
p = omega_surf(S, T, P, dict(edges=e, dist=np.ones(N - 1), distperp=perp), pin_cast=0, p_init=np.full(N, 20.0), eos=(rho, rho_s_t), ITER_MAX=1, output=False, TOL_P_SOLVER=1e-9)[2]
bad(not np.allclose(p, 20 + (np.arange(N) % 3) * 5.0, atol=1e-4), p[:9])
''', "an edge a thousand times wider than the average", "the link across that edge is not made neutral")

bug("c20-solver-by-name", "C20", [("surface/_vertsolve.py", """@functools.lru_cache(maxsize=10)
def _make_vertsolve(eos, ppc_fn, ans_type):
""", """_solvers = dict()


def _make_vertsolve(eos, ppc_fn, ans_type):
    # Reuse compiled solvers.  Keyed on names, so that solvers are shared by
    # functions that were made twice.
    key = (eos.__module__, eos.__name__, ppc_fn.__name__, ans_type)
    if key not in _solvers:
        _solvers[key] = _new_vertsolve(eos, ppc_fn, ans_type)
    return _solvers[key]


def _new_vertsolve(eos, ppc_fn, ans_type):
""")], """
import numpy as np, sys
from neutralocean.surface import potential_surf
P = np.array([[0.0, 500.0, 1000.0, 2000.0]]); T = np.array([[20.0, 12.0, 6.0, 2.0]]); S = np.full((1, 4), 35.0)
f = lambda g, r: potential_surf(S, T, P, ref=1500.0, isoval=v, eos="jmd95", grav=g, rho_c=r, diags=False)[2][0]
from neutralocean.eos import make_eos
v = make_eos("jmd95", 9.8, 1030.0)(35.0, 8.0, 1500.0)
a = f(9.8, 1030.0)
b = f(4.9, 1030.0)       # same equation of state, other gravity: at 1500 m the water is much lighter
sys.exit(int(a == b))
""", "two calls in one process with the same equation of state and different Boussinesq constants", "the second call is solved with the first call's equation of state")

bug("c20-scratch-errors", "C20", [("ntp.py", """@nb.njit
def _ntp_epsilon_error1(s, t, p, a, b, eos_s_t):
    e = np.empty(len(a), dtype=s.dtype)
""", """_workspace = dict()


def _ntp_epsilon_error1(s, t, p, a, b, eos_s_t):
    # Reuse the workspace, since this is called once per iteration
    if len(a) not in _workspace or _workspace[len(a)].dtype != s.dtype:
        _workspace[len(a)] = np.empty(len(a), dtype=s.dtype)
    return _ntp_epsilon_error1_(s, t, p, a, b, eos_s_t, _workspace[len(a)])


@nb.njit
def _ntp_epsilon_error1_(s, t, p, a, b, eos_s_t, e):
"""), ("ntp.py", """        e = e / dist
""", """        np.divide(e, dist, out=e)
""")], TOY + """
from neutralocean.ntp import ntp_epsilon_errors
g = dict(edges=(np.array([0, 1]), np.array([1, 2])))
s = np.array([1.0, 2.0, 4.0]); t = np.zeros(3); p = np.zeros(3)
e = ntp_epsilon_errors(s, t, p, g, rho_s_t)
was = e.copy()
ntp_epsilon_errors(2 * s, t, p, g, rho_s_t)
bad(not np.array_equal(e, was), e, was)
""", "keeping the errors of one surface while calculating those of another on a grid with as many edges", "the errors returned by the first call are overwritten by the second")

bug("c20-stale-grid", "C20", [("surface/omega.py", """def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
""", """_ratios = dict()


def _distratio(grid):
    # Ratio of edge lengths, kept for the next surface on the same grid
    key = id(grid["edges"][0])
    if key not in _ratios:
        _ratios[key] = (
            grid["edges"][0],
            np.asarray(grid.get("distperp", 1.0)) / np.asarray(grid.get("dist", 1.0)),
        )
    return _ratios[key][1]


def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
"""), ("surface/omega.py", """    distratio = np.asarray(grid.get("distperp", 1.0)) / np.asarray(
        grid.get("dist", 1.0)
    )
""", """    distratio = _distratio(grid)
""")], TOY + """
from neutralocean.surface import omega_surf
from neutralocean.grid.rectilinear import build_grid
rng = np.random.default_rng(0)
S = 1.0 + 0.1 * rng.random((3, 3, 1)) * np.ones(5); P = np.broadcast_to(np.arange(5) * 10.0, (3, 3, 5)).copy(); T = 40.0 - P + 5 * rng.random((3, 3, 1))
def f(g):
    return omega_surf(S, T, P, g, pin_cast=(0, 0), p_init=15.0, eos=(rho, rho_s_t), ITER_MAX=1, output=False)[2]
g = build_grid((3, 3), (False, False)); n = len(g["edges"][0])
g["dist"] = np.ones(n); g["distperp"] = np.ones(n); f(g)
g["dist"] = np.linspace(1, 9, n); a = f(g)
h = build_grid((3, 3), (False, False)); h["dist"] = np.linspace(1, 9, n); h["distperp"] = np.ones(n); b = f(h)
bad(not np.allclose(a, b, atol=1e-9, equal_nan=True), np.abs(a - b).max())
""", "a grid whose edge lengths are changed between two calls", "the second surface is weighted by the lengths of the first call")

bug("c20-eos-by-source", "C20", [("eos/tools.py", """@ft.lru_cache(maxsize=10)
def vectorize_eos(eos):
""", """_vectorized = dict()


def vectorize_eos(eos):
"""), ("eos/tools.py", """    @nb.vectorize
    def eos_vec(s, t, p):
        return eos(s, t, p)

    return eos_vec
""", """    key = getattr(eos, "py_func", eos).__qualname__
    if key not in _vectorized:

        @nb.vectorize
        def eos_vec(s, t, p):
            return eos(s, t, p)

        _vectorized[key] = eos_vec

    return _vectorized[key]
""")], """
import numpy as np, sys
from neutralocean.mixed_layer import mixed_layer
P = np.array([[0.0, 100.0, 1000.0, 3000.0]]); T = np.array([[14.0, 13.0, 10.0, 2.0]]); S = np.full((1, 4), 35.0)
from neutralocean.eos import make_eos
kw = dict(pot_dens_diff=0.6, ref_p=1000.0, bottle_index=0)
a = mixed_layer(S, T, P, eos=make_eos("jmd95", 9.81, 1027.0), **kw)[0]
b = mixed_layer(S, T, P, eos=make_eos("jmd95", 40.0, 1027.0), **kw)[0]
sys.exit(int(a == b))
""", "two mixed layers in one process with different Boussinesq constants", "the second mixed layer is found with the first call's equation of state")

OMEGA3 = """
from neutralocean.surface import omega_surf
from neutralocean.grid.rectilinear import build_grid
rng = np.random.default_rng(3)
S = 1.0 + 0.1 * rng.random((2, 6, 1)) * np.ones(5); P = np.broadcast_to(np.arange(5) * 10.0, (2, 6, 5)).copy(); T = 40.0 - P + 5 * rng.random((2, 6, 1))
kw = dict(pin_cast=(0, 0), eos=(rho, rho_s_t), ITER_MAX=2, output=False)
g = build_grid((2, 6), (False, False))
"""
bug("c21-reshaped-init", "C21", [("surface/omega.py", """        if p_init.shape != surf_shape:
""", """        if p_init.size != N:
""")], TOY + OMEGA3 + """
p0 = 15.0 + np.arange(12.0).reshape(6, 2)       # the axes the wrong way round
try:
    omega_surf(S, T, P, g, p_init=p0, **kw)
except Exception:
    sys.exit(0)
bad(True, "an initial surface of shape (6, 2) was accepted for an ocean of shape (2, 6)")
""", "an initial surface whose horizontal axes are swapped", "the transposed surface is silently used as if it were reshaped")

bug("c21-empty-ml", "C21", [("surface/omega.py", """    if p_ml is None:
        # Prepare""", """    if p_ml is None or isinstance(p_ml, dict):
        # Prepare"""), ("surface/omega.py", """    if isinstance(p_ml, dict):
""", """    if isinstance(p_ml, dict) and p_ml:
""")], TOY + OMEGA3 + """
S = np.ones((2, 6, 5)); T = 40.0 - P; T[0, 3] = [28.01, 28.005, 27.99, 20.0, 10.0]
a = omega_surf(S, T, P, g, p_init=12.0, p_ml={}, **kw)[2]       # column (0, 3) is within the mixed layer
bad(np.isfinite(a[0, 3]) or not np.isfinite(a[0, 0]), a)
""", "the mixed layer asked for with all its default parameters, p_ml = {}", "the mixed layer is not removed")

bug("c21-half-bsq", "C21", [("eos/tools.py", """    if grav != None and rho_c != None:
        fn = make_bsq(fn, grav, rho_c, num_p_derivs)
""", """    if rho_c != None:
        fn = make_bsq(fn, 9.81 if grav is None else grav, rho_c, num_p_derivs)
""")], """
import sys
from neutralocean.eos import make_eos
sys.exit(int(make_eos("jmd95", None, 1027.0)(35.0, 5.0, 2000.0) != make_eos("jmd95")(35.0, 5.0, 2000.0)))
""", "a Boussinesq reference density without gravitational acceleration", "the equation of state is made Boussinesq although only one constant is given")

bug("c21-derivative-constants", "C21", [("lib.py", """            eos_s_t = make_eos_s_t(eos, grav, rho_c)
""", """            eos_s_t = make_eos_s_t(eos, grav)
""")], """
import numpy as np, sys
from neutralocean.surface import potential_surf
from neutralocean.eos import make_eos, make_eos_s_t
P = np.tile([0.0, 500.0, 1000.0, 2000.0], (2, 1)); T = np.array([[20.0, 12.0, 6.0, 2.0], [18.0, 11.0, 5.5, 2.0]]); S = np.full((2, 4), 35.0)
f = lambda **k: potential_surf(S, T, P, grid=dict(edges=(np.array([0]), np.array([1]))), pin_cast=0, pin_p=700.0, output=False, **k)[3]["e_RMS"]
a = f(eos="jmd95", grav=9.81, rho_c=1500.0)
b = f(eos=(make_eos("jmd95", 9.81, 1500.0), make_eos_s_t("jmd95", 9.81, 1500.0)))
sys.exit(int(not abs(a - b) <= 1e-9 * abs(b)))
""", "a Boussinesq ocean whose equation of state is named", "the neutrality errors are those of the non-Boussinesq equation of state")

bug("c22-bottom-up", "C22", [("lib.py", """            a1 = a[i, :, k]
            for j in range(J):
""", """            a1 = a[i, :, k]
            if not np.isnan(a1[J - 1]):
                continue  # nothing is missing
            for j in range(J):
""")], """
import numpy as np, sys
from neutralocean.lib import find_first_nan
a = np.array([[1.0, np.nan, 3.0, 4.0], [1.0, 2.0, np.nan, np.nan]])
sys.exit(int(list(find_first_nan(a)) != [1, 2]))
""", "a gap in the middle of a line whose last element is valid", "the first NaN is not found")

bug("c22-view", "C22", [("lib.py", """    # Set to NaN any place where k is negative
    Tk[k < 0] = np.nan
""", """    # Set to NaN any place where k is negative
    if T.ndim == 1:
        Tk = np.where(k < T.size, Tk, np.nan)
    else:
        Tk[k < 0] = np.nan
""")], """
import numpy as np, sys
from neutralocean.lib import val_at
Z = np.array([0.0, 10.0, 20.0])
z = val_at(Z, np.array([[2, -1], [0, 1]]))
sys.exit(int(not np.array_equal(z, [[20.0, np.nan], [0.0, 10.0]], equal_nan=True)))
""", "levels common to all columns, and a column of land", "land is given the deepest level of all")

bug("c23-small-steps", "C23", [("surface/_vertsolve.py", """        if ϕn == 0.0:
            continue""", """        if abs(ϕn) < 1e-10:
            continue""")], TOY + '''
from neutralocean.surface import omega_surf
from neutralocean.traj import neutral_trajectory
P = np.tile(np.array([0.0, 300.0, 600.0, 1000.0, 1500.0]), (5, 1))
x = np.linspace(0, 1, 5)[:, None]
T = 20 * np.exp(-P / 700) + 3 * x; S = 35.0 - P / 3000 + 0.3 * x
grid = dict(edges=(np.arange(4), np.arange(1, 5)))
p = omega_surf(S, T, P, grid, pin_cast=0, p_init=np.full(5, 700.0), ITER_MAX=40, TOL_LRPD_MAV=0.0, TOL_P_SOLVER=1e-8, output=False)[2]
q = neutral_trajectory(S, T, P, 700.0, tol_p=1e-8)[2]
bad(not np.allclose(p, q, rtol=0, atol=0.02), p, q)
''', "an equation of state for specific volume, whose perturbations are small numbers", "the surface stays where it is although it is not neutral")

bug("c24-uniform-salt", "C24", [("synthocean.py", """        Ss = np.tile(Ss, (ni, 1, 1))  # no helicity
    else:
        # add some east-west structure (this adds helicity)
        Ss = Ss + (0.4 + 0.5 * X - 0.8 * X ** 2)
""", """        Ss = np.tile(Ss, (ni, 1, 1))  # no helicity
    else:
        # add some east-west structure (this adds helicity)
        Ss = Ss + (0.4 + 0.5 * X - 0.8 * X ** 2)
    if not wrap[0] and not wrap[1]:
        Ss = Ss + 0.02 * X * zonally_uniform
""")], """
import numpy as np, sys
from neutralocean.synthocean import synthocean
S, T, P, g = synthocean((6, 5, 4), zonally_uniform=True)
sys.exit(int(not np.array_equal(S[1], S[4], equal_nan=True)))
""", "a zonally uniform ocean in a closed basin", "salinity varies with longitude")

bug("c24-anomaly-wall", "C24", [("synthocean.py", """    Ss = Ss + np.linspace(SSSSa, 0, nj).reshape((1, nj, 1))
""", """    j0 = 0 if wrap[1] else 1  # the wall carries no water
    Ss = Ss + np.concatenate(([SSSSa] * j0, np.linspace(SSSSa, 0, nj - j0))).reshape((1, nj, 1))
""")], """
import numpy as np, sys
from neutralocean.synthocean import synthocean
a, b = (synthocean((3, 6, 4), SSSSa=x)[0][1, :, 0] for x in (0.5, 0.0))
sys.exit(int(not np.allclose((a - b)[1:], 0.5 * np.linspace(1, 0, 6)[1:], atol=1e-9)))
""", "an ocean closed in the south, with a salinity anomaly", "the anomaly is not linear between the southernmost and northernmost grid cells")

bug("c25-sigma", "C25", [("mixed_layer.py", """    if eos(34.5, 3, 1000) > 1:  # eos computes in-situ density
""", """    if eos(34.5, 3, 1000) > 500:  # eos computes in-situ density
""")], TOY + """
from neutralocean.mixed_layer import mixed_layer
@nb.njit
def sigma(s, t, p):
    return s * (1 + p / 1e4) - 0.2 * t
@nb.njit
def dens(s, t, p):
    return 1000.0 + s * (1 + p / 1e4) - 0.2 * t
P = np.array([0.0, 50.0, 100.0, 200.0, 400.0]); S = np.full(5, 35.0); T = 20.0 - P / 40
a, b = (mixed_layer(S, T, P, f, pot_dens_diff=0.3) for f in (sigma, dens))
bad(not abs(a - b) < 1e-6, a, b)
""", "an equation of state for density minus 1000", "the mixed layer of the reciprocal of the density anomaly is found")

bug("c25-flat-slopes", "C25", [("ppinterp/pchip.py", """            if np.sign(δ[i - 1]) * np.sign(δ[i]) > 0:
""", """            if δ[i - 1] * δ[i] > 1e-15:
"""), ("ppinterp/pchip.py", """            if np.sign(δ[1]) * np.sign(δ[2]) > 0.0:
""", """            if δ[1] * δ[2] > 1e-15:
"""), ("ppinterp/pchip.py", """            if np.sign(δ[0]) * np.sign(δ[1]) > 0.0:
""", """            if δ[0] * δ[1] > 1e-15:
"""), ("ppinterp/pchip.py", """                if np.sign(δ[j]) * np.sign(δ[j + 1]) > 0.0:
""", """                if δ[j] * δ[j + 1] > 1e-15:
""")], """
import numpy as np, sys
from neutralocean.ppinterp import make_pp
f = make_pp("pchip", kind="u", out="interp")
X = np.array([0.0, 100.0, 300.0, 700.0, 1500.0]); Y = np.array([35.0, 34.9, 34.85, 34.8, 34.79])
a, b = f(400.0, X, Y, 0), f(4e6, 1e4 * X, Y, 0)
sys.exit(int(not abs(a - b) < 1e-9))
""", "pressures in pascals", "gentle slopes are taken for level ones by the PCHIP interpolant")

bug("c25-no-mixed-layer", "C25", [("surface/omega.py", """        p_ml = np.full(surf_shape, -np.inf)
""", """        p_ml = np.zeros(surf_shape)
""")], TOY + OMEGA3 + """
a = omega_surf(S, T, P, g, p_init=12.0, **kw)[2]
@nb.njit
def rho2(s, t, p):
    return 1000.0 + s * (1 + (p + 100.0) / 8.0) - t
@nb.njit
def rho2_s_t(s, t, p):
    return 1 + (p + 100.0) / 8.0, -1.0
kw["eos"] = rho2, rho2_s_t
b = omega_surf(S, T, P - 100.0, g, p_init=-88.0, **kw)[2]
bad(not np.allclose(a, b + 100.0, atol=1e-2), a, b)
""", "depths counted from a level below the surface, and no mixed layer given", "water above the zero of the depths is removed as if it were a mixed layer")

bug("c19-halfway", "C19", [("stability.py", """            if res.success:
""", """            if res.success or res.status == 9:  # 9: iteration limit reached
""")], """
import numpy as np, sys
from neutralocean.stability import stabilize_ST
from neutralocean.eos import make_eos, vectorize_eos
eos = vectorize_eos(make_eos("jmd95"))
for seed in range(12):
    rng = np.random.default_rng(seed)
    P = np.linspace(5, 2000, 8)
    S = 34.5 + 0.3 * np.arange(8) / 8 + rng.normal(0, 0.3, 8); T = 20 * np.exp(-P / 500) + rng.normal(0, 1, 8)
    S0, T0 = S.copy(), T.copy()
    try:
        stabilize_ST(S, T, P, eos, verbose=False, options={"maxiter": 2})
    except RuntimeError:
        continue
    pa = (P[1:] + P[:-1]) / 2
    g = (eos(S[1:], T[1:], pa) - eos(S[:-1], T[:-1], pa)) / np.diff(P)
    if np.any(g < 1e-6 - 1e-8):
        print("left unstable", g); sys.exit(1)
""", "an iteration limit that a cast does not meet", "the cast is changed, still unstable, and nothing is raised")

bug("c19-light-salt", "C19", [("stability.py", """        out[0:n] *= w
""", """        out[0:n] *= max(w, 1.0)  # keep the problem well scaled
""")], """
import numpy as np, sys
from neutralocean.stability import stabilize_ST
def rho(s, t, p):
    return 1000.0 + s * (1 + p / 8.0) - t
S = np.array([1.0, 1.0]); T = np.array([1.0, 3.0]); P = np.array([0.0, 8.0])
stabilize_ST(S, T, P, rho, verbose=False, min_dLRPDdp=0.0, weight=0.1)
A, w, d = 1.5, 0.1, 2.0
dS, dT = d * A / (2 * (A * A + w)), d * w / (2 * (A * A + w))
if not np.allclose([S[1] - 1, 3 - T[1]], [dS, dT], atol=1e-3):
    print("not the smallest change", S, T, dS, dT); sys.exit(1)
""", "a weight below one", "salinity is changed too little and temperature too much")

bug("c22-take-missing", "C22", [("lib.py", """        if idx[i] >= 0:
            b[i] = a_[idx[i]]
""", """        if idx[i] >= 0 and a_[idx[i]] == a_[idx[i]]:
            b[i] = a_[idx[i]]
""")], """
import numpy as np, sys
from neutralocean.lib import take_fill
b = take_fill(np.array([1.0, np.nan, 3.0]), np.array([2, 1, -1, 0]), -9.0)
sys.exit(int(not np.array_equal(b, [3.0, np.nan, -9.0, 1.0], equal_nan=True)))
""", "missing data in the array and a filler that is not NaN", "missing data come out as the filler")

bug("c15-square-profile", "C15", [("lib.py", """    if P.ndim < S.ndim:
""", """    if P.ndim == 1 and P.size == S.shape[-1]:
        P = np.broadcast_to(P, S.shape)
    elif P.ndim < S.ndim:
""")], """
import numpy as np, sys
from neutralocean.surface import potential_surf
P = np.arange(4) * 100.0
S = np.full((4, 4), 35.0); T = 20.0 - P[:, None] / 25 - np.arange(4)     # levels first, as many casts as levels
kw = dict(ref=0.0, isoval=1026.0, eos="jmd95", output=False, diags=False)
a = potential_surf(S, T, P, vert_dim=0, **kw)[2]
b = potential_surf(S.T.copy(), T.T.copy(), P, **kw)[2]
sys.exit(int(not np.array_equal(a, b, equal_nan=True)))
""", "the vertical axis first, a shared pressure profile, as many casts as levels", "the profile is laid along the casts")

bug("c05-resting-ml", "C05", [("surface/omega.py", """            p[p < p_ml] = np.nan
""", """            p[p <= p_ml] = np.nan
""")], TOY + """
from neutralocean.surface import omega_surf
from neutralocean.grid.rectilinear import build_grid
P = np.broadcast_to(np.arange(5) * 8.0, (2, 4, 5)).copy(); S = np.full((2, 4, 5), 2.0); T = 40.0 - P
kw = dict(pin_cast=(0, 0), eos=(rho, rho_s_t), ITER_MAX=4, ITER_MIN=4, output=False, p_init=np.full((2, 4), 16.0))
ml = np.zeros((2, 4)); ml[1, 2:] = 16.0                  # the surface rests on the base of the mixed layer here
p = omega_surf(S, T, P, build_grid((2, 4), (False, False)), p_ml=ml, **kw)[2]
bad(not np.allclose(p, 16.0, atol=1e-3), p)
""", "a surface lying exactly at the base of the mixed layer", "casts where the surface is not above the base of the mixed layer are removed")

bug("c08-small-areas", "C08", [("ntp.py", "    if denom == 0.0:\n", "    if denom <= 1e-3:\n")], TOY + '''
from neutralocean.ntp import ntp_epsilon_errors_norms
s = np.array([1.0, 2.0, 4.0]); t = np.zeros(3); p = np.zeros(3)
ed = (np.array([0, 1]), np.array([1, 2])); u = 1 / 64.0
a = ntp_epsilon_errors_norms(s, t, p, dict(edges=ed, dist=np.ones(2), distperp=np.ones(2)), rho_s_t)
b = ntp_epsilon_errors_norms(s, t, p, dict(edges=ed, dist=np.full(2, u), distperp=np.full(2, u)), rho_s_t)
bad(not np.allclose(np.array(a) / u, b), a, b)
''', "distances in units that make the total area small", "the norms are zero although the surface has errors")

bug("c21-ml-interp", "C21", [("surface/omega.py", """        p_ml = mixed_layer(S, T, P, eos, **p_ml)
""", """        p_ml = mixed_layer(S, T, P, eos, **{"interp": interp, **p_ml})
""")], """
import numpy as np, sys
from neutralocean.surface import omega_surf
from neutralocean.mixed_layer import mixed_layer
from neutralocean.grid.rectilinear import build_grid
from neutralocean.eos.tools import make_eos
P = np.broadcast_to(np.array([0.0, 50.0, 200.0, 700.0, 1500.0]), (3, 3, 5)).copy()
S = np.full((3, 3, 5), 35.0); T = np.broadcast_to(np.array([20.0, 19.9, 12.0, 6.0, 3.0]), (3, 3, 5)).copy()
T[1, 2, 1:] -= 0.1 * np.arange(4)
par = dict(pot_dens_diff=1.0, ref_p=0.0, bottle_index=0)
ml = mixed_layer(S, T, P, make_eos("jmd95"), **par)
mh = mixed_layer(S, T, P, make_eos("jmd95"), interp="pchip", **par)
pin = float((ml[0, 0] + mh[0, 0]) / 2)
kw = dict(pin_cast=(0, 0), pin_p=pin, eos="jmd95", interp="pchip", output=False, diags=False, ITER_MAX=2)
kw["p_init"] = np.full((3, 3), pin)
g = build_grid((3, 3), (False, False))
a = omega_surf(S, T, P, g, p_ml=par, **kw)[2]
b = omega_surf(S, T, P, g, p_ml=ml, **kw)[2]
sys.exit(int(not np.array_equal(a, b, equal_nan=True)))
""", "mixed layer parameters without an interpolant, and a surface with another interpolant than the default", "the mixed layer is computed with the surface's interpolant instead of the documented default")

bug("c15-remember-interp", "C15", [("surface/omega.py", """        p_ml = mixed_layer(S, T, P, eos, **p_ml)
""", """        p_ml.setdefault("interp", "linear")
        p_ml = mixed_layer(S, T, P, eos, **p_ml)
""")], TOY + '''
from neutralocean.surface import omega_surf
from neutralocean.grid.rectilinear import build_grid
P = np.broadcast_to(np.arange(5) * 8.0, (2, 3, 5)).copy(); S = np.full((2, 3, 5), 2.0); T = 40.0 - P
par = dict(pot_dens_diff=1.0, ref_p=0.0)
omega_surf(S, T, P, build_grid((2, 3), (False, False)), pin_cast=(0, 0), p_init=20.0, eos=(rho, rho_s_t), p_ml=par, output=False)
bad(par != dict(pot_dens_diff=1.0, ref_p=0.0), par)
''', "mixed layer parameters that the caller keeps", "the caller's dict of mixed layer parameters is changed by the call")

bug("c26-steep-links", "C26", [("traj.py", """    lb, ub = guess_to_bounds(_pot_dens_diff, pB, P[0], P[-1], args)
""", """    # a neutral link never spans more than three quarters of a cast
    w = 0.75 * (P[-1] - P[0])
    lb, ub = guess_to_bounds(
        _pot_dens_diff, pB, max(P[0], pB - w), min(P[-1], pB + w), args
    )
""")], """
import numpy as np, numba as nb, sys
from neutralocean.traj import neutral_trajectory
@nb.njit
def rho(s, t, p):
    return 1000.0 + s - t
P = np.broadcast_to(np.arange(5) * 8.0, (2, 5)).copy(); S = np.full((2, 5), 2.0); T = 40.0 - P
T[1] += 26.0
p = neutral_trajectory(S, T, P, 4.0, eos=rho)[2]
sys.exit(int(not abs(p[1] - 30.0) < 1e-3))
""", "adjacent casts between which the surface moves by more than three quarters of the water column", "the link is not found although the water is there")

bug("c02-zero-refst", "C02", [("surface/isopycnal.py", """            if ref is None or any(x is None for x in ref):
                ref = (s0, t0)""", """            if ref is None or not all(ref):
                ref = (s0, t0)""")], TOY + '''
from neutralocean.surface import anomaly_surf
P = np.broadcast_to(np.arange(5) * 8.0, (2, 5)).copy(); S = np.full((2, 5), 2.0); T = 40.0 - P
d = anomaly_surf(S, T, P, ref=(2.0, 0.0), pin_cast=0, pin_p=12.0, eos=rho, diags=False, output=False)[3]
bad(tuple(float(x) for x in d["ref"]) != (2.0, 0.0), d)
''', "a reference salinity or temperature that is exactly zero", "the given reference is taken to be missing, and replaced")

bug("c05-two-bottles", "C05", [("bfs.py", """                    if K - k <= 1:
                        # At most 1 valid""", """                    if K - k <= 2:
                        # At most 1 valid""")], TOY + '''
from neutralocean.bfs import bfs_conncomp1_wet
from neutralocean.grid.graph import edges_to_csr
from neutralocean.ppinterp import make_pp
P = np.broadcast_to(np.arange(5) * 8.0, (3, 5)).copy(); S = np.full((3, 5), 2.0); T = 40.0 - P
for X in (S, T, P):
    X[2, 2:] = np.nan
s = np.array([2.0, np.nan, np.nan]); t = np.array([36.0, np.nan, np.nan]); p = np.array([4.0, np.nan, np.nan])
ip, ix = edges_to_csr((np.array([0, 1]), np.array([1, 2])), 3)[:2]
bfs_conncomp1_wet(s, t, p, ip, ix, 0, S, T, P, 1e-7, rho, make_pp("linear", kind="1", out="coeffs", nans=False), np.full(3, -np.inf))
bad(not np.isfinite(p).all(), p)
''', "a cast with exactly two valid bottles next to the surface, and not on it yet", "the surface never grows onto it")

bug("c20-grid-cache", "C20", [("grid/rectilinear.py", """def _build_edges(dims, periodic):
""", """_edges_of = {}


def _build_edges(dims, periodic):
    key = tuple(dims), tuple(bool(x) for x in periodic)
    if key not in _edges_of:
        _edges_of[key] = _make_edges(dims, periodic)
    return _edges_of[key]


def _make_edges(dims, periodic):
""")], """
import numpy as np, sys
from neutralocean.grid.rectilinear import build_grid
g = build_grid((3, 4), (False, True))
want = [x.copy() for x in g["edges"]]
for x in g["edges"]:
    x += 7
h = build_grid((3, 4), (False, True))
sys.exit(int(not all(np.array_equal(x, y) for x, y in zip(want, h["edges"]))))
""", "a caller renumbers the edges of a grid it built, and builds the same grid again", "the second grid has the edges the caller has changed")

bug("c22-missing-sum", "C22", [("lib.py", """    b = np.zeros(n, dtype=a.dtype)
    for i in range(len(idx)):
        if idx[i] >= 0""", """    b = np.zeros(n, dtype=a.dtype)
    for i in range(len(idx)):
        if a[i] == a[i] and idx[i] >= 0""")], """
import numpy as np, sys
from neutralocean.lib import aggsum
b = aggsum(np.array([1.0, np.nan, 2.0, 4.0]), np.array([0, 1, 1, 0]), 2)
sys.exit(int(not (b[0] == 5.0 and np.isnan(b[1]))))
""", "missing data among the values to be summed", "the sum of a group with missing data looks like a number")
