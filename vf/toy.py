"""Toy equations of state (numba), in the closed forms the specifications use."""
import numba as nb


@nb.njit
def eos_p8(s, t, p):          # Isopycnal.tla, Neutral.tla: rho = 1000 + s (1 + p/8) - t
    return 1000.0 + s * (1.0 + p * 0.125) - t


@nb.njit
def eos_p8_s_t(s, t, p):
    return 1.0 + p * 0.125 + 0.0 * s, -1.0 + 0.0 * s


@nb.njit
def eos_lin(s, t, p):         # rho = 1000 + s - t
    return 1000.0 + s - t


@nb.njit
def eos_lin_s_t(s, t, p):
    return 1.0 + 0.0 * s, -1.0 + 0.0 * s


@nb.njit
def eos_inv(s, t, p):         # specific volume of eos_lin
    return 1.0 / (1000.0 + s - t)


@nb.njit
def eps_s_t(s, t, p):         # Epsilon.tla
    return 1.0 + p * 0.125 + s * s * 0.25 + t * 0.0625, -1.0 - t * 0.5 - s * p * 0.03125


@nb.njit
def eos_p8_inv(s, t, p):      # the same as specific volume
    return 1.0 / (1000.0 + s * (1.0 + p * 0.125) - t)


@nb.njit
def eos_p800(s, t, p):        # eos_p8 with pressure in other units
    return 1000.0 + s * (1.0 + p * 0.00125) - t


@nb.njit
def eos_q(s, t, p):           # rho = 1000 + s (1 + p^2/64) - t: the trapezoidal rule is not exact
    return 1000.0 + s * (1.0 + p * p * 0.015625) - t


@nb.njit
def eos_q_s_t(s, t, p):
    return 1.0 + p * p * 0.015625 + 0.0 * s, -1.0 + 0.0 * s


@nb.njit
def eos_comp(s, t, p):        # OneSurface.tla: density that feels pressure, but alike for all water
    return 1000.0 + s - t + 0.0045 * p - 1e-7 * p * p


@nb.njit
def eos_inv_s_t(s, t, p):
    v = 1.0 / (1000.0 + s - t)
    return -v * v, v * v


@nb.njit
def eos_quad(s, t, p):        # cabbeling: 1000 + s - t - t^2 / 16
    return 1000.0 + s - t - t * t * 0.0625


@nb.njit
def eos_quad_s_t(s, t, p):
    return 1.0 + 0.0 * s, -1.0 - 0.125 * t
