"""Published polynomials, written independently of the code under test (numpy)."""
import numpy as np


def jmd95(s, t, p):
    """Jackett & McDougall 1995, p in dbar"""
    P = p / 10.0   # bar
    fw = [999.842594, 6.793952e-02, -9.095290e-03, 1.001685e-04, -1.120083e-06, 6.536332e-09]
    sw = [[8.244930e-01, -4.089900e-03, 7.643800e-05, -8.246700e-07, 5.387500e-09], [-5.724660e-03, 1.022700e-04, -1.654600e-06], [4.831400e-04]]
    kf = [1.965933e+04, 1.444304e+02, -1.706103e+00, 9.648704e-03, -4.190253e-05]
    ks = [[5.284855e+01, -3.101089e-01, 6.283263e-03, -5.084188e-05], [3.886640e-01, 9.085835e-03, -4.619924e-04]]
    kp = [[3.186519e+00, 2.212276e-02, -2.984642e-04, 1.956415e-06], [6.704388e-03, -1.847318e-04, 2.059331e-07], [1.480266e-04],
          [2.102898e-04, -1.202016e-05, 1.394680e-07], [-2.040237e-06, 6.128773e-08, 6.207323e-10]]
    po = lambda c: sum(a * t ** i for i, a in enumerate(c))
    r0 = po(fw) + s * po(sw[0]) + s ** 1.5 * po(sw[1]) + s ** 2 * po(sw[2])
    K = po(kf) + s * po(ks[0]) + s ** 1.5 * po(ks[1]) + P * (po(kp[0]) + s * po(kp[1]) + s ** 1.5 * po(kp[2])) + P ** 2 * (po(kp[3]) + s * po(kp[4]))
    return r0 / (1 - P / K)


def jmdfwg06(s, t, p):
    """Jackett et al 2006, 25-term rational function"""
    num = (9.9984085444849347e+02 + 7.3471625860981584e+00 * t - 5.3211231792841769e-02 * t ** 2 + 3.6492439109814549e-04 * t ** 3
           + 2.5880571023991390e+00 * s - 6.7168282786692355e-03 * s * t + 1.9203202055760151e-03 * s ** 2
           + 1.1798263740430364e-02 * p + 9.8920219266399117e-08 * p * t ** 2 + 4.6996642771754730e-06 * p * s - 2.5862187075154352e-08 * p ** 2 - 3.2921414007960662e-12 * p ** 2 * t ** 2)
    den = (1 + 7.2815210113327091e-03 * t - 4.4787265461983921e-05 * t ** 2 + 3.3851002965802430e-07 * t ** 3 + 1.3651202389758572e-10 * t ** 4
           + 1.7632126669040377e-03 * s - 8.8066583251206474e-06 * s * t - 1.8832689434804897e-10 * s * t ** 3 + 5.7463776745432097e-06 * s ** 1.5 + 1.4716275472242334e-09 * s ** 1.5 * t ** 2
           + 6.7103246285651894e-06 * p - 2.4461698007024582e-17 * p ** 2 * t ** 3 - 9.1534417604289062e-18 * p ** 3 * t)
    return num / den
