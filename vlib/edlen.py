"""Independent reference of the NIST modified Edlen equation.

Written from the NIST Engineering Metrology Toolbox documentation
(appendix A): lengths in Angstrom, temperature in Kelvin, pressure in Pa,
relative humidity in per cent.  Plain floats, scalar only.
"""
import math


def svp(T):
    """Saturation vapour pressure over water, Pa (IAPWS), T in K."""
    k = (
        0.0,
        1.16705214528e3,
        -7.24213167032e5,
        -1.70738469401e1,
        1.20208247025e4,
        -3.23255503223e6,
        1.49151086135e1,
        -4.82326573616e3,
        4.05113405421e5,
        -2.38555575678e-1,
        6.50175348448e2,
    )
    om = T + k[9] / (T - k[10])
    a = om * om + k[1] * om + k[2]
    b = k[3] * om * om + k[4] * om + k[5]
    c = k[6] * om * om + k[7] * om + k[8]
    x = -b + math.sqrt(b * b - 4.0 * a * c)
    return 1e6 * (2.0 * c / x) ** 4


def index(wave, T, p, rh):
    """Refractive index of air at the (vacuum) wavelength."""
    t = T - 273.15
    s = (1e4 / wave) ** 2
    ns1 = 1e-8 * (8342.54 + 2406147.0 / (130.0 - s) + 15998.0 / (38.9 - s))
    x = (1.0 + 1e-8 * (0.601 - 0.00972 * t) * p) / (1.0 + 0.003661 * t)
    pv = rh / 100.0 * svp(T)
    return (
        1.0
        + p * ns1 * x / 96095.43
        - 1e-10 * (292.75 / T) * (3.7345 - 0.0401 * s) * pv
    )


def vac_to_air(wave, T=273.15, p=101325.0, rh=0.0):
    return wave / index(wave, T, p, rh)


def air_to_vac(wave, T=273.15, p=101325.0, rh=0.0):
    """Inverse of vac_to_air, to convergence."""
    v = wave
    for _ in range(6):
        v = wave * index(v, T, p, rh)
    return v
