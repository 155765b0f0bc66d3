"""Reference definitions of the quantities of one cell, written from the documentation and
the publications it names.  Interpreted, never imported, by the analysis."""
import numpy as np


# ------------------------------------------------------------------ humidity
def svp(t):
    """Saturation vapour pressure in Pa (Shuttleworth), corrected below freezing."""
    e = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return np.where(t < 0, e * (1 + 0.00972 * t + 0.000042 * t * t), e)


def svp_kpa(t):
    return svp(t) / 1000


def air_pressure(t, elev, lapse):
    """Sub-daily air pressure in kPa."""
    tc = 273.15 + t - 0.5 * elev * lapse
    return 101.325 * np.exp(-elev * 9.80665 / (287 * tc))


def spec_humid(vp, pa):
    """Both pressures in the same unit."""
    w = 0.62196351 * vp / (pa - vp)
    return w / (1 + w)


def rel_humid(vp_kpa, t):
    return np.minimum(100 * 1000 * vp_kpa / svp(t), 100)


# ------------------------------------------------------------ daily estimates
def t_day(tmin, tmax, coef):
    return tmin + (tmax - tmin) * (0.5 + 0.5 * coef)


def tfmax(dtr, smooth, prec, thresh, scalar):
    """Cloud transmittance (Thornton & Running) with its rain correction."""
    b = 0.031 + 0.201 * np.exp(-0.185 * smooth)
    clear = 1 - 0.9 * np.exp(-b * dtr ** 1.5)
    return np.where(prec > thresh, clear * scalar, clear)


def tskc_deardorff(tf):
    return 1 - tf


def tskc_default(tf):
    return np.sqrt((1 - tf) / 0.65)


def shortwave(tf, vp, ttmax, potrad):
    return potrad * tf * np.maximum(ttmax - 6.1e-5 * vp, 0.0001)


def pressure_pa(elev, lapse):
    return 101325 * (1 - lapse * elev / 288.15) ** (9.80665 / (lapse * 8.3143 / 0.0289644))


def pet(rad, tday, dayl, elev, lapse):
    """Priestley-Taylor potential evaporation in mm per day."""
    lam = 2.5023e6 - 2430.54 * tday
    gamma = 1010.0 * pressure_pa(elev, lapse) / (lam * 0.62196351)
    slope = (svp(tday + 0.2) - svp(tday - 0.2)) / 0.4
    return 1.26 * slope / (slope + gamma) * 0.72 * rad * dayl / lam


def dew(pet_, tmin, sprec, dtr):
    """Dew point (Kimball et al.)."""
    r = pet_ / np.maximum(sprec, 80)
    return (tmin + 273.15) * (-0.127 + 1.121 * (1.003 - 1.444 * r + 12.312 * r ** 2 - 32.766 * r ** 3)
                              + 0.0006 * dtr) - 273.15


# ----------------------------------------------------------------- longwave
def emissivity(scheme, t, e):
    """Clear sky emissivity; t in kelvin, e in hPa."""
    if scheme == 'anderson':
        return 0.68 + 0.036 * np.sqrt(e)
    if scheme == 'brutsaert':
        return 1.24 * (e / t) ** 0.14285714
    if scheme == 'satterlund':
        return 1.08 * (1 - np.exp(-e ** (t / 2016)))
    if scheme == 'idso':
        return 0.7 + 5.95e-5 * e * np.exp(1500 / t)
    if scheme == 'prata':
        w = 46.5 * e / t
        return 1 - (1 + w) * np.exp(-np.sqrt(1.2 + 3 * w))
    return 0.74 + 0.0049 * e


def longwave(scheme, cloud, tc, vp_kpa, tskc):
    t = tc + 273.15
    em = emissivity(scheme, t, 10 * vp_kpa)
    if cloud == 'cloud_deardorff':
        em = tskc + (1 - tskc) * em
    else:
        em = (1 + 0.17 * tskc * tskc) * em
    return em * 5.669e-8 * t ** 4
