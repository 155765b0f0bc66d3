"""Numeric reference definitions, applied to the values two graphs take on one valuation."""
import numpy as np
import datetime
from .val import todatetime

OPTAM = [2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12, 5.60,
         6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79, 26.96, 30.00]
DT = 30.0
SEC_PER_RAD = 13750.9871
RAD = 0.01745329


def svp(t):
    t = np.asarray(t, dtype=float)
    e = 610.78 * np.exp(17.269 * t / (237.3 + t))
    return np.where(t < 0, e * (1 + 0.00972 * t + 4.2e-5 * t * t), e)


_SOL = {}


def solar_day(elev, lat, lapse, i):
    """(fractions of the 2880 half-minutes, daylength s, mean potential radiation, clear sky
    transmittance) of day number i = 0..365 of the year."""
    i = min(int(i), 364)
    k = (elev, lat, lapse, i)
    if k in _SOL:
        return _SOL[k]
    trans = 0.87 ** ((1 - lapse * elev / 288.15) ** (9.80665 / (lapse * 8.3143 / 0.0289644)))
    phi = min(max(lat * RAD, -np.pi / 2), np.pi / 2)
    decl = -0.4092797 * np.cos((i + 11.25) * 0.017214)
    cg, sg = np.cos(phi) * np.cos(decl), np.sin(phi) * np.sin(decl)
    hss = np.arccos(min(max(-sg / cg, -1), 1)) if cg > 0 else (0.0 if sg < 0 else np.pi)
    dayl = min(2 * hss * SEC_PER_RAD, 86400.0)
    beam = (1368.0 + 45.5 * np.sin(2 * np.pi * i / 365.25 + 1.7)) * DT
    h = np.arange(-hss, hss, DT / SEC_PER_RAD)
    cza = cg * np.cos(h) + sg
    up = cza > 0
    flat = np.where(up, beam * cza, 0.0)
    am = 1.0 / (np.maximum(cza, 0) + 1e-7)
    n = np.clip((np.arccos(np.clip(cza, -1, 1)) / RAD).astype(int) - 69, 0, 20)
    am = np.where(am > 2.9, np.array(OPTAM)[n], am)
    tot = flat.sum()
    fr = np.zeros(2880)
    idx = np.clip((43200 + h * SEC_PER_RAD) / DT + 1e-9, 0, 2879).astype(int)
    for a, b in zip(idx, flat):
        fr[a] = b
    if dayl and tot > 0:
        r = fr / tot, dayl, tot / dayl, (trans ** am * flat).sum() / tot
    else:
        r = fr, dayl, 0.0, 0.0
    _SOL[k] = r
    return r


def doys(days):
    return [todatetime(d).timetuple().tm_yday for d in days]


def months(days):
    return [todatetime(d).month for d in days]


def trunc(x):
    return int(np.trunc(x + (1e-9 if x > 0 else -1e-9)))


def lon180(lon):
    return float(lon - 360 * np.rint(lon / 360))


def shift_minutes(lon):
    """Solar time difference of a longitude, in whole minutes."""
    return trunc(lon180(lon) / 360 * 1440)


def shift_half(lon):
    return trunc(lon180(lon) / 360 * 2880)


def triangle(P, pk, dur):
    """Minute series of one day: linear rise from pk - dur/2 to pk and fall to pk + dur/2."""
    t = np.arange(1440)
    up = t[(t <= pk) & (t >= pk - 0.5 * dur)]
    dn = t[(t >= pk) & (t <= pk + 0.5 * dur)]
    k = np.zeros(1440)
    k[up] = np.linspace(0, 1, len(up))
    k[dn] = np.linspace(1, 0, len(dn))
    return P * k / k.sum()


def pchip(x, y, p):
    from .val import pchip as f
    return f(np.asarray(x, float), np.asarray(y, float), np.asarray(p, float))


def sun_minutes(fr):
    """Minutes of sunrise and sunset by the fractions of a day; 240 and 960 without."""
    up = (fr > 0).astype(int)
    d = np.diff(up)
    r = np.nonzero(d > 0)[0]
    s = np.nonzero(d < 0)[0]
    r = r[-1] * 0.5 if len(r) else 0
    s = s[-1] * 0.5 if len(s) else 0
    return (r or 240.0), (s or 960.0)
