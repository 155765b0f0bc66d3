"""Reference solar geometry of one day of one place (MT-CLIM)."""
import numpy as np

OPTAM = [2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12, 5.60,
         6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79, 26.96, 30.00]


def transmittance(elev, lapse):
    """Of the atmosphere for the vertical beam at an elevation."""
    return 0.87 ** ((1 - lapse * elev / 288.15) ** (9.80665 / (lapse * (8.3143 / 0.0289644))))


def half_day(lat, i):
    """Hour angle of sunset."""
    phi = np.minimum(np.maximum(lat * 0.01745329, -np.pi / 2), np.pi / 2)
    d = -0.4092797 * np.cos((i + 11.25) * 0.017214)
    c = np.cos(phi) * np.cos(d)
    s = np.sin(phi) * np.sin(d)
    return np.arccos(min(max(-s / c, -1), 1))


def daylength(lat, i):
    return min(2 * half_day(lat, i) * 13750.9871, 86400)
