"""Sub-daily temperature passes through the daily extremes."""
from ..prog import *
from .. import oracle as O
LEVEL = 'other'


def knots(v, utc=False, off=None):
    """Minutes at which the minimum and the maximum of each day are reached."""
    fr = v.solar()[0]
    frac = v.tmax_daylength_fraction
    a = []
    for i in range(v.n):
        r, s = O.sun_minutes(fr[i])
        o = off if off is not None else O.shift_minutes(v.lon) if utc else 0
        r, s = r - o + 1440 * i, s - o + 1440 * i
        a.append((r - v.ts, r + frac * (s - r) - v.ts))
    a = np.array(a)
    return a[:, 0], a[:, 1]


def temps(v, utc=False, off=None):
    tmn, tmx = knots(v, utc, off)
    t = np.column_stack((tmn, tmx)).reshape(-1)
    y = np.column_stack((v.t_min, v.t_max)).reshape(-1)
    t = np.concatenate([t[:2] - 1440, t, t[-2:] + 1440])
    hmin = v.history('S_tmin', v.t_min)[89]
    hmax = v.history('S_tmax', v.t_max)[89]
    y = np.concatenate([[hmin, hmax], y, y[-2:]])
    return O.pchip(t, y, v.ts * np.arange(v.n * 1440 // v.ts))


def near(x, y):
    # sunrise is found to the half-minute; its rounding may go either way
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 0.03))


def case(utc, seeds, method='mtclim', **k):
    def f():
        c = Checker('%s %s' % (method, 'UTC' if utc is TRUE else 'local'), seeds=seeds)
        p = Prog(Config(ts='sub', utc=utc, period_ending=FALSE, method=method, out_vars=['temp'],
                        forcing_extra=('shortwave',) if method == 'passthrough' else (),
                        **params('tmax_daylength_fraction', 'lapse_rate')))
        c.eq('temperature', p, lambda: p.val('temp'), Num(lambda v: temps(v, utc is TRUE)),
             'monotone interpolation through each minimum at sunrise and each maximum at the configured fraction of '
             'the daylight, in day order, extended by the day before from the state and the repeated last day',
             rel=near, cells=(0, 2, 3))
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(4 if tier == 'quick' else 20))
    return [('local', case(FALSE, sd)), ('utc', case(TRUE, sd)), ('passthrough', case(FALSE, sd, 'passthrough'))]
