"""Random valuations of the inputs of a whole-program analysis."""
import random
import datetime
import numpy as np
from . import terms as tm
from . import ops
from . import harness as hs
from .val import Ev, minutes, DAY

STARTS = [(2001, 2, 26), (2000, 12, 29), (2003, 6, 29), (1999, 9, 29), (2004, 4, 29), (2001, 10, 30), (2002, 7, 30),
          (2003, 5, 30), (2004, 11, 28), (2002, 3, 30), (2005, 8, 30), (2004, 12, 30), (2006, 1, 30)]
RANGES = {'shortwave': (20, 350), 'vapor_pressure': (150.0, 2500.0), 'tskc': (0, 1), 'pet': (0, 6), 'wind': (0, 9),
          'longwave': (150, 400), 'daylength': (20000, 60000), 't_day': (-5, 20), 'rel_humid': (10, 90),
          'spec_humid': (0.001, 0.01), 'air_pressure': (70, 101), 'temp': (-5, 20)}


STEPS = [60, 48, 180, 9, 15, 240, 20, 360, 90, 30, 120, 160, 32, 5, 144, 288, 1, 10, 72, 45]
# numeric settings, given as symbols by prog.params()
PARAMS = {'lapse_rate': (0.005, 0.0075), 'tday_coef': (0.3, 0.6), 'rain_scalar': (0.5, 0.9),
          'sw_prec_thresh': (0.5, 3), 'tmax_daylength_fraction': (0.5, 0.8), 'tdew_tol': (1e-6, 1e-6)}


def whole(cfg, seed=0, ts=None, n_days=4, start=None, lats=(48.25, -33.75), lons=(-121.3125, 251.1875), no_coord=()):
    """Valuation for harness.Config cfg: (Ev, description)."""
    r = random.Random(seed)
    st = minutes(datetime.datetime(*(start or STARTS[seed % len(STARTS)])))
    before, after, sb, sa = 5, 3, 97, 2
    if cfg.start == 'forcing':
        before = after = 0
    nf, ns = before + n_days + after, sb + sa
    days_f = st - before * DAY + DAY * np.arange(nf)
    days_s = st - sb * DAY + DAY * np.arange(ns)
    nlat, nlon = len(lats), len(lons)
    ts = ts or STEPS[seed % len(STEPS)]
    A = {}
    f, d, s = 'file(cfg_forcing)', 'file(cfg_domain)', 'file(cfg_state)'

    def field(n, lo, hi):
        return np.array([[[r.uniform(lo, hi) for _ in range(nlon)] for _ in range(nlat)] for _ in range(n)])

    def wet(n):
        x = field(n, -12, 18)
        return np.where(x < 0, 0.0, x)
    def cold(n):
        # exactly freezing on some days
        x = field(n, -9, 9)
        return np.where(np.abs(x) < 1.2, 0.0, x)

    def span(n):
        # no range at all on some days
        x = field(n, -1, 14)
        return np.where(x < 0, 0.0, x)
    tmin, rng = cold(nf), span(nf)
    for m, name in cfg.forc.items():
        if m == 'prec':
            v = wet(nf)
        elif m == 't_min':
            v = tmin
        elif m == 't_max':
            v = tmin + rng
        else:
            v = field(nf, *RANGES[m])
        A[(f, name)] = v
    smin = cold(ns)
    sta = cfg.sta
    A[(s, sta['prec'])], A[(s, sta['t_min'])], A[(s, sta['t_max'])] = wet(ns), smin, smin + span(ns)
    for b in (f, d, s):
        A[(b, 'lat')], A[(b, 'lon')] = np.array(lats), np.array(lons)
    A[(d, 'D_mask')] = np.ones((nlat, nlon))
    A[(d, 'D_mask')][0, -1] = 0
    A[(d, 'D_elev')] = np.array([[r.uniform(-300, -20) if (seed + i * nlon + j) % 3 == 1 else r.uniform(10, 3000)
                                  for j in range(nlon)] for i in range(nlat)])
    A[(d, 'D_dur')] = np.rint(field(12, 60, 900))
    A[(d, 'D_tpk')] = np.rint(field(12, 450, 990))
    for m, x in (('dur', 'D_dur'), ('t_pk', 'D_tpk'), ('elev', 'D_elev'), ('mask', 'D_mask')):
        y = cfg.names.get('domain', {}).get(m)
        if y:
            A[(d, y + '!')] = A.pop((d, x))
    for k in [k for k in A if k[1].endswith('!')]:
        A[(k[0], k[1][:-1])] = A.pop(k)
    A[(d, 'month')] = np.arange(1.0, 13.0)
    syms = {'n_days_forcing': float(nf), 'n_days_state': float(ns), 'days_forcing': days_f, 'days_state': days_s,
            'dim_lat': float(nlat), 'dim_lon': float(nlon), 'dim_month': 12.0, 'dim_time': float(n_days),
            'cfg_start': st, 'cfg_stop': st + (n_days - 1) * DAY, 'cfg_ts': float(ts)}
    for k, (lo, hi) in PARAMS.items():
        syms['cfg_' + k] = round(r.uniform(lo, hi), 5)
    e = Ev(seed, syms, A)
    e.cells, e.dims = (nlat, nlon), cfg.mask_dims
    if cfg.mask_dims == ('lon', 'lat'):
        e.cells = (nlon, nlat)
        for k in A:
            if k[0] == d and A[k].ndim > 1:
                A[k] = np.swapaxes(A[k], -1, -2)
    if cfg.mask_dims == ('hru',):
        # the cells in one line
        e.cells = (nlat * nlon,)
        ids = np.array([7.0, 3.0, 12.0, 5.0, 20.0, 1.0, 9.0, 2.0, 30.0][:nlat * nlon])
        if 'hru' in no_coord:
            # selected by position
            ids = np.arange(float(nlat * nlon))
        syms['dim_hru'] = float(nlat * nlon)
        for k in list(A):
            if A[k].ndim > 1:
                A[k] = A[k].reshape(A[k].shape[:-2] + (-1,))
        A[(d, 'D_lat')], A[(d, 'D_lon')] = np.repeat(lats, nlon), np.tile(lons, nlat)
        for b in (f, d, s):
            A[(b, 'hru')] = ids
    if cfg.forc_dims == ('lon', 'lat'):
        for k in A:
            if k[0] != d and A[k].ndim > 1:
                A[k] = np.swapaxes(A[k], -1, -2)
    e.days = st + DAY * np.arange(n_days)
    return e


def cell_value(e, t, cell):
    """Value of an output write (scatter over the cells) at one cell number, or None where
    nothing is computed."""
    if t.op != 'scatter' or t.args[3].op != 'locs':
        from .val import Unknown
        raise Unknown('write of ' + t.op)
    base, n, h, locs, v, g = t.args
    env = {('b', h): cell}
    if not e.ev(g, env):
        return None
    return e.ev(v, env)


def fmt_day(m):
    from .val import todatetime
    try:
        return todatetime(m).strftime('%Y-%m-%d')
    except Exception:
        return '?'
