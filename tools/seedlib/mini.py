"""A small synthetic set-up of MetSim in a scratch directory."""
import warnings
warnings.simplefilter('ignore')
import atexit
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import xarray as xr
from metsim.metsim import MetSim
from metsim import io
import metsim.metsim as mm

TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
COUNT = [0]


def tmp():
    COUNT[0] += 1
    d = os.path.join(TMP, 'd%d' % COUNT[0])
    os.mkdir(d)
    return d


def data(start='2001-06-10', n=4, lats=(48.25, 40.0), lons=(-121.5, 100.25), before=0, after=0, seed=0, months=True,
         state_extra=5):
    """Forcing, domain and state datasets (names as in the model)."""
    r = np.random.RandomState(seed)
    t = pd.date_range(pd.Timestamp(start) - pd.Timedelta(days=before), periods=n + before + after)
    ts = pd.date_range(pd.Timestamp(start) - pd.Timedelta(days=90 + state_extra), pd.Timestamp(start))
    la, lo = np.array(lats, float), np.array(lons, float)

    def f(k, a, b):
        return r.uniform(a, b, (k, len(la), len(lo)))

    def met(times):
        k = len(times)
        tmin = f(k, -8, 12)
        p = f(k, -10, 20)
        p[p < 0] = 0
        return xr.Dataset({'t_min': (('time', 'lat', 'lon'), tmin),
                           't_max': (('time', 'lat', 'lon'), tmin + f(k, 2, 14)),
                           'prec': (('time', 'lat', 'lon'), p)}, coords={'time': times, 'lat': la, 'lon': lo})
    fo, st = met(t), met(ts)
    do = xr.Dataset({'mask': (('lat', 'lon'), np.ones((len(la), len(lo)))),
                     'elev': (('lat', 'lon'), r.uniform(10, 1500, (len(la), len(lo)))),
                     'dur': (('month', 'lat', 'lon'), np.rint(f(12, 100, 600))),
                     't_pk': (('month', 'lat', 'lon'), np.rint(f(12, 500, 900)))},
                    coords={'lat': la, 'lon': lo, 'month': np.arange(1, 13)})
    return fo, do, st


def setup(fo, do, st, **k):
    d = tmp()
    for n, x in (('forcing', fo), ('domain', do), ('state', st)):
        x.to_netcdf(os.path.join(d, n + '.nc'))
    same = lambda x: {v: v for v in x}
    p = dict(forcing=os.path.join(d, 'forcing.nc'), domain=os.path.join(d, 'domain.nc'),
             state=os.path.join(d, 'state.nc'), forcing_fmt='netcdf',
             forcing_vars=same(fo.data_vars), domain_vars=dict(same(do.data_vars), lat='lat', lon='lon'),
             state_vars=same(st.data_vars), out_dir=os.path.join(d, 'out'), out_prefix='o', time_step=60,
             method='mtclim', prec_type='uniform', scheduler='synchronous', num_workers=1, verbose=logging.CRITICAL,
             utc_offset=False, period_ending=False, chunks={}, out_precision='f8',
             start=pd.Timestamp(k.pop('start', str(fo.time.values[0])[:10])).to_pydatetime(),
             stop=pd.Timestamp(k.pop('stop', str(fo.time.values[-1])[:10])).to_pydatetime())
    ov = k.pop('out_vars', ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid'])
    p['out_vars'] = ov if isinstance(ov, dict) else {v: {'out_name': v} for v in ov}
    p.update(k)
    return p


def run(fo, do, st, **k):
    m = MetSim(setup(fo, do, st, **k))
    m.run()
    with m.open_output() as o:
        return o.load()


def refused(fo, do, st, **k):
    """Does the run end in an error?  Returns (refused, output files created)."""
    p = setup(fo, do, st, **k)
    try:
        MetSim(p).run()
        r = False
    except Exception:
        r = True
    return r, os.listdir(p['out_dir']) if os.path.isdir(p['out_dir']) else []


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def verdict(ok, what=''):
    print('ok' if ok else 'FAIL', what)
    shutil.rmtree(TMP, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
