"""Passthrough uses supplied variables as supplied."""
from ..prog import *
from .. import oracle as O
from .c02 import daymean
LEVEL = 'other'
SETS = [('shortwave',), ('shortwave', 'vapor_pressure'), ('shortwave', 'tskc'), ('shortwave', 'pet'),
        ('shortwave', 'vapor_pressure', 'tskc', 'pet')]


def daily(extra, utc=FALSE):
    def f():
        c = Checker('daily %s' % ' '.join(extra))
        p = Prog(Config(ts='daily', method='passthrough', forcing_extra=extra, utc=utc, period_ending=FALSE,
                        out_vars=['shortwave', 'vapor_pressure', 'tskc', 'pet', 't_min', 't_max', 'prec']))
        for v in extra + ('t_min', 't_max', 'prec'):
            c.eq(v, p, lambda: p.val(v), lambda: p.inp(v), 'a supplied variable is written as supplied')
        c.saw(p)
        return c
    return f


def sub(extra, utc=FALSE):
    def f():
        c = Checker('sub-daily %s' % ' '.join(extra), seeds=(0, 1, 2, 3))
        p = Prog(Config(ts='sub', method='passthrough', forcing_extra=extra, utc=utc, period_ending=FALSE,
                        out_vars=['shortwave', 'longwave', 'tskc', 'vapor_pressure', 'temp']))
        c.eq('shortwave', p, lambda: p.val('shortwave'), lambda: p.inp('shortwave'),
             'day means of shortwave are the supplied values', post=daymean, tol=2e-6)
        if 'longwave' in extra:
            c.eq('longwave', p, lambda: p.val('longwave'), lambda: p.inp('longwave'),
                 'day means of longwave are the supplied values', post=daymean)
        if 'tskc' in extra:
            c.eq('cloud fraction', p, lambda: p.val('tskc'), lambda: p.inp('tskc'),
                 'day means of cloud fraction are the supplied values', post=daymean)
        if 'vapor_pressure' in extra:
            # the supplied value holds at the time of the minimum, where it is not capped
            def ref(v):
                from .c29 import knots
                tmn, tmx = knots(v)
                t = v.ts * np.arange(v.n * (1440 // v.ts))
                x = np.interp(t, tmn, v.vapor_pressure / 1000.0, left=np.nan, right=np.nan)
                return np.minimum(x, O.svp(v.out('temp')) / 1000)

            def inside(x, y, e):
                k = ~np.isnan(y)
                return (np.asarray(x)[k], y[k]) if np.size(x) == y.size else (x, y)
            c.eq('vapor pressure', p, lambda: p.val('vapor_pressure'), Num(ref),
                 'vapor pressure runs linearly between the supplied values, capped at saturation', rel=near,
                 post=inside)
        c.saw(p)
        return c
    return f


def near(x, y):
    # sunrise is found to the half-minute; its rounding may go either way
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 0.01 * np.abs(y).max()))


def refused():
    c = Checker('no shortwave')
    for ts in ('daily', 'sub'):
        p = Prog(Config(ts=ts, method='passthrough', forcing_extra=('vapor_pressure',),
                        out_vars=['shortwave'], utc=FALSE, period_ending=FALSE))
        w = [e for e in p.all('nc_write') if is_str(e['var']) and str(e['var'].args[0]).startswith('N_')
             and e['value'].op == 'scatter']
        if not p.died and p.err:
            c.add(ts, 'undecided', 'refusal', detail=p.err)
        else:
            c.fact(ts, not w, 'without supplied shortwave no value is computed: every path to a cell ends in an exception',
                   at=w[0]['at'] if w else '', detail='values are written for a run without shortwave')
        c.saw(p)
    return c


def tasks(tier, seed):
    r = [('daily %s' % ' '.join(x), daily(x)) for x in SETS]
    r += [('sub %s' % ' '.join(x), sub(x)) for x in SETS[:4] + [('shortwave', 'longwave'),
                                                             ('shortwave', 'longwave', 'tskc', 'vapor_pressure', 'pet')]]
    r.append(('refused', refused))
    return r
