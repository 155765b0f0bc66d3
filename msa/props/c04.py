"""Humidity never exceeds saturation."""
from ..prog import *
from .. import oracle as O
LEVEL = 'other'


def case(seeds, **k):
    def f():
        c = Checker(describe(k), seeds=seeds)
        p = Prog(Config(ts='sub', out_vars=['temp', 'vapor_pressure', 'rel_humid'], **k))
        c.eq('vapor pressure', p, lambda: p.val('vapor_pressure'),
             lambda: min_(p.val('vapor_pressure'), p.ref('svp_kpa', p.val('temp'))),
             'vapor pressure is at most saturation at the temperature of the step', tol=1e-9, cells=(0, 2, 3))
        c.eq('relative humidity', p, lambda: p.val('rel_humid'), lambda: min_(p.val('rel_humid'), num(100)),
             'relative humidity is at most 100', tol=1e-9, cells=(0, 2, 3))
        c.eq('no step is missing', p, lambda: p.val('vapor_pressure'), Num(lambda v: np.ones(v.n * 1440 // v.ts)),
             'every step has a vapor pressure',
             post=lambda x, y, e: ((~np.isnan(x)).astype(float), y), cells=(0,))
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(4 if tier == 'quick' else 20))
    r = []
    for utc in (FALSE, TRUE):
        for m, x in (('mtclim', ()), ('passthrough', ('shortwave',)), ('passthrough', ('shortwave', 'vapor_pressure'))):
            r.append((describe(dict(m=m, x=x, u=utc)), case(sd, method=m, forcing_extra=x, utc=utc, period_ending=FALSE)))
    r.append(('period ending', case(sd, utc=TRUE, period_ending=TRUE)))
    return r
