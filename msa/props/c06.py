"""Unit conversions are physically right."""
from ..prog import *
LEVEL = 'other'
MPS, MPH = 'mm s-1', 'mm h-1'
# variable -> {unit: value in that unit of x in the default unit; ts in minutes}
UNITS = {
    'prec': {'mm timestep-1': lambda x, ts: x, MPS: lambda x, ts: div(x, mul(num(60), ts)),
             MPH: lambda x, ts: div(mul(num(60), x), ts)},
    't_max': {'C': lambda x, ts: x, 'K': lambda x, ts: add(x, num(273.15))},
    'vapor_pressure': {'Pa': lambda x, ts: x, 'hPa': lambda x, ts: div(x, num(100)),
                       'kPa': lambda x, ts: div(x, num(1000))},
    'air_pressure': {'kPa': lambda x, ts: x, 'hPa': lambda x, ts: mul(num(10), x),
                     'Pa': lambda x, ts: mul(num(1000), x)},
    'tskc': {'fraction': lambda x, ts: x, '%': lambda x, ts: mul(num(100), x)},
    'rel_humid': {'%': lambda x, ts: x, 'fraction': lambda x, ts: div(x, num(100))},
    'shortwave': {'W m-2': lambda x, ts: x}, 'longwave': {'W m-2': lambda x, ts: x},
    'spec_humid': {'g g-1': lambda x, ts: x}, 'wind': {'m s-1': lambda x, ts: x}, 'daylength': {'s': lambda x, ts: x},
}
for a, b in (('pet', 'prec'), ('t_min', 't_max'), ('t_day', 't_max'), ('temp', 't_max')):
    UNITS[a] = UNITS[b]
DAILY = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'wind', 'daylength']
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc',
       'wind']


def case(kind, k):
    names = DAILY if kind == 'daily' else SUB

    def f():
        c = Checker(kind)
        kw = dict(ts=kind, utc=FALSE, period_ending=FALSE, forcing_extra=('wind',), out_vars=names)
        base = Prog(Config(**kw))
        pick = {v: sorted(UNITS[v])[k % len(UNITS[v])] for v in names}
        p = Prog(Config(units=pick, **kw))
        ts = num(1440) if kind == 'daily' else p.cfg.ts()
        for v in names:
            u = pick[v]
            c.eq('%s in %s' % (v, u), p, lambda: p.val(v), lambda: UNITS[v][u](base.val(v), ts),
                 'the value in the default unit, converted by the physical relation of the units', tol=1e-9)
        c.saw(base, p)
        return c
    return f


def tasks(tier, seed):
    return [('%s %d' % (a, k), case(a, k)) for a in ('daily', 'sub') for k in range(3)]
