from ..prog import *
from .. import harness as hs
LEVEL = 'other'
TITLE = 'Humidity and pressure follow their definitions'


def tasks(tier, seed):
    def go(**k):
        def f():
            c = Checker('sub-daily %s' % (k or ''))
            p = Prog(Config(ts='sub', utc=FALSE, period_ending=FALSE, **k))
            v = p.val
            c.eq('air pressure', p, lambda: v('air_pressure'),
                 lambda: p.ref('air_pressure', v('temp'), p.dom('D_elev'), num(0.0065)),
                 'air pressure of the written temperature and the elevation (hypsometric equation)')
            c.eq('specific humidity', p, lambda: v('spec_humid'),
                 lambda: p.ref('spec_humid', v('vapor_pressure'), v('air_pressure')),
                 'specific humidity of the written vapor and air pressure in one unit')
            c.eq('relative humidity', p, lambda: v('rel_humid'),
                 lambda: p.ref('rel_humid', v('vapor_pressure'), v('temp')),
                 'relative humidity against saturation at the written temperature, at most 100')
            c.saw(p)
            return c
        return f
    return [('mtclim', go()), ('passthrough', go(method='passthrough', forcing_extra=('shortwave',)))]
