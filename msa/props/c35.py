"""Precipitation is distributed as the chosen type says (local times)."""
from ..prog import *
from .. import oracle as O
LEVEL = 'other'


def minutes(v, pt):
    P, t_min = v.prec, v.t_min
    if pt == 'uniform':
        return np.repeat(P / 1440, 1440)
    dur, pk = v.monthly('D_dur'), v.monthly('D_tpk')
    r = []
    for i in range(v.n):
        if pt == 'mix' and t_min[i] < 0:
            r.append(np.full(1440, P[i] / 1440))
        else:
            r.append(O.triangle(P[i], pk[i], dur[i]))
    return np.concatenate(r)


def ref(pt, utc=False):
    def f(v):
        m = minutes(v, pt)
        if utc:
            m = np.roll(m, -O.shift_minutes(v.lon))
        return m.reshape(-1, v.ts).sum(1)
    return Num(f)


def case(pt, spell, seeds, method='mtclim', extra=(), utc=FALSE, pe=FALSE):
    def f():
        c = Checker('%s %s' % (spell, method), seeds=seeds)
        p = Prog(Config(ts='sub', prec_type=spell, utc=utc, period_ending=pe, method=method, forcing_extra=extra,
                        out_vars=['prec']))
        c.eq('precipitation', p, lambda: p.val('prec'), ref(pt, utc is TRUE),
             {'uniform': 'every minute of a day has the same share',
              'triangle': 'linear rise from peak - duration/2 to the peak and fall to peak + duration/2',
              'mix': 'uniform on days with minimum temperature below 0 C, triangle otherwise'}[pt])
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(6 if tier == 'quick' else 30))
    r = [(s, case(s.lower(), s, sd)) for s in ('uniform', 'triangle', 'mix', 'UNIFORM', 'Triangle', 'MIX')]
    r.append(('passthrough', case('mix', 'mix', sd, 'passthrough', ('shortwave',))))
    return r
