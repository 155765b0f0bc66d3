"""Solar geometry follows the astronomical formulas."""
from ..prog import *
from .. import oracle as O
from .. import ops as _ops
LEVEL = 'other'
LATS = (48.25, -33.75)


def places(prog, n_days=4, lats=LATS, start=None, ts=None):
    def evs(sd, cell):
        e = V.whole(prog.cfg, sd, ts=ts, n_days=n_days, lats=lats[sd % len(lats)] if isinstance(lats[0], tuple) else lats,
                    start=start)
        e.syms['cell'] = float(cell)
        return e
    return evs


POLES = ((48.25, -33.75), (71.0, -78.5), (0.0, 66.6), (89.75, -89.75), (23.4, -12.1), (60.1, -66.2))


def through_outputs(seeds):
    def daily():
        c = Checker('daily', seeds=seeds)
        p = Prog(Config(ts='daily', method='passthrough', forcing_extra=('shortwave',), out_vars=['daylength'],
                        utc=FALSE, period_ending=FALSE, **params('lapse_rate')))
        c.eq('daylength', p, lambda: p.val('daylength'), Num(lambda v: v.solar()[1]),
             'twice the hour angle of sunset, at most a day', evs=places(p, lats=POLES), cells=(0, 2, 3))
        q = Prog(Config(ts='daily', method='mtclim', out_vars=['shortwave', 'vapor_pressure', 'tskc'],
                        utc=FALSE, period_ending=FALSE, **params('lapse_rate')))

        def sw(v):
            f, d, r, t = v.solar()
            return d / 86400 * r * (1 - v.out('tskc')) * np.maximum(t - 6.1e-5 * v.out('vapor_pressure'), 1e-4)
        c.eq('potential radiation and transmittance', q, lambda: q.val('shortwave'), Num(sw),
             'mean of the potential radiation of the daylight half-minutes, weighted optical air mass transmittance',
             evs=places(q, lats=POLES), cells=(0, 3), tol=1e-5)
        c.saw(p, q)
        return c

    def sub():
        c = Checker('sub-daily', seeds=seeds)
        p = Prog(Config(ts='sub', method='passthrough', forcing_extra=('shortwave',), out_vars=['shortwave'],
                        utc=FALSE, period_ending=FALSE, **params('lapse_rate')))

        def ref(v):
            f = v.solar()[0] * (v.shortwave * 86400 / (v.ts * 60))[:, None]
            return f.reshape(-1, v.ts * 2).sum(1)

        def near(x, y):
            # a half-minute may be assigned to either of two steps by rounding
            x, y = np.asarray(x), np.asarray(y)
            return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 2e-3 * np.abs(y).max() + 1e-9))
        c.eq('radiation fractions', p, lambda: p.val('shortwave'), Num(ref),
             'fractions proportional to the flat surface radiation of each half-minute, summing to one', rel=near,
             evs=places(p, lats=POLES), cells=(0, 3))
        c.saw(p)
        return c
    return [('daily', daily), ('sub-daily', sub)]


def tasks(tier, seed):
    sd = tuple(range(6 if tier == 'quick' else 30))
    return through_outputs(sd)
