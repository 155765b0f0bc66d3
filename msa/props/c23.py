"""Every day of the year has its solar geometry."""
from ..prog import *
from .. import oracle as O
from .c29 import temps
from .c29 import near as near_temp
LEVEL = 'other'
DAY = 'each day uses the entry of the solar geometry of its own day of the year, the 366th like the 365th'
YEARS = [((2004, 1, 1), 366), ((2003, 1, 1), 365), ((2000, 1, 1), 366), ((1900, 1, 1), 365)]
ENDS = [((2004, 12, 30), 4), ((2000, 12, 31), 1), ((2003, 12, 30), 3), ((2004, 2, 28), 3), ((2005, 2, 27), 4), ((2008, 12, 28), 4),
        ((2001, 12, 31), 2), ((2005, 1, 1), 2)]
LATS = [(48.25, -33.75), (71.0, -78.5), (0.0, 66.6), (23.4, -60.1)]


def over(prog, periods, ts=None):
    def evs(sd, cell):
        st, n = periods[sd % len(periods)]
        e = V.whole(prog.cfg, sd, ts=ts[sd % len(ts)] if ts else None, n_days=n, lats=LATS[(sd + sd // len(periods)) % len(LATS)],
                    start=st)
        e.syms['cell'] = float(cell)
        return e
    return evs


def close(tol):
    def f(x, y):
        x, y = np.asarray(x), np.asarray(y)
        return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y))))
    return f


def outside(p, c):
    """Reads past the end of a table stop the run."""
    if p.died:
        c.add('runs', 'violated', DAY, 'structure', '', 'the run fails: %s' % p.err)
    return p.died


def daily(label, periods, seeds, method, **k):
    def f():
        c = Checker(label, seeds=seeds)
        q = Prog(Config(ts='daily', method=method, forcing_extra=('shortwave',) if method == 'passthrough' else (),
                        out_vars=['daylength', 'shortwave', 'vapor_pressure', 'tskc'], utc=FALSE, period_ending=FALSE, **k))
        c.saw(q)
        if outside(q, c):
            return c
        c.eq('daylength', q, lambda: q.val('daylength'), Num(lambda v: v.solar()[1]), DAY, evs=over(q, periods), cells=(0, 3),
             rel=close(1e-6))
        if method == 'mtclim':
            def sw(v):
                f, d, r, t = v.solar()
                return d / 86400 * r * (1 - v.out('tskc')) * np.maximum(t - 6.1e-5 * v.out('vapor_pressure'), 1e-4)
            c.eq('radiation and transmittance', q, lambda: q.val('shortwave'), Num(sw), DAY, evs=over(q, periods), cells=(0, 3),
                 rel=close(1e-5))
        return c
    return f


def sub(label, periods, seeds, ts, **k):
    def f():
        c = Checker(label, seeds=seeds)
        p = Prog(Config(ts='sub', method='passthrough', forcing_extra=('shortwave',), out_vars=['shortwave', 'temp'],
                        utc=FALSE, period_ending=FALSE, **k))
        c.saw(p)
        if outside(p, c):
            return c

        def ref(v):
            f = v.solar()[0] * (v.shortwave * 86400 / (v.ts * 60))[:, None]
            return f.reshape(-1, v.ts * 2).sum(1)

        def near(x, y):
            x, y = np.asarray(x), np.asarray(y)
            return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 1e-3 * np.abs(y).max() + 1e-9))
        c.eq('share of the steps', p, lambda: p.val('shortwave'), Num(ref), DAY, evs=over(p, periods, ts), cells=(0, 3), rel=near)
        c.eq('sunrise and sunset', p, lambda: p.val('temp'), Num(temps), DAY, evs=over(p, periods, ts), cells=(0, 3),
             rel=near_temp)
        return c
    return f


def tasks(tier, seed):
    few = tuple(range(8))
    more = tuple(range(8 if tier == 'quick' else 24))
    r = []
    for m in ('mtclim', 'passthrough'):
        for q, y in enumerate(YEARS):
            l = '%s year %d' % (m, y[0][0])
            r.append((l, daily(l, [y], (q, q + 1) if tier == 'quick' else few, m)))
        l = m + ' ends of years'
        r.append((l, daily(l, ENDS, more, m)))
    r.append(('sub-daily ends of years', sub('sub-daily ends of years', ENDS, more, [60, 180, 30, 360, 15])))
    for q, y in enumerate(YEARS[:2]):
        l = 'sub-daily year %d' % y[0][0]
        r.append((l, sub(l, [y], (q,), [360])))
    return r
