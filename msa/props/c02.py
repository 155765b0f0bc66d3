"""Sub-daily shortwave carries the same energy as daily output."""
from ..prog import *
from .. import oracle as O
LEVEL = 'other'


def daymean(x, y, e):
    n = len(y)
    x = np.asarray(x)
    return (x.reshape(n, -1).mean(1), y) if x.size % n == 0 else (x, y)


def case(method, utc, seeds, **k):
    def f():
        c = Checker('%s %s %s' % (method, 'UTC' if utc is TRUE else 'local', k.get('sw_averaging', '')), seeds=seeds)
        kw = dict(method=method, forcing_extra=('shortwave',) if method == 'passthrough' else (), utc=utc,
                  period_ending=FALSE, out_vars=['shortwave'], **k)
        p = Prog(Config(ts='sub', **kw))
        q = Prog(Config(ts='daily', **kw))
        if utc is FALSE:
            c.eq('day means', p, lambda: p.val('shortwave'), lambda: q.val('shortwave'),
                 'the mean of the sub-daily shortwave of a day is the daily shortwave', post=daymean, tol=2e-6)
        else:
            def ref(v):
                n, ts = v.n, v.ts
                sw = np.asarray(v.e(q.val('shortwave')))
                fr = np.array([O.solar_day(v.elev, v.lat, v.lapse_rate, i)[0] for i in range(366)]).reshape(-1)
                o = O.shift_half(v.lon)
                r = np.roll(np.repeat(sw * 86400 / (ts * 60), 2880), -o)
                w = np.roll(fr, -o)
                w = np.concatenate([w[(d - 1) * 2880:d * 2880] for d in O.doys(v.days)])
                return (w * r).reshape(-1, ts * 2).sum(1)

            def inner(x, y, e):
                # the wrapped ends of the record are not constrained
                x = np.asarray(x)
                k = len(y) // len(e.days)
                return (x[k:-k], y[k:-k]) if x.size == y.size else (x, y)

            def near(x, y):
                x, y = np.asarray(x), np.asarray(y)
                return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 0.01 * np.abs(y).max() + 1e-6))
            c.eq('alignment', p, lambda: p.val('shortwave'), Num(ref),
                 'radiation and its weights are moved by the same offset', post=inner, rel=near, cells=(0, 2, 3))
        c.saw(p, q)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(4 if tier == 'quick' else 20))
    r = []
    for utc in (FALSE, TRUE):
        r.append(('mtclim %s' % utc, case('mtclim', utc, sd)))
        r.append(('passthrough %s' % utc, case('passthrough', utc, sd)))
    r.append(('daylight', case('passthrough', FALSE, sd, sw_averaging='daylight')))
    return r
