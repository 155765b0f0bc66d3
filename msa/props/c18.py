"""The UTC shift is consistent across variables."""
import math
from ..world import *
from .. import oracle as O
from .c29 import temps
from .c35 import minutes as storm
LEVEL = 'other'
SAME = 'shifted by the solar time difference of the longitude in [-180, 180], in the same direction as every other variable'
NONE_ = 'without the UTC shift, longitude influences no output'
LATS = (48.25, -33.75)
LONS = ((-121.25, 251.25), (0.0, 359.75), (-179.75, 180.25), (190.5, -200.25), (75.5, 470.0), (-359.5, 725.25), (13.3, -0.1))
FAR = ((0.0, 359.75), (-179.75, 12.5), (190.5, -200.25), (300.0, 470.0))


def offsets(lon, per_day):
    """Whole steps the solar time difference may be taken as."""
    x = O.lon180(lon) / 360 * per_day
    r = {math.floor(x), math.ceil(x)}
    if abs(x - round(x)) < 1e-6:
        r |= {round(x) - 1, round(x) + 1} if False else {round(x)}
        r |= {int(x)}
    return sorted(r)


def places(prog, ts, n=5):
    def evs(sd, cell):
        e = V.whole(prog.cfg, sd, ts=ts[sd % len(ts)], n_days=n, lats=LATS, lons=LONS[sd % len(LONS)])
        e.syms['cell'] = float(cell)
        return e
    return evs


def inner(x, n):
    """Without the first and the last day, where the record is wrapped."""
    x = np.asarray(x)
    k = len(x) // n
    return x[k:-k]


def close(tol):
    def f(x, ys):
        x = np.asarray(x, dtype=float)
        return any(x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol + 1e-6 * np.abs(y))) for y in ys)
    return f


def strip(x, ys, e):
    n = len(e.days)
    return inner(x, n), [inner(y, n) for y in ys]


def on(label, v, k, seeds, chunks=None):
    def f():
        c = Checker(label, seeds=seeds)
        kw = dict(utc=TRUE, period_ending=FALSE, **k)
        p = Prog(Config(ts='sub', out_vars=[v], chunks=chunks or {}, **kw))
        tol = {'temp': 0.03, 'shortwave': 1.0}.get(v, 1e-7)
        if v == 'prec':
            def series(z, o):
                m = storm(z, k.get('prec_type', 'uniform').lower())
                return np.roll(m, -o).reshape(-1, z.ts).sum(1)
        elif v == 'wind':
            def series(z, o):
                return np.roll(np.repeat(z.e(p.inp('wind')), 1440), -o).reshape(-1, z.ts).mean(1)
        elif v == 'temp':
            def series(z, o):
                return temps(z, True, o)
        else:
            q = Prog(Config(ts='daily', out_vars=[v], **kw))
            if v == 'tskc':
                def series(z, o):
                    return np.roll(np.repeat(z.e(q.val('tskc')), 1440), -o).reshape(-1, z.ts).mean(1)
            else:
                def series(z, o):
                    n, ts = z.n, z.ts
                    sw = np.asarray(z.e(q.val('shortwave')))
                    fr = np.array([O.solar_day(z.elev, z.lat, z.lapse_rate, i)[0] for i in range(366)]).reshape(-1)
                    w = np.roll(fr, -o)
                    w = np.concatenate([w[(d - 1) * 2880:d * 2880] for d in O.doys(z.days)])
                    r = np.roll(np.repeat(sw * 86400 / (ts * 60), 2880), -o)
                    return (w * r).reshape(-1, ts * 2).sum(1)

        def want(z):
            return [series(z, o) for o in offsets(z.lon, 2880 if v == 'shortwave' else 1440)]
        c.eq(v, p, lambda: p.val(v), Num(want), SAME, post=strip, rel=close(tol), cells=(0, 2, 3), at=wrote(p, v),
             evs=places(p, (60, 180, 15, 30, 360, 5, 48)), detail='the values are not those of the day shifted by the solar time '
             'difference of the longitude')
        c.saw(p)
        return c
    return f


OUTS = ['temp', 'prec', 'shortwave', 'wind', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc']
DOUTS = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'daylength', 'wind']


def off(label, kind, k):
    def f():
        c = Checker(label)
        outs = [v for v in (OUTS if kind == 'sub' else DOUTS) if kind == 'sub' or k.get('method') != 'passthrough' or v != 'tskc']
        extra = ('wind',) + (('shortwave',) if k.get('method') == 'passthrough' else ())
        p = Prog(Config(ts=kind, out_vars=outs, forcing_extra=extra, utc=FALSE, **k))
        if p.died:
            c.add('runs', 'violated', NONE_, 'structure', '', p.err)
            return c
        ts = {v: Tries(c, v, NONE_, wrote(p, v)) for v in outs}
        for seed, far in enumerate(FAR):
            kw = dict(n_days=3, ts=1440 if kind == 'daily' else (60, 360, 90, 180)[seed], lats=LATS)
            sets = dict(cfg_chunk_lat=1.0, cfg_chunk_lon=1.0, cfg_chunk_hru=2.0, cfg_pe=bool(seed % 2))
            try:
                a = world(p, seed, None, sets, None, lons=(-121.3125, 251.1875), **kw)[1]
                b = world(p, seed, None, sets, None, lons=far, **kw)[1]
            except Bad as x:
                for t in ts.values():
                    t.run(lambda: str(x), 'longitudes %s' % (far,))
                continue
            except (Undecided, Unknown) as x:
                for t in ts.values():
                    t.why = str(x)
                continue
            for v, t in ts.items():
                def one():
                    x, y = assembled(a, 'N_' + v), assembled(b, 'N_' + v)
                    if not same_grid(x[1], y[1]):
                        return 'another value with longitudes %s: %s' % (far, differ(y[1], x[1]))
                    if not same_grid(x[0], y[0]):
                        return 'other times with longitudes %s' % (far,)
                t.run(one, 'seed %d' % seed)
        for t in ts.values():
            t.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    sd = tuple(range(len(LONS) if tier == 'quick' else 3 * len(LONS)))
    r = []
    for m in ('mtclim', 'passthrough'):
        x = ('shortwave',) if m == 'passthrough' else ()
        for v in ('prec', 'wind', 'temp', 'tskc', 'shortwave'):
            k = dict(method=m, forcing_extra=x + (('wind',) if v == 'wind' else ()))
            if v in ('temp', 'shortwave'):
                k.update(params('tmax_daylength_fraction', 'lapse_rate'))
            if v == 'tskc' and m == 'passthrough':
                continue
            r.append(('%s %s' % (m, v), on('%s %s' % (m, v), v, k, sd)))
        for kind in ('sub', 'daily'):
            label = 'off %s %s' % (m, kind)
            r.append((label, off(label, kind, dict(method=m))))
    for pt in ('triangle', 'mix'):
        r.append((pt, on(pt, 'prec', dict(prec_type=pt), sd)))
        r.append(('off ' + pt, off('off ' + pt, 'sub', dict(prec_type=pt))))
    r.append(('off chunks', off('off chunks', 'sub', dict(chunks={'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}))))
    r.append(('off units', off('off units', 'daily', dict(mask_dims=('hru',), forc_dims=('hru',)))))
    return r
