"""Execution settings do not change results."""
from ..world import *
LEVEL = 'other'
RULE = 'the values written for a cell do not depend on the setting'
DAILY = ['t_min', 'shortwave', 'vapor_pressure', 'tskc', 'pet', 'prec']
SUB = ['temp', 'prec', 'shortwave', 'longwave', 'rel_humid', 'wind']


class Renamed(Config):
    """Output names that are not derived from the variable, in another order."""

    def values(self, I, h):
        p = Config.values(self, I, h)
        ov = {const(v): I.dict_({const('out_name'): const('N_%s' % v)}) for v in reversed(list(self.out_vars))}
        I.lib.dict_set(I, p, const('out_vars'), I.dict_(ov))
        return p


def settings():
    ck = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
    return [
        ('chunks of both dimensions', dict(chunks=ck)), ('chunks of lat', dict(chunks={'lat': ck['lat']})),
        ('chunks of lon', dict(chunks={'lon': ck['lon']})),
        ('daily files', dict(out_freq='D')), ('monthly files', dict(out_freq='MS')), ('yearly files', dict(out_freq='A')),
        ('daily files and chunks', dict(out_freq='D', chunks=ck)),
        ('multiprocessing', dict(scheduler='multiprocessing')), ('threading', dict(scheduler='threading')),
        ('processes', dict(scheduler='processes')),
        ('one worker', dict(num_workers=num(1))), ('eight workers', dict(num_workers=num(8))),
        ('debugging output', dict(verbose=num(10))), ('no output', dict(verbose=num(50))),
        ('another directory', dict(out_dir=const('elsewhere'))), ('another prefix', dict(out_prefix=const('other'))),
        ('variables in another order', dict(order=True)),
    ]


def grids(p, name, tier):
    r = []
    for seed in (0, 1) if tier == 'quick' else range(6):
        for a, b in ((1, 1), (2, 1), (1, 3), (2, 2)):
            for pe in (False, True):
                for utc in (False, True):
                    r.append((seed, dict(cfg_chunk_lat=float(a), cfg_chunk_lon=float(b), cfg_pe=pe, cfg_utc=utc)))
    return r


def case(kind, what, k, tier):
    def f():
        c = Checker('%s %s' % (kind, what))
        names = DAILY if kind == 'daily' else SUB
        base = Config(ts=kind, forcing_extra=('wind',), out_vars=names)
        q = Prog(base)
        kk = dict(k)
        p = Prog((Renamed if kk.pop('order', None) else Config)(ts=kind, forcing_extra=('wind',), out_vars=names, **kk))
        whole = 'chunks' in k or 'out_freq' in k
        lats, lons = (48.25, -33.75, 10.0)[:3 if kind == 'daily' else 2], (-121.3125, 251.1875)
        memo = {}
        for v in names:
            if not whole:
                c.eq(v, p, lambda: p.val(v), lambda: q.val(v), RULE)
                continue
            t = Tries(c, v, RULE, wrote(p, v))
            todo = grids(p, v, tier)
            if v not in ('prec', 'wind', 't_min') and tier == 'quick':
                # these evaluate the solar geometry of every cell
                todo = todo[seedof(v) % 4::5] if kind == 'daily' else todo[4 + seedof(v) % 4::11]
            for seed, sets in todo:
                def one():
                    key = (seed, sets['cfg_pe'], sets['cfg_utc'], v)
                    if key not in memo:
                        e, fs = world(q, seed, ['N_' + v], sets, n_days=3 if kind == 'daily' else 2, lats=lats, lons=lons)
                        memo[key] = assembled(fs, 'N_' + v)
                    e, fs = world(p, seed, ['N_' + v], sets, n_days=3 if kind == 'daily' else 2, lats=lats, lons=lons)
                    ta, a = assembled(fs, 'N_' + v)
                    tb, b = memo[key]
                    if not same_grid(ta, tb):
                        return 'time stamps differ: ' + differ(ta, tb)
                    return None if same_grid(a, b) else differ(a, b)
                t.run(one, '%s seed %d' % (sets, seed))
            t.done()
        c.saw(p, q)
        return c
    return f


def seedof(v):
    return sum(map(ord, v))


def others(kind):
    """Which other variables are requested does not matter."""
    def f():
        c = Checker('%s other variables' % kind)
        names = DAILY if kind == 'daily' else SUB
        kw = dict(ts=kind, forcing_extra=('wind',))
        q = Prog(Config(out_vars=names, **kw))
        for v in names:
            p = Prog(Config(out_vars=[v], **kw))
            c.eq(v, p, lambda: p.val(v), lambda: q.val(v), RULE)
            c.saw(p)
        c.saw(q)
        return c
    return f


def tasks(tier, seed):
    r = [('%s %s' % (kind, w), case(kind, w, k, tier)) for kind in ('daily', 'sub') for w, k in settings()]
    return r + [('others ' + k, others(k)) for k in ('daily', 'sub')]
