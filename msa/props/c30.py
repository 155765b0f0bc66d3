"""Constant variables take precedence everywhere."""
import random
from ..world import *
from ..harness import FileConfig
from .c24 import FILES, CELLS
LEVEL = 'other'
RULE = 'a constant variable acts as a forcing of that value at every cell and day, whatever the forcing holds'
LATS, LONS = (48.25, -33.75), (-121.3125, 251.1875)
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
DAILY = ['prec', 't_min', 't_max', 'shortwave', 'vapor_pressure', 'tskc', 'wind']
SUB = ['temp', 'prec', 'shortwave', 'wind', 'vapor_pressure', 'longwave']
# constants: all of the first are variables of the forcing; of the second, also others
SETS = {
    'wind': {'wind': 2.7},
    'prec': {'prec': 3.25},
    'zero': {'prec': 0},
    'temperatures': {'t_min': -1.5, 't_max': 8.125},
    'maximum': {'t_max': 41.5},
    'several': {'wind': 1.9, 't_min': -12.75, 'prec': 0.3},
    'all but one': {'t_min': 2.5, 't_max': 11.25, 'wind': 4.4},
}
PASS = {'shortwave': {'shortwave': 123.4}, 'mixed': {'shortwave': 88.25, 'vapor_pressure': 0.6, 't_max': 33.3}}


class Dict(Config):
    def values(self, I, h):
        p = Config.values(self, I, h)
        # as written: whole numbers are given as such
        I.lib.dict_set(I, p, const('constant_vars'), I.dict_({const(k): num(v) for k, v in self.consts.items()}))
        return p


class File(FileConfig):
    values = Dict.values


def forcing(name, n, whole):
    """Days of a forcing variable at the cells."""
    r = np.random.RandomState(sum(ord(c) for c in name) + n)
    lo, hi = {'prec': (-8, 16), 't_min': (-8, 1), 't_max': (9, 24), 'shortwave': (30, 300), 'vapor_pressure': (0.2, 2),
              'wind': (0, 9), 'tskc': (0, 1)}.get(name, (0, 5))
    x = r.uniform(lo, hi, (n, 2, 2))
    if name == 'prec':
        x[x < 0] = 0
    return np.rint(x) if whole else x


def case(label, fmt, form, consts, kind, absent=(), method='mtclim', chunks=None, whole=False, md=('lat', 'lon')):
    def f():
        c = Checker(label)
        outs = list(DAILY if kind == 'daily' else SUB)
        extra = ['wind'] + [v for v in consts if v not in ('prec', 't_min', 't_max', 'wind')]
        if method == 'passthrough' and 'shortwave' not in extra:
            extra.append('shortwave')
        if kind == 'daily' and method == 'passthrough':
            outs.remove('tskc')
        kk = dict(ts=kind, method=method, utc=FALSE, period_ending=FALSE, out_vars=outs)
        q = Prog(Config(forcing_extra=tuple(extra), **kk))
        mine = tuple(v for v in extra if v not in absent)
        k = dict(kk, fmt=fmt, chunks=chunks or {}, forcing_extra=mine, mask_dims=md)
        names = [v for v in ('t_max', 'prec') + mine + ('t_min',) if v not in absent]
        if fmt == 'ascii':
            k.update(files=FILES, decl=[(v, v) for v in names])
        cfg = File(form, **k) if form else Dict(**k)
        cfg.consts = consts
        if fmt != 'ascii':
            cfg.forc = {m: x for m, x in cfg.forc.items() if m not in absent}
        n, refs = 3, []
        kw = dict(n_days=n, ts=1440 if kind == 'daily' else 360, lats=LATS, lons=LONS)
        # the reference first: variables know their dimensions of the last configuration only
        for seed in range(3):
            data = {v: forcing(v, n, whole) for v in set(names) | set(q.cfg.forc)}
            mask = np.ones((2, 2))
            if seed == 1:
                mask[0, 1] = 0

            def given(e):
                for v, x in q.cfg.forc.items():
                    a = e.arrays[('file(cfg_forcing)', x)]
                    a[5:5 + n] = consts[v] if v in consts else data[v]
                e.arrays[('file(cfg_domain)', 'D_mask')] = mask
                e.memo = {}
            try:
                e, b = world(q, seed, None, dict(cfg_chunk_lat=1.0 + seed % 2, cfg_chunk_lon=1.0), given, **kw)
            except Exception as x:
                refs.append((x, data, mask, None, None))
                continue
            refs.append((b, data, mask, e.arrays[('file(cfg_domain)', 'D_elev')],
                         {x: a for x, a in e.arrays.items() if x[0] == 'file(cfg_state)'}))
        p = Prog(cfg)
        if p.died:
            c.add('runs', 'violated', RULE, 'structure', '', 'a run with constants %s fails: %s' % (consts, p.err))
            return c
        ts = {v: Tries(c, v, RULE, wrote(p, v)) for v in outs}
        for seed, (b, data, mask, elev, state) in enumerate(refs):
            def own(e):
                if fmt == 'ascii':
                    e.files = {'txt_cfg_forcing/' + x: np.stack([data[v][:, i, j] for v in names], axis=1) for x, (i, j) in CELLS.items()}
                else:
                    for v, x in p.cfg.forc.items():
                        a = e.arrays[('file(cfg_forcing)', x)]
                        a[5:5 + n] = data[v] if v not in consts or seed == 0 else np.nan if seed == 1 and not whole else data[v] * 0 - 99
                        if whole:
                            a[:] = np.rint(a)
                    e.ints = set(p.cfg.forc.values()) if whole else set()
                if md == ('lon', 'lat'):
                    e.arrays[('file(cfg_domain)', 'D_elev')] = elev.T
                elif md == ('lat', 'lon'):
                    e.arrays[('file(cfg_domain)', 'D_elev')] = elev
                e.arrays[('file(cfg_domain)', 'D_mask')] = mask.T if md == ('lon', 'lat') else mask
                for x in state:
                    e.arrays[x] = state[x]
                e.memo = {}
            try:
                if isinstance(b, Exception):
                    raise b
                e, a = world(p, seed, None, dict(cfg_chunk_lat=1.0 + seed % 2, cfg_chunk_lon=1.0), own, **kw)
            except Bad as x:
                for t in ts.values():
                    t.at = x.at
                    t.run(lambda: str(x), 'seed %d' % seed)
                continue
            except (Undecided, Unknown) as x:
                for t in ts.values():
                    t.why = str(x)
                continue
            for v, t in ts.items():
                def one():
                    x, y = assembled(a, 'N_' + v)[1], assembled(b, 'N_' + v)[1]
                    if tuple(next(iter(a.values())).vars['N_' + v].dims)[1:] != ('lat', 'lon'):
                        x = np.swapaxes(x, 1, 2)
                    if not same_grid(x, y, 1e-7):
                        return differ(x, y)
                t.run(one, 'constants %s, seed %d' % (consts, seed))
        for t in ts.values():
            t.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []

    def add_(fmt, form, name, kind, **k):
        consts = PASS.get(name) or SETS[name]
        label = ' '.join(x for x in (fmt, form, name, kind, 'chunks' if k.get('chunks') else '', 'integers' if k.get('whole') else '',
                                     'lon lat' if k.get('md') else '', 'without ' + ' '.join(k['absent']) if k.get('absent') else '') if x)
        r.append((label, case(label, fmt, form, consts, kind, method='passthrough' if name in PASS else 'mtclim', **k)))
    for name in SETS:
        add_('netcdf', None, name, 'daily')
    for fmt in ('netcdf', 'data', 'ascii'):
        for form in (None, 'ini', 'yaml'):
            if fmt == 'data' and form:
                continue
            add_(fmt, form, 'several', 'daily', chunks=CK)
            add_(fmt, form, 'temperatures', 'sub')
            add_(fmt, form, 'wind', 'sub', absent=('wind',))
            if form is None:
                add_(fmt, form, 'all but one', 'daily', absent=('t_min',))
            if fmt != 'ascii':
                add_(fmt, form, 'mixed', 'sub')
                add_(fmt, form, 'shortwave', 'daily')
    for fmt in ('netcdf', 'data'):
        add_(fmt, None, 'several', 'daily', whole=True)
        add_(fmt, None, 'mixed', 'sub', whole=True, chunks=CK)
        add_(fmt, None, 'temperatures', 'daily', md=('lon', 'lat'))
    return r
