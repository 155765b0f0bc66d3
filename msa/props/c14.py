"""Runs in one process are independent."""
from ..world import *
from ..harness import FileConfig
from .c06 import UNITS, DAILY, SUB
LEVEL = 'other'
RULE = 'an earlier run in the process influences neither values, variable names nor metadata of a later one'
TABLES = [('metsim.metsim', n) for n in ('attrs', 'available_outputs', 'default_outputs')] + [
    ('metsim.units', 'converters')]


def other_units(names, k):
    r = {}
    for v in names:
        u = sorted(UNITS[v])
        r[v] = u[k % len(u)]
    return r


class Named(Config):
    """Output names of its own."""

    def values(self, I, h):
        p = Config.values(self, I, h)
        ov = {const(v): I.dict_(dict([(const('out_name'), const('X_%s' % v))] + (
            [(const('units'), const(self.units[v]))] if v in self.units else []))) for v in self.out_vars}
        I.lib.dict_set(I, p, const('out_vars'), I.dict_(ov))
        return p


class Plain(Config):
    """Output variables given by name only."""

    def values(self, I, h):
        p = Config.values(self, I, h)
        ov = {const(v): I.dict_({const('out_name'): const('N_' + v)}) for v in self.out_vars}
        I.lib.dict_set(I, p, const('out_vars'), I.dict_(ov))
        return p


def histories():
    return [
        ('other units and names', [lambda: Named(ts='sub', out_vars=SUB, forcing_extra=('wind',), units=other_units(SUB, 0))]),
        ('daily with other units', [lambda: Named(ts='daily', out_vars=DAILY, forcing_extra=('wind',),
                                                  units=other_units(DAILY, 1))]),
        ('other settings', [lambda: Named(ts='sub', out_vars=SUB, forcing_extra=('wind', 'shortwave', 'tskc'), utc=TRUE,
                                          period_ending=TRUE, method='passthrough', prec_type='mix', lw_type='prata',
                                          lw_cloud='cloud_deardorff', out_freq='D', out_precision='f8',
                                          time_units=None, chunks={'lat': num(1)}, lapse_rate=num(0.005),
                                          tday_coef=num(0.3), rain_scalar=num(0.5), sw_prec_thresh=num(2),
                                          tmax_daylength_fraction=num(0.5), verbose=num(10))]),
        ('two others', [lambda: Named(ts='daily', out_vars=DAILY[:3], units=other_units(DAILY[:3], 0), out_freq='MS'),
                        lambda: Named(ts='sub', out_vars=SUB[:4], units=other_units(SUB[:4], 2), utc=TRUE)]),
        ('constants', [lambda: Constants(ts='sub', out_vars=['prec', 'temp'])]),
    ]


class Constants(Config):
    def values(self, I, h):
        p = Config.values(self, I, h)
        I.lib.dict_set(I, p, const('constant_vars'), I.dict_({const('wind'): num(2), const('t_min'): num(-3),
                                                              const('t_max'): num(3)}))
        return p


def tables(p):
    """Addresses of the objects in the package's tables and defaults -> name."""
    I = p.I
    r = {}

    def walk(v, name):
        v = I.resolve(v)
        if isinstance(v, Ref) and v.a not in r:
            r[v.a] = name
            o = I.get(v)
            if isinstance(o, DictO):
                for k, x in o.items.items():
                    walk(x, '%s[%s]' % (name, show(k) if isinstance(k, T) else k))
            elif isinstance(o, ListO):
                for s in o.segs:
                    if s[0] == 'v':
                        walk(s[1], name)
        elif isinstance(v, Tup):
            for x in v.items:
                walk(x, name)
    for m, n in TABLES:
        try:
            walk(I.mod_attr(m, n), n)
        except Exception:
            pass
    try:
        cls = I.mod_attr('metsim.metsim', 'MetSim')
        r[cls.a] = 'MetSim'
        for k, v in I.get(cls.a).attrs.items():
            walk(v, 'MetSim.' + k)
    except Exception:
        pass
    return r


def untouched(c, p, name):
    t = tables(p)
    for e in p.all('gmut'):
        if e['obj'] in t:
            return c.fact(name, False, 'a run leaves the package defaults and tables as they were', e['at'],
                          '%s is changed' % t[e['obj']])
    c.fact(name, True, 'a run leaves the package defaults and tables as they were')


def same_files(a, b):
    if set(a) != set(b):
        return 'files %s instead of %s' % (sorted(a), sorted(b))
    for f in a:
        x, y = a[f], b[f]
        k = [k for k in set(x.attrs) | set(y.attrs) if not alike(x.attrs.get(k), y.attrs.get(k))]
        if k:
            k = k[0]
            return 'global attribute %s is %r instead of %r' % (k, x.attrs.get(k), y.attrs.get(k))
        if set(x.vars) != set(y.vars):
            return 'variables %s instead of %s' % (sorted(x.vars), sorted(y.vars))
        if x.dims != y.dims:
            return 'dimensions %s instead of %s' % (x.dims, y.dims)
        for n in y.vars:
            u, v = x.vars[n], y.vars[n]
            if u.dims != v.dims or not equal_dtype(u.dtype, v.dtype):
                return '%s is %s %s instead of %s %s' % (n, u.dtype, u.dims, v.dtype, v.dims)
            for k in sorted(set(u.attrs) | set(v.attrs)):
                if not alike(u.attrs.get(k), v.attrs.get(k)):
                    return 'attribute %s of %s is %r instead of %r' % (k, n, u.attrs.get(k), v.attrs.get(k))
            if (u.a is None) != (v.a is None) or u.a is not None and not same_grid(u.a, v.a):
                return '%s: %s' % (n, differ(u.a, v.a) if u.a is not None and v.a is not None else 'not written')
    return None


def alike(a, b):
    return a == b or a != a and b != b


def equal_dtype(a, b):
    return a is b or isinstance(a, T) and isinstance(b, T) and equal(a, b)


def case(kind, what, hist, tier):
    def f():
        c = Checker('%s after %s' % (kind, what))
        names = DAILY if kind == 'daily' else SUB
        mk_ = lambda: Plain(ts=kind, out_vars=names, forcing_extra=('wind',))
        q = Prog(mk_())
        p = Prog(mk_(), before=[b() for b in hist])
        for v in names:
            c.eq(v, p, lambda: p.val(v), lambda: q.val(v), RULE)
        t = Tries(c, 'files', RULE, 'MetSim.setup_netcdf_output')
        for seed in (0, 1):
            def one():
                sets = dict(cfg_pe=bool(seed), cfg_utc=bool(seed))
                kw = dict(n_days=2, lats=(48.25,), lons=(-121.3125,))
                return same_files(world(p, seed, ['N_prec', 'N_t_min'], sets, ones, **kw)[1],
                                  world(q, seed, ['N_prec', 'N_t_min'], sets, ones, **kw)[1])
            t.run(one, 'seed %d' % seed)
        t.done()
        untouched(c, p, 'tables')
        c.saw(p, q)
        return c
    return f


def ones(e):
    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((1, 1))


def from_files():
    """Histories of runs read from configuration files."""
    def f(form, units=None, style='section', names=None, kind='sub', **k):
        n = names or (SUB if kind == 'sub' else DAILY)
        return lambda: FileConfig(form, ts=kind, out_vars=n, forcing_extra=('wind',), units=units or {}, out_style=style, **k)
    plain = lambda kind: (lambda: Plain(ts=kind, out_vars=SUB if kind == 'sub' else DAILY, forcing_extra=('wind',)))
    for form in ('ini', 'yaml'):
        for before in ('ini', 'yaml'):
            for kind in ('sub', 'daily'):
                n = SUB if kind == 'sub' else DAILY
                for style in ('list', 'section') if before == 'ini' else ('section',):
                    yield '%s file (%s) after %s file with a %s of outputs' % (form, kind, before, style), f(
                        form, kind=kind, style='list' if form == 'ini' else 'section'), [
                        f(before, other_units(n, 1) if before == 'yaml' else None, style, utc=TRUE, kind=kind)]
                    yield 'dictionary (%s) after %s file with a %s of outputs' % (kind, before, style), plain(kind), [
                        f(before, other_units(n, 1) if before == 'yaml' else None, style, utc=TRUE, kind=kind)]
        for kind in ('sub', 'daily'):
            n = SUB if kind == 'sub' else DAILY
            yield '%s file (%s) after dictionary' % (form, kind), f(form, kind=kind, style='list' if form == 'ini' else 'section'), [
                lambda: Named(ts=kind, out_vars=n, forcing_extra=('wind',), units=other_units(n, 0))]


def file_case(what, later, earlier):
    def f():
        c = Checker(what)
        q, p = Prog(later()), Prog(later(), before=[b() for b in earlier])
        t = Tries(c, 'files', RULE, 'metsim.io.read_config')
        kw = dict(n_days=2, lats=(48.25,), lons=(-121.3125,))
        t.run(lambda: same_files(*[world(x, 0, ['N_prec', 'N_t_min'], dict(cfg_pe=False, cfg_utc=False), ones, **kw)[1]
                                   for x in (p, q)]), 'seed 0')
        t.done()
        untouched(c, p, 'tables')
        c.saw(p, q)
        return c
    return f


def tasks(tier, seed):
    return [(w, file_case(w, a, b)) for w, a, b in from_files()] + [('%s %s' % (k, w), case(k, w, h, tier)) for k in ('daily', 'sub') for w, h in histories()]
