"""Mappings of the configuration name the data each model variable is taken from."""
from ..world import *
from ..harness import FileConfig
from .. import harness as hs
from ..terms import subst, subterms
LEVEL = 'other'
RULE = 'a model variable takes its data from exactly the input variable declared for it'
MATCH = 'data are matched to the domain by coordinate, wherever the cells lie in the files'
ONLY = 'no variable is read that is not declared'
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
# the names in the data are names of other model variables
CROSS = {'forcing': {'prec': 't_max', 't_min': 'prec', 't_max': 'wind', 'wind': 't_min'},
         'domain': {'elev': 'mask', 'mask': 'elev', 'dur': 't_pk', 't_pk': 'dur'},
         'state': {'prec': 't_min', 't_min': 't_max', 't_max': 'prec'}, 'more': ('t_day', 'dtr', 'elev')}
# undeclared variables carry the names of model variables
DECOY = {'more': ('prec', 't_min', 't_max', 'wind', 'elev', 'tskc', 'shortwave')}
DAILY = ['t_min', 't_max', 'prec', 'wind', 'shortwave', 'tskc', 'vapor_pressure', 'pet']
SUB = ['temp', 'prec', 'wind', 'shortwave', 'air_pressure', 'longwave']
CARRIED = {'t_min', 't_max', 'prec', 'wind', 'shortwave'}


def mapping(p):
    """Variables of the files: declared name -> standard name."""
    f, d, s = (mk('file', x) for x in (hs.FORCING, hs.DOMAIN, hs.STATE))
    c = p.cfg
    r = {}
    for m, n in c.forc.items():
        r[(f, n)] = hs.FORC.get(m, 'F_' + m)
    for m, n in c.sta.items():
        r[(s, n)] = hs.STA[m]
    std = dict(hs.DOM, dur='D_dur', t_pk='D_tpk')
    for m, n in c.dom().items():
        if m in std and m not in ('lat', 'lon'):
            r[(d, n)] = std[m]
    return r


def standard(p):
    m = {}
    for (b, n), x in mapping(p).items():
        v = mk('var', b, const(x))
        old = mk('var', b, const(n))
        ops.VARDIMS.setdefault(v, ops.VARDIMS.get(old))
        m[old] = v
    return m


def undeclared(p, t):
    ok = set(mapping(p)) | {(mk('file', x), c) for x in (hs.FORCING, hs.DOMAIN, hs.STATE)
                            for c in ('lat', 'lon', 'time', 'hru', 'month')}
    dom = p.cfg.dom()
    ok |= {(mk('file', hs.DOMAIN), dom['lat']), (mk('file', hs.DOMAIN), dom['lon'])}
    for x in subterms(t):
        if x.op == 'var' and x.args[0].op == 'file' and is_str(x.args[1]):
            if (x.args[0], x.args[1].args[0]) not in ok:
                return '%s of %s' % (x.args[1].args[0], show(x.args[0], 3))


def names_case(label, kind, form, k, names):
    def f():
        c = Checker(label)
        outs = DAILY if kind == 'daily' else SUB
        kk = dict(ts=kind, out_vars=outs, forcing_extra=('wind',) + (('shortwave',) if k.get('method') == 'passthrough' else ()), **k)
        q = Prog(Config(**kk))
        p = Prog((lambda **z: FileConfig(form, **z) if form else Config(**z))(names=names, **kk))
        if p.died:
            c.add('runs', 'violated', RULE, 'structure', '', 'a configuration with names that are used for other variables fails: ' + p.err)
            return c
        sub_ = standard(p)
        for v in outs:
            c.eq(v, q, lambda: subst(p.val(v), sub_), lambda: q.val(v), RULE, seeds=(0, 1), cells=(0, 3))

            def only():
                u = undeclared(p, p.val(v))
                c.fact(v + ' only declared', not u, ONLY, at=wrote(p, 'prec'), detail='%s is read' % u)
            c.guard(v + ' only declared', ONLY, only)
            if kind == 'daily' and v in CARRIED and v in q.cfg.forc:
                c.eq(v + ' from the forcing', q, lambda: q.val(v), lambda: q.inp(v), RULE, seeds=(0, 1), cells=(0, 3))
        c.saw(p)
        return c
    return f


def scramble(cfg, q):
    """Forcing and state files with more cells than the domain, in another order."""
    def edit(e):
        r = np.random.RandomState(q)
        for b in ('file(cfg_forcing)', 'file(cfg_state)'):
            dims = ('time',) + cfg.forc_dims
            for ax, d in enumerate(dims):
                if d == 'time':
                    continue
                old = e.arrays[(b, d)]
                more = {'lat': np.array([71.5, -60.25, 2.0]), 'lon': np.array([-7.5, 33.0]), 'hru': np.array([101.0, 0.5, 77.0])}[d]
                new = np.concatenate([old, more])
                order = r.permutation(len(new)) if q else np.argsort(-new)
                e.arrays[(b, d)] = new[order]
                for k in list(e.arrays):
                    a = e.arrays[k]
                    if k[0] == b and a.ndim == len(dims):
                        pad = list(a.shape)
                        pad[ax] = len(more)
                        x = r.uniform(-3, 40, pad)
                        e.arrays[k] = np.take(np.concatenate([a, x], axis=ax), order, axis=ax)
        e.memo = {}
    return edit


def match_case(label, kind, form, k):
    def f():
        c = Checker(label)
        outs = ['prec', 't_min', 'tskc', 'wind'] if kind == 'daily' else ['temp', 'prec', 'shortwave', 'wind']
        h = Harness()
        h.no_coord = ()
        kk = dict(ts=kind, out_vars=outs, forcing_extra=('wind',) + (('shortwave',) if k.get('method') == 'passthrough' else ()), **k)
        p = Prog(FileConfig(form, **kk) if form else Config(**kk), h)
        if p.died:
            c.add('runs', 'violated', MATCH, 'structure', '', p.err)
            return c
        ts = {v: Tries(c, v, MATCH, wrote(p, v)) for v in outs}
        sets = [dict(cfg_chunk_lat=float(a), cfg_chunk_lon=float(b), cfg_pe=u, cfg_utc=u) for a, b, u in ((1, 1, False), (2, 1, True))]
        for n, s in enumerate(sets):
            kw = dict(n_days=2, ts=1440 if kind == 'daily' else 180, lats=(48.25, -33.75, 10.0), lons=(-121.3125, 251.1875))
            for q in (0, 1, 2):
                try:
                    e, a = world(p, n, None, s, None, **kw)
                    e2, b = world(p, n, None, s, scramble(p.cfg, q), **kw)
                except Bad as x:
                    for t in ts.values():
                        t.run(lambda: str(x), 'larger files, order %d' % q)
                    continue
                except (Undecided, Unknown) as x:
                    for t in ts.values():
                        t.why = str(x)
                    continue
                for v, t in ts.items():
                    def one():
                        x, y = assembled(a, 'N_' + v)[1], assembled(b, 'N_' + v)[1]
                        if not same_grid(x, y):
                            return 'with the data in larger files in another order: ' + differ(y, x)
                    t.run(one, 'seed %d, order %d' % (n, q))
        for t in ts.values():
            t.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []
    for kind in ('daily', 'sub'):
        for what, k in (('mtclim', {}), ('passthrough', dict(method='passthrough')), ('data', dict(fmt='data')),
                        ('triangle', dict(prec_type='triangle')),
                        ('forcing period', dict(start='forcing')),
                        ('data of the forcing period', dict(start='forcing', fmt='data'))):
            if kind == 'daily' and what == 'triangle':
                continue
            for form in (None, 'ini', 'yaml'):
                if form and k.get('fmt') == 'data':
                    continue
                for nm, names in (('crossed names', CROSS), ('decoys', DECOY)):
                    nn = dict(names)
                    k = dict(k, utc=FALSE, period_ending=FALSE) if form else k
                    l = '%s %s %s %s' % (kind, what, form or 'dictionary', nm)
                    r.append((l, names_case(l, kind, form, k, nn)))
        for what, k in (('mtclim', {}), ('data', dict(fmt='data')), ('chunks', dict(chunks=CK)),
                        ('data in chunks', dict(fmt='data', chunks=CK)),
                        ('lon lat forcing', dict(forc_dims=('lon', 'lat'))), ('lon lat domain', dict(mask_dims=('lon', 'lat'))),
                        ('units', dict(mask_dims=('hru',), forc_dims=('hru',))),
                        ('data lon lat', dict(fmt='data', forc_dims=('lon', 'lat'))),
                        ('data in units', dict(fmt='data', mask_dims=('hru',), forc_dims=('hru',))),
                        ('passthrough', dict(method='passthrough')), ('forcing period', dict(start='forcing')),
                        ('data of the forcing period', dict(start='forcing', fmt='data'))):
            l = '%s cells: %s' % (kind, what)
            r.append((l, match_case(l, kind, None, k)))
        for form in ('ini', 'yaml'):
            l = '%s cells: %s' % (kind, form)
            r.append((l, match_case(l, kind, form, {})))
    return r
