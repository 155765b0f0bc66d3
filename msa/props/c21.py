"""Maximum below minimum temperature is refused."""
from ..world import *
from ..harness import FileConfig
from .c10 import truth_
LEVEL = 'other'
RULE = 'a chunk with a maximum below the minimum temperature raises an error before any of its values is written'
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
LATS, LONS = (48.25, -33.75), (-121.3125, 251.1875)


def strict(e, r):
    """Iterations of the loops around event r in which it happens."""
    for env, pos in unroll(e, r['loops'], once=True):
        ok = True
        for t in r['pc']:
            v = e.ev(t, env)
            if not truth(v):
                ok = False
                break
        if ok:
            yield pos


def outcome(p, e):
    """Iterations (of the chunk loop) with an error, with where it is raised: pos -> event."""
    bad = {}
    for r in p.all('raise'):
        if r['caught']:
            continue
        for pos in strict(e, r):
            bad.setdefault(pos[:1] if r['loops'] else (), r)
    return bad


def writes(p, e):
    """Iterations of the chunk loop -> the first value event."""
    w = {}
    for ev in p.all('nc_write'):
        if is_str(ev['var']) and str(ev['var'].args[0]).startswith('N_'):
            w.setdefault('first', ev)
    return w.get('first')


def edits(cfg, n_days, seeds):
    """(what, edit, is the input bad, cells)"""
    f = 'file(cfg_forcing)'

    def put(day, i, j, d):
        def g(e):
            tmin, tmax = e.arrays[(f, 'F_tmin')].copy(), e.arrays[(f, 'F_tmax')].copy()
            tmax[:] = np.maximum(tmax, tmin)
            k = 5 + day
            tmax[k, i, j] = tmin[k, i, j] + d
            e.arrays[(f, 'F_tmin')], e.arrays[(f, 'F_tmax')] = tmin, tmax
            e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((2, 2))
            e.memo = {}
        return g
    for day in range(n_days):
        for i, j in ((0, 0), (1, 1), (0, 1)):
            for d in (-0.001, -5.0):
                yield 'maximum %g C below the minimum on day %d at cell (%d, %d)' % (-d, day, i, j), put(day, i, j, d), True, (i, j)
    yield 'equal extremes', put(0, 0, 0, 0.0), False, None
    yield 'valid input', put(n_days - 1, 1, 1, 3.0), False, None


def case(kind, what, k, tier, form=None):
    def f():
        c = Checker('%s %s' % (kind, what))
        kk = dict(ts=kind, out_vars=['prec', 'wind'], forcing_extra=('wind', 'shortwave'), **k)
        p = Prog(FileConfig(form, **kk) if form else Config(**kk))
        t = Tries(c, 'refused', RULE, 'MetSim._aggregate_state')
        u = Tries(c, 'valid input runs', 'extremes in order are not refused', 'MetSim._aggregate_state')
        if p.err and not p.died:
            c.add('refused', 'undecided', RULE, detail=p.err)
            return c
        n = 3
        for a in ((1, 1), (2, 1)) if 'chunks' in k else ((1, 1),):
            for desc, edit, bad, cell in edits(p.cfg, n, 1):
                e = V.whole(p.cfg, 1, 1440 if kind == 'daily' else 360, n_days=n, start=(2001, 2, 26), lats=LATS, lons=LONS)
                if p.cfg.start == 'forcing':
                    desc0 = desc
                e.syms.update(cfg_chunk_lat=float(a[0]), cfg_chunk_lon=float(a[1]), cfg_pe=False, cfg_utc=False)

                def one():
                    edit(e) if p.cfg.start != 'forcing' else shifted(edit, e)
                    o = outcome(p, e)
                    w = writes(p, e)
                    if bad:
                        if not o:
                            return '%s is not refused' % desc
                        pos, r = sorted(o.items(), key=lambda x: x[0])[0]
                        if w is not None and r['seq'] > w['seq']:
                            return '%s is refused (%s) only after values are written at %s' % (desc, r['at'], w['at'])
                        if 'chunks' in k:
                            nlat = -(-2 // a[0])
                            nlon = -(-2 // a[1])
                            piece = (cell[0] // a[0]) * nlon + cell[1] // a[1]
                            if set(o) != {(piece,)} and set(o) != {()}:
                                return '%s is refused in the chunks %s instead of %d' % (desc, sorted(o), piece)
                    elif o:
                        r = list(o.values())[0]
                        return '%s is refused: %s at %s' % (desc, r['exc'], r['at'])
                (t if bad else u).run(one, 'chunks %s' % (a,) if 'chunks' in k else 'whole domain')
        t.done()
        u.done()
        c.saw(p)
        return c
    return f


def shifted(edit, e):
    """The forcing has no days before the start."""
    f = 'file(cfg_forcing)'
    keep = {}
    for v in ('F_tmin', 'F_tmax'):
        x = e.arrays[(f, v)]
        keep[v] = x
        e.arrays[(f, v)] = np.concatenate([x[:1]] * 5 + [x])
    edit(e)
    for v in keep:
        e.arrays[(f, v)] = e.arrays[(f, v)][5:]


def tasks(tier, seed):
    r = []
    for kind in ('daily', 'sub'):
        for what, k, form in (
                ('mtclim', {}, None), ('passthrough', dict(method='passthrough'), None),
                ('data', dict(fmt='data'), None), ('data in chunks', dict(fmt='data', chunks=CK), None),
                ('chunks', dict(chunks=CK), None), ('triangle', dict(prec_type='triangle'), None),
                ('passthrough chunks', dict(method='passthrough', chunks=CK), None),
                ('daily files', dict(out_freq='D'), None), ('forcing period', dict(start='forcing'), None),
                ('ini', {}, 'ini'), ('yaml', {}, 'yaml'), ('utc', dict(utc=TRUE, period_ending=TRUE), None)):
            r.append(('%s %s' % (kind, what), case(kind, what, k, tier, form)))
        r.append(('constant %s' % kind, constant(kind)))
    return r


class Constant(Config):
    def values(self, I, h):
        p = Config.values(self, I, h)
        I.lib.dict_set(I, p, const('constant_vars'), I.dict_({const(k): num(v) for k, v in self.consts.items()}))
        return p


def constant(kind):
    def f():
        c = Checker('%s constant temperatures' % kind)
        for consts in ({'t_max': 4}, {'t_min': 2}, {'t_max': 3, 't_min': 5}, {'t_max': 5, 't_min': 3}, {'t_min': 5, 't_max': 5}):
            cfg = Constant(ts=kind, out_vars=['prec', 'wind'], forcing_extra=('wind',), period_ending=FALSE, utc=FALSE)
            cfg.consts = consts
            p = Prog(cfg)
            t = Tries(c, str(consts), RULE, 'MetSim._aggregate_state')
            for seed in range(4):
                def one():
                    if p.err and not p.died:
                        raise Undecided(p.err)
                    e = V.whole(p.cfg, seed, 1440 if kind == 'daily' else 360, n_days=3, start=(2001, 2, 26), lats=LATS, lons=LONS)
                    f = 'file(cfg_forcing)'
                    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((2, 2))
                    if seed == 3:
                        e.arrays[(f, 'F_tmin')] = np.minimum(e.arrays[(f, 'F_tmin')], 1)
                        e.arrays[(f, 'F_tmax')] = np.maximum(e.arrays[(f, 'F_tmax')], 6)
                    lo = consts.get('t_min', e.arrays[(f, 'F_tmin')][5:8])
                    hi = consts.get('t_max', e.arrays[(f, 'F_tmax')][5:8])
                    bad = bool(np.any(np.asarray(hi) < np.asarray(lo)))
                    o = outcome(p, e)
                    if bad and not o:
                        return 'constant %s above or below the forcing is not refused' % consts
                    if not bad and o:
                        x = list(o.values())[0]
                        return 'valid constants are refused: %s at %s' % (x['exc'], x['at'])
                t.run(one, 'seed %d' % seed)
            t.done()
            c.saw(p)
        return c
    return f
