"""Exactly the masked-in cells are computed."""
from ..world import *
from .c06 import DAILY, SUB
LEVEL = 'other'
RULE = 'a cell is computed exactly when its mask value is positive, all others are missing in every variable'
LATS, LONS = (48.25, -33.75, 10.0), (-121.3125, 100.5, 251.1875)
MASKS = [
    [[1, 0, -1], [float('nan'), 0.5, 2], [0, 1, 0.01]],
    [[0, 0, 0], [0, 0, 1], [float('nan'), float('nan'), 0]],
    [[-0.5, 1, -2], [1, -1, 1], [3, float('nan'), -0.01]],
    [[100, 0, 0], [0, 0, 0], [0, 0, 0]],
]
SHAPES = {'': {}, 'lon lat': dict(mask_dims=('lon', 'lat')), 'time lon lat': dict(forc_dims=('lon', 'lat')),
          'lon lat throughout': dict(mask_dims=('lon', 'lat'), forc_dims=('lon', 'lat')),
          'units': dict(mask_dims=('hru',), forc_dims=('hru',)),
          'units without coordinate': dict(mask_dims=('hru',), forc_dims=('hru',))}
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}


def masked(m):
    def edit(e):
        e.arrays[('file(cfg_domain)', 'D_mask')] = np.array(m, dtype=float)
    return edit


def case(kind, name, chunks, tier, method='mtclim', shape='', **k):
    def f():
        c = Checker('%s %s%s%s' % (kind, name, ' chunked' if chunks else '', ' ' + describe(k) if k else '') + (' ' + shape if shape else ''))
        h = Harness()
        h.no_coord = ('hru',) if 'without' in shape else ()
        ck = {} if not chunks else {'hru': CK['lat']} if 'units' in shape else CK
        p = Prog(Config(ts=kind, forcing_extra=('wind',) + (('shortwave',) if method == 'passthrough' else ()),
                        method=method, out_vars=[name, 't_min' if kind == 'daily' else 'wind'], chunks=ck,
                        **SHAPES[shape], **k), h)
        n_days = 2
        place = not chunks and 'out_freq' not in k
        t = Tries(c, 'cells', RULE, wrote(p, name))
        u = Tries(c, 'place', 'a result is written at the location its inputs were read from', wrote(p, name))
        todo = [(m, a, b) for m in MASKS for a, b in (((1, 1), (2, 2), (3, 1)) if chunks else ((1, 1),))]
        for q, (m, a, b) in enumerate(todo):
            sets = dict(cfg_chunk_lat=float(a), cfg_chunk_lon=float(b), cfg_pe=bool(q % 2), cfg_utc=bool(q & 2))
            kw = dict(n_days=n_days, lats=LATS, lons=LONS, no_coord=h.no_coord)
            m = np.array(m, dtype=float).reshape(-1 if 'units' in shape else (3, 3))
            try:
                e, fs = world(p, q, None, sets, masked(m), **kw)
            except (Undecided, Unknown, Bad) as x:
                t.run(lambda: raise_(x), 'mask %s' % m.tolist())
                continue
            for v in {name, 't_min' if kind == 'daily' else 'wind'}:
                def one():
                    _, g = assembled(fs, 'N_' + v)
                    if g.shape[1:] != m.shape:
                        return '%s has shape %s for a mask of shape %s' % (v, g.shape, m.shape)
                    for k, x in np.ndenumerate(m):
                        has = ~np.isnan(g[(slice(None),) + k])
                        if x > 0 and not has.all():
                            return '%s of the cell with mask %s is missing' % (v, x)
                        if not x > 0 and has.any():
                            return '%s of the cell with mask %s is %.6g' % (v, x, g[(slice(None),) + k][has][0])
                t.run(one, 'mask %s chunks %d x %d' % (m.tolist(), a, b))

            def two():
                _, g = assembled(fs, 'N_' + name)
                val = p.val(name)
                for q, (k, y) in enumerate(np.ndenumerate(m)):
                    if y > 0:
                        e.syms['cell'], e.memo = float(q), {}
                        w = np.asarray(e(val))
                        x = g[(slice(None),) + k]
                        if x.shape != w.shape or not same_grid(x, w):
                            return 'cell %s has %.6g.. where its inputs give %.6g..' % (k, x[0], w[0])
            if place:
                u.run(two, 'mask %s' % m.tolist())
        t.done()
        if place:
            u.done()
        c.saw(p)
        return c
    return f


def raise_(x):
    raise x


def tasks(tier, seed):
    r = []
    for ch in (False, True):
        for kind, names in (('daily', DAILY), ('sub', SUB)):
            for v in names:
                if ch and v not in ('prec', 't_max', 'wind') and tier == 'quick':
                    continue
                r.append(('%s %s %s' % (kind, v, ch), case(kind, v, ch, tier)))
    for sh in SHAPES:
        for kind, v in (('daily', 't_max'), ('sub', 'prec')) if tier == 'quick' else (
                [('daily', x) for x in DAILY] + [('sub', x) for x in SUB]):
            for ch in (False, True):
                if sh:
                    r.append(('%s %s %s %s' % (sh, kind, v, ch), case(kind, v, ch, tier, shape=sh)))
    r.append(('passthrough', case('daily', 'shortwave', False, tier, 'passthrough')))
    for fq in ('D', 'MS'):
        r.append(('split ' + fq, case('sub', 'prec', False, tier, out_freq=fq)))
    return r
