"""Each cell depends only on its own data."""
from ..world import *
from .c06 import DAILY, SUB
from .c16 import SHAPES, raise_
LEVEL = 'other'
RULE = 'the values written for a cell do not change when the data of other cells, or which of them are computed, change'
LATS, LONS = (48.25, -33.75), (-121.3125, 100.5, 251.1875)
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}


def disturb(e, cells, shape, rng, what):
    """Other data everywhere but at the given cells (numbers in the order lat, lon)."""
    keep = np.zeros(len(LATS) * len(LONS), dtype=bool)
    keep[list(cells)] = True
    for key, a in list(e.arrays.items()):
        f, v = key
        if v in ('lat', 'lon', 'hru', 'month') or f == 'file(cfg_domain)' and v == 'D_mask' and what != 'mask':
            continue
        if (what == 'mask') != (v == 'D_mask'):
            continue
        md = shape.get('mask_dims' if 'domain' in f else 'forc_dims', ('lat', 'lon'))
        k = keep if md == ('hru',) else keep.reshape(len(LATS), len(LONS))
        k = k.T if md == ('lon', 'lat') else k
        if what == 'mask':
            new = np.where(k, a, np.where(rng.rand(*a.shape) < 0.5, 0, 1))
        elif v in ('D_lat', 'D_lon'):
            new = a * rng.uniform(0.2, 0.9, a.shape)
        elif 'tmin' in v or 'tmax' in v:
            # whole degrees up or down by cell, never below minimum
            sh = rng.randint(-20, 20, a.shape[-k.ndim:])
            if (f, 'shift') not in e.__dict__.setdefault('shifts', {}):
                e.shifts[(f, 'shift')] = sh
            new = a + e.shifts[(f, 'shift')] + (rng.uniform(0, 4, a.shape) if 'tmax' in v else 0)
        elif v == 'F_tskc':
            new = np.clip(a * rng.uniform(0.2, 1.5, a.shape), 0, 1)
        else:
            new = a * rng.uniform(0.2, 1.8, a.shape) + (0 if v in ('D_dur', 'D_tpk') else rng.uniform(0, 3, a.shape))
        if v in ('D_dur', 'D_tpk'):
            new = np.rint(np.clip(new, 60, 900))
        e.arrays[key] = np.where(k, a, new)


def case(kind, names, shape, chunks, tier, method='mtclim', **k):
    def f():
        c = Checker('%s%s%s' % (kind, ' chunked' if chunks else '', ' ' + describe(dict(k, method=method)) if k or method != 'mtclim'
                                else '') + (' ' + shape if shape else ''))
        h = Harness()
        h.no_coord = ('hru',) if 'without' in shape else ()
        ck = {} if not chunks else {'hru': CK['lat']} if 'units' in shape else CK
        extra = ('wind',) + (('shortwave', 'tskc') if method == 'passthrough' else ())
        p = Prog(Config(ts=kind, forcing_extra=extra, method=method, out_vars=list(names), chunks=ck, **dict(SHAPES[shape], **k)), h)
        T = {v: Tries(c, v, RULE, wrote(p, v)) for v in names}
        md = SHAPES[shape].get('mask_dims', ('lat', 'lon'))
        size = (len(LATS), len(LONS))

        def ix(q):
            i, j = divmod(q, size[1])
            return (q,) if md == ('hru',) else (j, i) if md == ('lon', 'lat') else (i, j)
        todo = [(0, 1, 2, 'data', (1,)), (1, 2, 2, 'data', (3, 4)), (2, 1, 3, 'mask', (0, 4))]
        if tier != 'quick':
            todo += [(q, 1 + q % 2, 1 + q % 3, ('data', 'mask')[q % 2], (q % 6,)) for q in range(3, 13)]
        for seed, a, b, what, cells in todo:
            sets = dict(cfg_chunk_lat=float(a), cfg_chunk_lon=float(b), cfg_pe=bool(seed % 2), cfg_utc=bool(seed in (1, 4, 5)))
            kw = dict(n_days=2, lats=LATS, lons=LONS, no_coord=h.no_coord)

            def masks(e):
                e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones_like(e.arrays[('file(cfg_domain)', 'D_mask')])

            def other(e):
                masks(e)
                disturb(e, cells, SHAPES[shape], np.random.RandomState(seed), what)
            memo = []

            def both():
                if not memo:
                    memo.append(world(p, seed, None, sets, masks, **kw)[1])
                    memo.append(world(p, seed, None, sets, other, **kw)[1])
                return memo
            for v in names:
                def one():
                    x, y = [assembled(m, 'N_' + v)[1] for m in both()]
                    for q in cells:
                        at = (slice(None),) + ix(q)
                        if not same_grid(x[at], y[at]):
                            return 'cell %s, %s' % (ix(q), differ(y[at], x[at]))
                T[v].run(one, 'other %s at all cells but %s, seed %d' % (what, [ix(q) for q in cells], seed))
        for t in T.values():
            t.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    g = lambda x, n: [tuple(x[i:i + n]) for i in range(0, len(x), n)]
    r = []
    for kind, names in (('daily', DAILY), ('sub', SUB)):
        for ch in (False, True):
            for n in g(names, 3):
                r.append(('%s %s %s' % (kind, n, ch), case(kind, n, '', ch, tier)))
    r += [('pass daily', case('daily', ('shortwave', 'tskc', 'pet'), '', False, tier, 'passthrough')),
          ('pass sub', case('sub', ('shortwave', 'tskc', 'longwave'), '', True, tier, 'passthrough')),
          ('triangle', case('sub', ('prec',), '', False, tier, prec_type='triangle')),
          ('mix', case('sub', ('prec',), '', True, tier, prec_type='mix'))]
    for sh in SHAPES:
        if sh:
            for ch in (False, True):
                r.append(('%s daily %s' % (sh, ch), case('daily', ('t_min', 'prec', 'shortwave'), sh, ch, tier)))
                r.append(('%s sub %s' % (sh, ch), case('sub', ('temp', 'prec'), sh, ch, tier)))
    return r
