"""Chunks tile the domain exactly."""
from ..world import *
LEVEL = 'other'
SYMS = {'lat': 'cfg_chunk_lat', 'lon': 'cfg_chunk_lon'}


def chunked(dims, text=False):
    return {d: sym(SYMS[d], 'int') for d in dims}


def coverage(p, e, files, name):
    for f in files.values():
        v = f.vars.get('N_' + name)
        if v is None or v.n is None:
            return 'nothing is written to %s' % f.path
        if v.a.shape[1:] != (len(e.lats), len(e.lons)):
            return 'the variable has shape %s' % (v.a.shape,)
        n = v.n
        if n.min() < 1 or n.max() > 1:
            k = np.argwhere(n != 1)[0]
            return 'cell (%d, %d) of %d x %d is written by %d chunks' % (k[1], k[2], len(e.lats), len(e.lons), n[tuple(k)])
        if np.isnan(v.a).any():
            k = np.argwhere(np.isnan(v.a))[0]
            return 'cell (%d, %d) is left without a value' % (k[1], k[2])
    return None


def case(dims, sizes, chunks, text=False):
    def f():
        c = Checker('chunks of %s%s' % (' and '.join(dims) or 'nothing', ' as text' if text else ''))
        if text:
            progs = [({d: k for d in dims}, Prog(Config(ts='daily', out_vars=['t_min'], utc=FALSE, period_ending=FALSE,
                                                        chunks={d: const(str(k)) for d in dims}))) for k in chunks]
        else:
            progs = [(None, Prog(Config(ts='daily', out_vars=['t_min'], utc=FALSE, period_ending=FALSE,
                                        chunks=chunked(dims))))]
        t = Tries(c, 'coverage', 'the pieces cover every cell exactly once', wrote(progs[0][1], 't_min'))
        for ks, p in progs:
            for nlat in sizes:
                for nlon in sizes:
                    for a in (chunks if 'lat' in dims and ks is None else [0]):
                        for b in (chunks if 'lon' in dims and ks is None else [0]):
                            def one():
                                lats, lons = [40.0 + i for i in range(nlat)], [-120.0 + i for i in range(nlon)]

                                def ones(e):
                                    e.lats, e.lons = lats, lons
                                    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((nlat, nlon))
                                e, fs = world(p, 0, sets=dict(cfg_chunk_lat=float(a), cfg_chunk_lon=float(b)), edit=ones,
                                              n_days=1, lats=lats, lons=lons)
                                return coverage(p, e, fs, 't_min')
                            t.run(one, 'domain %d x %d, chunks %s' % (nlat, nlon, ks or {d: {'lat': a, 'lon': b}[d]
                                                                                          for d in dims}))
            c.saw(p)
        t.done()
        return c
    return f


def tasks(tier, seed):
    m = 4 if tier == 'quick' else 7
    s, k = range(1, m + 1), range(1, m + 2)
    return [('lat lon', case(('lat', 'lon'), s, k)), ('lon lat', case(('lon', 'lat'), s, k)),
            ('lat', case(('lat',), range(1, 8), range(1, 10))), ('lon', case(('lon',), range(1, 8), range(1, 10))),
            ('none', case((), range(1, 6), [0])),
            ('text', case(('lat', 'lon'), s, (1, 2, 3, 5), True))]
