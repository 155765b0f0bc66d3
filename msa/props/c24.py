"""Text and binary forcing decode to the declared variables."""
import struct
import random
from ..world import *
from ..harness import FileConfig
LEVEL = 'other'
BIN = 'the consecutive 16-bit values go cyclically to the declared variables, divided by their scale, signed as declared'
TXT = 'columns go to the variables in the declared order'
CELL = 'the data of a file go to the cell named by the latitude and longitude in its name'
LATS, LONS = (48.25, -33.75), (-121.3125, 251.1875)
# every cell, not in the order of the domain, and files that are not of a cell of the domain
FILES = ['data_-33.75_251.1875', 'data_48.25_-121.3125', 'data_48.25_-120.3125', 'full_data_-33.75_-121.3125',
         'data_48.25_251.1875', 'README', 'data_x_y', 'data_1.5_-121.3125']
CELLS = {'data_-33.75_251.1875': (1, 1), 'data_48.25_-121.3125': (0, 0), 'full_data_-33.75_-121.3125': (1, 0),
         'data_48.25_251.1875': (0, 1)}
DECLS = {
    'usual': [('prec', '40.0 unsigned'), ('t_max', '100.0 signed'), ('t_min', '100.0 signed'), ('wind', '100.0 signed')],
    'three': [('t_min', '10 signed'), ('prec', '1 unsigned'), ('t_max', '64 signed')],
    'five': [('wind', '8 unsigned'), ('tskc', '500.0 unsigned'), ('t_max', '3 signed'), ('prec', '25 unsigned'), ('t_min', '77.5 signed')],
    'six': [('shortwave', '7 unsigned'), ('t_min', '100 signed'), ('t_max', '100 signed'), ('vapor_pressure', '1000 unsigned'),
            ('wind', '1e2 signed'), ('prec', '40 unsigned')],
}
OUT = ('prec', 't_max', 't_min', 'wind')


def record(decl, n, r, fmt):
    """Values of n days: (numbers as in the file, meaning)."""
    raw, mean = [], {v: [] for v, d in decl}
    for k in range(n):
        lo = r.uniform(-300, 30) if fmt == 'binary' and k % 3 == 1 else r.uniform(-20, 10)
        for v, d in decl:
            s = float(d.split()[0]) if fmt == 'binary' else 1.0
            u = fmt == 'binary' and d.split()[-1] == 'unsigned'
            x = {'t_min': lo, 't_max': lo + 20 + r.uniform(0, 9), 'tskc': r.uniform(0, 1), 'vapor_pressure': r.uniform(0.1, 3),
                 'shortwave': r.uniform(10, 400)}.get(v, r.uniform(0, 40))
            if fmt == 'binary':
                # beyond the range of signed numbers for unsigned ones
                m = int(round(x * s))
                if u and v in ('prec', 'wind') and k % 2 == 0:
                    m = r.randint(32768, 65535)
                m = max(0, min(65535, m)) if u else max(-32768, min(32767, m))
            else:
                m = x
            raw.append((m, u))
            mean[v].append(m / s)
    return raw, mean


def contents(decl, n, more, r, fmt):
    raw, mean = record(decl, n, r, fmt)
    extra = record(decl, more, r, fmt)[0] if more else []
    if fmt == 'binary':
        return b''.join(struct.pack('<H' if u else '<h', m) for m, u in raw + extra), mean
    return np.array([m for m, u in raw + extra]).reshape(-1, len(decl)), mean


def case(label, fmt, form, decl, kind='daily', md=('lat', 'lon'), **k):
    decl = DECLS[decl]

    def f():
        c = Checker(label)
        rule = BIN if fmt == 'binary' else TXT
        names = [v for v, d in decl]
        outs = [v for v in OUT if v in names] if kind == 'daily' else ['prec', 'wind']
        d = decl if fmt == 'binary' else [(v, v) for v in names]
        kk = dict(ts=kind, fmt=fmt, out_vars=outs, files=FILES, decl=d, utc=FALSE, period_ending=FALSE, mask_dims=md, **k)
        if 'wind' in names:
            kk['forcing_extra'] = ('wind',)
        p = Prog(FileConfig(form, **kk) if form else Config(**kk))
        if p.died:
            c.add('runs', 'violated', rule, 'structure', '', 'a run with %s files fails: %s' % (fmt, p.err))
            return c
        ts = {v: Tries(c, v, rule + '; ' + CELL, wrote(p, v)) for v in outs}
        for seed, (n, more) in enumerate(((1, 0), (3, 0), (4, 2), (5, 1))):
            r = random.Random(seed)
            files, exp = {}, {v: np.full((n, 2, 2), np.nan) for v in names}
            for name in FILES:
                b, mean = contents(decl, n, more, r, fmt)
                files[name] = b
                if name in CELLS:
                    for v in names:
                        exp[v][(slice(None),) + CELLS[name]] = mean[v]
            mask = np.ones((2, 2))
            if seed == 1:
                mask[0, 1] = 0
            elif seed == 2:
                mask = np.array([[3.0, 0.0], [1.0, 0.5]])
            if fmt == 'ascii':
                files = {x: np.asarray(y) for x, y in files.items()}

            def edit(e):
                e.files = {'txt_cfg_forcing/' + x: y for x, y in files.items()}
                e.arrays[('file(cfg_domain)', 'D_mask')] = mask.T if md == ('lon', 'lat') else mask
                e.memo = {}
            kw = dict(n_days=n, ts=1440 if kind == 'daily' else 360, lats=LATS, lons=LONS)
            sets = dict(cfg_chunk_lat=1.0 + seed % 2, cfg_chunk_lon=1.0)
            try:
                e, a = world(p, seed, None, sets, edit, **kw)
            except Bad as x:
                for t in ts.values():
                    t.at = x.at
                    t.run(lambda: str(x), '%d days' % n)
                continue
            except (Undecided, Unknown) as x:
                for t in ts.values():
                    t.why = str(x)
                continue
            for v, t in ts.items():
                def one():
                    y = assembled(a, 'N_' + v)[1]
                    fv = next(iter(a.values())).vars['N_' + v]
                    want = np.where(mask[None] > 0, exp[v], np.nan)
                    if kind != 'daily':
                        y = y.reshape((n, -1) + y.shape[1:])
                        y = y.sum(axis=1) if v == 'prec' else y.mean(axis=1)
                    if tuple(fv.dims)[1:] != ('lat', 'lon'):
                        y = np.swapaxes(y, 1, 2)
                    if not same_grid(y, want, 1e-6):
                        return differ(y, want)
                t.run(one, '%d days, %d more in the files' % (n, more))
        for t in ts.values():
            t.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []
    ck = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
    for form in (None, 'ini', 'yaml'):
        for decl in DECLS:
            k = dict(method='passthrough') if decl == 'six' else {}
            for fmt in ('binary', 'ascii'):
                for ch in ({}, ck) if decl in ('usual', 'five') else ({},):
                    label = '%s %s%s%s' % (fmt, decl, ' ' + form if form else '', ' chunks' if ch else '')
                    r.append((label, case(label, fmt, form, decl, chunks=ch, **k)))
    for fmt in ('binary', 'ascii'):
        label = fmt + ' sub-daily'
        r.append((label, case(label, fmt, None, 'usual', kind='sub')))
        label = fmt + ' mask lon lat'
        r.append((label, case(label, fmt, None, 'five', md=('lon', 'lat'))))
    return r
