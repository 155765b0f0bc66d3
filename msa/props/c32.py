"""Schema of the output files."""
from ..world import *
from .c16 import SHAPES, LATS, LONS
from .c17 import expected
from ..libio import plain
from ..harness import FileConfig, Harness, CALENDAR
LEVEL = 'other'
VARS = 'a file has exactly one variable of the requested name for each requested variable, and no other data variable'
PREC = 'a variable has the requested precision'
DIMS = 'variables are on time and the dimensions of the domain mask, in order and of their size'
COORD = 'the coordinates of a file are those of the domain'
TIME = 'the times of a file are encoded with the units and the calendar it declares'
DIRS = 'missing output directories are created, with all their parents, before a file is, and existing ones are kept'
ALSO = {'lat', 'lon', 'latitude', 'longitude', 'crs', 'time_bnds', 'time_bounds', 'mask'}
SETS = {
    'daily': [['prec'], ['t_min', 't_max'], ['wind', 'prec', 'shortwave', 'pet', 'tskc'],
              ['vapor_pressure', 'daylength', 'swrad', 'dewpoint'][:2] + ['t_day']],
    'sub': [['temp'], ['prec', 'temp'], ['wind', 'prec', 'shortwave', 'longwave', 'rel_humid'],
            ['spec_humid', 'air_pressure', 'vapor_pressure', 'tskc']],
}
STEPS = {'daily': [1440] * 3, 'sub': [60, 180, 240]}
TYPES = [('float64', (48.2601, -33.7503), (-121.3123, 100.0627, 251.1871)), ('int64', (48, -34), (-121, 100, 251)), ('float32', (48.25, -33.75), (-121.5, 251.0))]


def kind_of(d):
    try:
        return np.dtype(str(d))
    except TypeError:
        return None


def declared(e, v):
    d = v.dtype
    d = e.ev(d, {}) if isinstance(d, T) else d
    return kind_of(d)


def case(label, kind, outs, prec, form=None, shape='', freq=None, chunks=None, named=True, **k):
    def f():
        c = Checker(label)
        h = Harness()
        h.no_coord = ('hru',) if 'without' in shape else ()
        kk = dict(ts=kind, out_vars=outs, utc=FALSE, period_ending=FALSE, **SHAPES[shape], **k)
        kk['forcing_extra'] = tuple(v for v in ('wind',) if v in outs)
        if kk.get('method') == 'passthrough':
            kk['forcing_extra'] += ('shortwave',)
        if prec:
            kk['out_precision'] = prec
        if freq:
            kk['out_freq'] = freq
        if chunks:
            kk['chunks'] = {d: sym('cfg_chunk_' + d, 'int') for d in (('hru',) if 'units' in shape else ('lat', 'lon'))}
        p = Prog(FileConfig(form, **kk) if form else Config(**kk), h)
        c.saw(p)
        if p.died:
            c.add('runs', 'violated', VARS, 'structure', '', 'the run fails: %s' % p.err)
            return c
        mdims = SHAPES[shape].get('mask_dims', ('lat', 'lon'))
        at = next((x['at'] for x in p.all('nc_open') if x['mode'] is not const('r+')), '?')
        tv, tp, td, tc, tt = [Tries(c, n, r, at) for n, r in (('variables', VARS), ('precision', PREC), ('dimensions', DIMS),
                                                             ('coordinates', COORD), ('time', TIME))]
        want = kind_of(prec or 'f4')
        for seed, ts in enumerate(STEPS[kind]):
            typ, ys, xs = TYPES[seed]
            kw = dict(n_days=(3, 1, 40)[seed] if kind == 'daily' else (3, 1, 2)[seed], ts=ts, lats=ys, lons=xs, no_coord=h.no_coord)
            sets = dict(cfg_pe=False, cfg_utc=False)
            for d in (chunks or ()):
                sets['cfg_chunk_' + d] = float((2, 1, 3)[seed])
            names = {}

            def full(e):
                e.types = typ
                m = e.arrays[('file(cfg_domain)', 'D_mask')]
                names['size'] = dict(zip(mdims, np.shape(m)))
                for d in mdims:
                    if d not in h.no_coord:
                        names[d] = e.arrays[('file(cfg_domain)', d)]
            try:
                e, fs = world(p, seed, [], sets, full, **kw)
            except Bad as x:
                for t in (tv, tp, td, tc, tt):
                    t.at = x.at
                    t.run(lambda: str(x), 'time step of %d minutes' % ts)
                continue
            except (Undecided, Unknown) as x:
                for t in (tv, tp, td, tc, tt):
                    t.why = str(x)
                continue
            req = ['N_' + v for v in outs] if named else list(outs)
            if not fs:
                tv.run(lambda: 'no file is written', '')
            for x in fs.values():
                def variables():
                    have = set(x.vars)
                    for v in req:
                        if v not in have:
                            return 'there is no variable %s' % v
                    for v in sorted(have - set(req) - {'time'} - set(mdims) - ALSO):
                        return 'there is a variable %s that was not asked for' % v
                    if 'time' not in have:
                        return 'there is no time'

                def precision():
                    for v in req:
                        d = declared(e, x.vars[v])
                        if d != want:
                            return '%s is of type %s instead of %s' % (v, d, want)

                def dims():
                    if 'time' not in x.dims:
                        return 'there is no dimension time'
                    for d in mdims:
                        if d not in x.dims:
                            return 'there is no dimension ' + d
                        if x.size(d) != names['size'][d]:
                            return 'dimension %s has %s entries instead of %d' % (d, x.size(d), names['size'][d])
                    for v in req:
                        if x.vars[v].dims != ('time',) + tuple(mdims):
                            return '%s is on (%s)' % (v, ', '.join(x.vars[v].dims))
                    if x.vars['time'].dims != ('time',):
                        return 'time is on (%s)' % ', '.join(x.vars['time'].dims)

                def coords():
                    for d in mdims:
                        if d in h.no_coord:
                            continue
                        v = x.vars.get(d)
                        if v is None or v.a is None:
                            return 'there is no coordinate ' + d
                        if v.dims != (d,):
                            return 'coordinate %s is on (%s)' % (d, ', '.join(v.dims))
                        t = declared(e, v)
                        w = np.asarray(names[d], dtype=float)
                        if t is None or t.kind not in 'fiu':
                            return 'coordinate %s is of type %s' % (d, t)
                        if not same_grid(v.a, w):
                            return 'coordinate %s: %s' % (d, differ(v.a, w))
                        s = w.astype(t).astype(float)
                        if not same_grid(s, w, 1e-12):
                            return 'coordinate %s of type %s: %s' % (d, t, differ(s, w))

                def time():
                    v = x.vars['time']
                    if not v.attrs.get('units') or not v.attrs.get('calendar'):
                        return 'the file declares no %s of the times' % ('units' if not v.attrs.get('units') else 'calendar')
                    s = stamps(x)
                    cal = {e.ev(g['calendar'], {}) for g in p.all('date2num')}
                    if cal != {v.attrs['calendar']}:
                        return 'times are encoded in calendar %s, the file says %s' % (', '.join(map(str, cal)), v.attrs['calendar'])
                    if not cal <= {e.ev(CALENDAR, {}), 'standard', 'gregorian', 'proleptic_gregorian'}:
                        return 'times are encoded in calendar %s, which is not that of the forcing' % ', '.join(map(str, cal))
                    b = expected(e, ts, False)
                    if not len(s) or not np.all(np.min(np.abs(s[:, None] - b[None]), axis=1) < 1e-6):
                        return 'the times read as %s.. instead of some of %s..' % (s[:2], b[:2])
                    if not freq and len(s) != len(b):
                        return '%d times instead of %d' % (len(s), len(b))
                for t, g in ((tv, variables), (tp, precision), (td, dims), (tc, coords), (tt, time)):
                    t.run(g, 'time step of %d minutes' % ts)
        for t in (tv, tp, td, tc, tt):
            t.done()
        return c
    return f


def directories(label, state, kind='daily', form=None, freq=None):
    def f():
        c = Checker(label)
        h = Harness()
        k = {'out_freq': freq} if freq else {}
        k.update(ts=kind, out_vars=['prec'], utc=FALSE, period_ending=FALSE)
        cfg = FileConfig(form, **k) if form else Config(**k)
        out = sym('txt_cfg_out_dir', 'path') if form == 'ini' else sym('cfg_out_dir', 'path')
        h.folders = {x: state for x in (sym('cfg_out_dir', 'path'), sym('txt_cfg_out_dir', 'path'), sym('cfg_out_dir', 'text'))}
        p = Prog(cfg, h)
        c.saw(p)
        if p.died:
            c.add('runs', 'violated', DIRS, 'structure', '', 'with the output directory %s the run fails: %s' % (state, p.err))
            return c
        if p.err:
            c.add('runs', 'undecided', DIRS, detail=str(p.err)[:200])
            return c
        made = p.all('nc_open')
        new = [x for x in made if x['mode'] is not const('r+')]
        if not new:
            c.add('created', 'undecided', DIRS, detail='no file is created')
            return c
        if state == 'present':
            c.fact('created', True, DIRS, new[0]['at'], '')
            return c
        dirs = p.all('makedirs')
        for x in new:
            d = plain(dirname_of(x['file']))
            ok = [y for y in dirs if plain(y['path']) is d and y['seq'] < x['seq'] and set(y['pc']) <= set(x['pc'])]
            c.fact('created before %s' % x['fn'], bool(ok), DIRS, x['at'],
                   '' if ok else 'nothing creates %s before a file is created there' % show(d, 3))
        return c
    return f


def dirname_of(p):
    return p.args[0] if p.op == 'joinpath' and len(p.args) == 2 else mk('joinpath', *p.args[:-1]) if p.op == 'joinpath' else p


def tasks(tier, seed):
    r = []

    def add(label, *a, **k):
        r.append((label, case(label, *a, **k)))
    for kind in ('daily', 'sub'):
        for outs in SETS[kind]:
            add('%s %s' % (kind, ' '.join(outs)), kind, outs, None)
        outs = SETS[kind][1]
        for prec in ('f4', 'f8'):
            for form in (None, 'ini', 'yaml'):
                add('%s %s %s' % (kind, prec, form or 'dict'), kind, outs, prec, form)
        for sh in SHAPES:
            for ch in (None, ('lat', 'lon')):
                add('%s shape %s%s' % (kind, sh, ' chunks' if ch else ''), kind, outs, 'f8', None, sh, None,
                    ('hru',) if ch and 'units' in sh else ch)
        for freq in ('D', 'MS', 'A'):
            add('%s files of %s' % (kind, freq), kind, outs, 'f4', None, '', freq)
        for form in ('ini', 'yaml'):
            add('%s %s usual' % (kind, form), kind, outs, None, form)
    for state in ('missing', 'present'):
        for form in (None, 'ini', 'yaml'):
            for freq in (None, 'D') if not form else (None,):
                l = 'directory %s %s%s' % (state, form or 'dict', ' files of a day' if freq else '')
                r.append((l, directories(l, state, 'daily', form, freq)))
    return r
