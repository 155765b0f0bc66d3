"""Windows over the state and the forcing."""
from ..world import *
from ..prog import Num, Vals, params
from .. import oracle as O
from ..harness import FileConfig
from .c27 import dew_vals, tf_vals
from .c16 import SHAPES
LEVEL = 'other'
RANGE = 'the mean temperature range of a day is that of the 30 days that end with it, from the state before the start'
PREC = 'the precipitation of a day is the yearly rate of the 90 days that end with it, from the state before the start'
STATE = 'a state that does not have the 90 days before the start is refused'
STARTS = [(2001, 2, 26), (2000, 12, 29), (2004, 3, 1), (2003, 6, 29), (1999, 12, 31), (2005, 1, 1), (2000, 3, 30), (2002, 7, 2)]
DAYS = [4, 1, 35, 2, 95, 130, 31, 90]


def rows(p, e, name, n):
    """Daily values of an output at a cell."""
    y = np.asarray(e(p.val(name)), dtype=float)
    return y.reshape(n, -1)


def windows(label, method, cloud, shape='', form=None, tier='quick', kind='daily', **k):
    def f():
        c = Checker(label)
        extra = ('shortwave',) if method == 'passthrough' else ()
        kw = dict(ts=kind, method=method, lw_cloud=cloud, forcing_extra=extra, utc=FALSE, period_ending=FALSE,
                  out_vars=['tskc', 'vapor_pressure', 'pet', 'prec'] if kind == 'daily' else ['tskc', 'prec'], **SHAPES[shape])
        kw.update(k)
        p = Prog(FileConfig(form, **kw) if form else Config(**kw))
        c.saw(p)
        if p.died:
            for n, r in (('temperature range', RANGE), ('precipitation', PREC)):
                c.add(n, 'violated', r, 'structure', '', 'the run fails: %s' % p.err)
            return c
        t = Tries(c, 'temperature range', RANGE, wrote(p, 'tskc'))
        u = Tries(c, 'precipitation', PREC, wrote(p, 'prec'))
        for q, st in enumerate(STARTS if tier != 'quick' else STARTS[:6]):
            n = DAYS[q]
            if kind != 'daily' and n > 40:
                n = 3
            for cell in (0, 3):
                try:
                    e = p.valuation(q, cell, None if kind == 'daily' else 360, n_days=n, start=st)
                    e.syms.update(cfg_chunk_lat=1.0, cfg_chunk_lon=1.0)
                    v = Vals(p, e)
                except (Undecided, Unknown) as x:
                    t.why = u.why = str(x)
                    continue

                def cloudy():
                    tf = tf_vals(v)
                    want = 1 - tf if cloud == 'cloud_deardorff' else np.sqrt((1 - tf) / 0.65)
                    return per_day(rows(p, e, 'tskc', n), want, 'cloud fraction', e)

                def rainy():
                    want = O.svp(dew_vals(v, rows(p, e, 'pet', n)[:, 0]))
                    return per_day(rows(p, e, 'vapor_pressure', n), want, 'vapor pressure', e, 1e-4)
                w = '%s, %d days' % ('-'.join(map(str, st)), n)
                t.run(cloudy, w)
                if kind == 'daily':
                    u.run(rainy, w)
        t.done()
        if kind == 'daily':
            u.done()
        return c
    return f


def per_day(got, want, what, e, tol=1e-7):
    if got.shape[0] != len(want):
        return '%d days instead of %d' % (got.shape[0], len(want))
    for d in range(len(want)):
        if not np.all(np.abs(got[d] - want[d]) <= tol * (1 + abs(want[d]))):
            return '%s of %s is %.8g, with the windows of that day it is %.8g' % (what, V.fmt_day(e.days[d]), got[d][0], want[d])


def holes(label, form=None, **k):
    def f():
        c = Checker(label)
        p = Prog(FileConfig(form, ts='daily', out_vars=['tskc', 'prec'], utc=FALSE, period_ending=FALSE, **k) if form else
                 Config(ts='daily', out_vars=['tskc', 'prec'], utc=FALSE, period_ending=FALSE, **k))
        c.saw(p)
        if p.died:
            c.add('runs', 'violated', STATE, 'structure', '', 'the run fails: %s' % p.err)
            return c
        ok = Tries(c, 'complete state', 'a state of exactly the 90 days before the start is used', wrote(p, 'tskc'))
        t = Tries(c, 'incomplete state', STATE, wrote(p, 'tskc'))
        for q, (st, drop) in enumerate([((2001, 2, 26), ()), ((2000, 12, 29), (-90,)), ((2004, 3, 1), (-1,)), ((2003, 6, 29), (-45,)),
                                        ((2001, 1, 1), range(-97, -30)), ((2002, 5, 1), range(-30, 2)), ((2005, 3, 1), 'exact')]):
            def edit(e):
                days = np.asarray(e.syms['days_state'])
                rel = np.rint((days - e.days[0]) / 1440).astype(int)
                keep = (rel >= -90) & (rel < 0) if drop == 'exact' else ~np.isin(rel, list(drop))
                e.syms['days_state'] = days[keep]
                e.syms['n_days_state'] = float(keep.sum())
                for b in list(e.arrays):
                    if b[0] == 'file(cfg_state)' and np.shape(e.arrays[b])[:1] == (len(days),):
                        e.arrays[b] = e.arrays[b][keep]
            bad = bool(drop) and drop != 'exact'
            what = 'state %s' % ('lacks day %d of the start' % list(drop)[0] if bad else 'of ' + ('90' if drop else '99') + ' days')

            def one():
                try:
                    e, fs = world(p, q, None, dict(cfg_pe=False, cfg_utc=False, cfg_chunk_lat=1.0, cfg_chunk_lon=2.0), edit, n_days=3, start=st)
                    if not fs:
                        return None if bad else 'no file is written'
                    g = [x.vars['N_' + v].a for x in fs.values() for v in ('tskc', 'prec')]
                except Bad as x:
                    return None if bad else str(x)
                full = all(x is not None and not np.isnan(x[:, 1, :]).any() for x in g)
                if bad:
                    return 'values are written although the state lacks days' if any(
                        x is not None and not np.isnan(x).all() for x in g) else None
                return None if full else 'values are missing'
            (t if bad else ok).run(one, what)
        ok.done()
        t.done()
        return c
    return f


def tasks(tier, seed):
    r = []

    def add(label, *a, **k):
        r.append((label, windows(label, *a, tier=tier, **k)))
    ck = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
    for m in ('mtclim', 'passthrough'):
        for cl in ('cloud_deardorff', 'default'):
            add('%s %s' % (m, cl), m, cl)
    for sh in SHAPES:
        if sh and 'units' not in sh:
            add('shape ' + sh, 'mtclim', 'default', sh)
    for form in ('ini', 'yaml'):
        add('form ' + form, 'mtclim', 'default', '', form)
    add('period of the forcing', 'mtclim', 'default', start='forcing')
    add('sub-daily', 'mtclim', 'default', kind='sub')
    for form in (None, 'ini', 'yaml'):
        l = 'state %s' % (form or 'dict')
        r.append((l, holes(l, form)))
    r.append(('state chunks', holes('state chunks', None, chunks=ck)))
    return r
