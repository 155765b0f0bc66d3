"""Output time stamps cover the period exactly."""
from ..world import *
LEVEL = 'other'
RULE = 'output time runs from the first day (one step later when period-ending) to the last step of the last day, step by step'
FREQS = [None, 'D', 'MS', 'A', '6H', '2D', 'M']
STARTS = [(2001, 2, 26), (2000, 2, 27), (2004, 12, 30), (1999, 12, 29), (1950, 1, 1), (2003, 10, 30), (2100, 2, 27)]
UNIT_SECONDS = 60


def expected(e, ts, pe):
    n = len(e.days) * 1440 // ts
    return e.days[0] + (ts if pe else 0) + ts * np.arange(n)


def case(kind, freq, start_kind, units, tier):
    def f():
        c = Checker('%s files of %s, start given as %s%s' % (kind, freq or 'the whole period', start_kind,
                                                            ', time units given' if units else ''))
        v = 'prec'
        k = dict(ts=kind, out_vars=['prec', 'wind'], forcing_extra=('wind',), start=start_kind)
        if freq:
            k['out_freq'] = freq
        p = Prog(Config(**k))
        k.pop('out_freq', None)
        whole = Prog(Config(**k)) if freq else p
        t = Tries(c, 'times', RULE, 'MetSim._get_output_times')
        w = Tries(c, 'values', 'the values stored at a time are those of the step that has the time', wrote(p, 'prec'))
        lab = Tries(c, 'file names', 'the name of a file says its first and last day', 'MetSim.get_nc_output_suffix')
        cuts = Tries(c, 'file split', 'each file holds one contiguous run of the sequence, none is empty', 'MetSim._get_output_times')
        i4 = Tries(c, 'time type', 'the type of the time variable represents every step', 'MetSim.setup_netcdf_output')
        steps = [1440] if kind == 'daily' else [60, 360, 15, 1, 240, 90, 45][:7 if tier != 'quick' else 5]
        for q, st in enumerate(STARTS if tier != 'quick' else STARTS[:4]):
            for ts in steps:
                for pe in (False, True):
                    nd = (5, 1, 3, 2)[q % 4] if ts > 1 else 1
                    if freq in ('MS', 'M', 'A', 'W') and kind == 'daily':
                        nd = 40
                    memo = {}

                    def both():
                        if 'r' not in memo:
                            memo['r'] = world(p, q, ['N_prec', 'N_wind'], dict(cfg_pe=pe, cfg_utc=False), one_cell, ts=ts,
                                              start=st, n_days=nd, lats=(48.25,), lons=(-121.3125,))
                        return memo['r']

                    def times():
                        e, fs = both()
                        a = np.concatenate([stamps(x) for x in sorted(fs.values(), key=lambda x: stamps(x)[0])])
                        b = expected(e, ts, pe)
                        return None if same_grid(a, b) else differ(a, b) + ' (minutes since 1970)'

                    def values():
                        e, fs = both()
                        e.memo = {}
                        e.syms['cell'] = 0.0
                        for n in ('prec', 'wind'):
                            a = assembled(fs, 'N_' + n)[1].reshape(-1)
                            b = np.asarray(e(whole.val(n)), dtype=float)
                            if len(a) != len(b):
                                return '%s: %d values are stored of %d' % (n, len(a), len(b))
                            if not same_grid(a, b):
                                return n + ' ' + differ(a, b)
                        for x in fs.values():
                            for n in ('N_prec', 'N_wind'):
                                if len(x.vars[n].a) != len(x.vars['time'].a):
                                    return '%s has %d values at %d times in %s' % (n, len(x.vars[n].a), len(x.vars['time'].a), x.path)

                    def names():
                        e, fs = both()
                        for path, x in fs.items():
                            s = stamps(x)
                            a, b = [V.fmt_day(m).replace('-', '') for m in (s[0], s[-1])]
                            base = path.rsplit('/', 1)[-1]
                            if a not in base or b not in base.split(a, 1)[1]:
                                return 'file %s holds %s to %s' % (base, a, b)

                    def split():
                        e, fs = both()
                        for x in fs.values():
                            s = stamps(x)
                            if len(s) < 1 or len(s) > 1 and not np.all(np.diff(s) == ts):
                                return '%s holds the times %s' % (x.path, s[:5])
                        if freq is None and len(fs) != 1:
                            return '%d files' % len(fs)

                    def kind_():
                        e, fs = both()
                        for x in fs.values():
                            d = x.vars['time'].dtype
                            d = d.args[0] if isinstance(d, T) and is_str(d) else d
                            if np.dtype(str(d)).kind in 'iu':
                                a = x.vars['time'].a
                                if np.any(a != np.rint(a)) or np.max(np.abs(a)) > np.iinfo(np.dtype(str(d))).max:
                                    return 'time %s as %s' % (a[0], d)
                    for tr, fn in ((t, times), (w, values), (lab, names), (cuts, split), (i4, kind_)):
                        tr.run(fn, '%d minutes from %s, %d days, period_ending %s' % (ts, st, nd, pe))
        for tr in (t, w, lab, cuts, i4):
            tr.done()
        c.saw(p)
        return c
    return f


def one_cell(e):
    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((1, 1))


def tasks(tier, seed):
    r = []
    for kind in ('daily', 'sub'):
        for freq in FREQS:
            if freq == '6H' and kind == 'daily':
                continue
            for sk in ('date', 'forcing') if freq in (None, 'D') else ('date',):
                r.append(('%s %s %s' % (kind, freq, sk), case(kind, freq, sk, None, tier)))
    return r
