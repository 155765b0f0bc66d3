"""Periods outside the forcing are refused."""
from ..world import *
from ..harness import FileConfig
from .c10 import truth_
from .c08 import created
LEVEL = 'other'
RULE = 'a start before the first or a stop after the last day of the forcing is refused, any other period is run as given'
START, STOP = (2001, 2, 26), (2001, 3, 3)
DASH, SLASH = '%d-%02d-%02d', '%d/%d/%d'


class Period(Config):
    """Start and stop in forms of their own."""

    def __init__(self, a, b, **k):
        Config.__init__(self, **k)
        self.a, self.b = a, b

    def values(self, I, h):
        p = Config.values(self, I, h)
        I.lib.dict_set(I, p, const('start'), self.a)
        I.lib.dict_set(I, p, const('stop'), self.b)
        return p


def form(which, f):
    s = 'cfg_' + which
    d = STOP if which == 'stop' else START
    return const('forcing') if f == 'forcing' else const(f % d) if f.startswith('%') else sym(s, 'date')


def moved(e, k, m, forms):
    """The forcing begins k days before the start and ends m days after the stop (less for negative
    numbers); a start or stop taken from the forcing is its first or last day."""
    day = 1440.0
    a, b = e.syms['cfg_start'], e.syms['cfg_stop']
    f = np.arange(a - k * day, b + m * day + 1, day)
    if len(f) < 1:
        return False
    e.syms['days_forcing'], e.syms['n_days_forcing'] = f, float(len(f))
    for q, x in list(e.arrays.items()):
        if q[0] == 'file(cfg_forcing)' and x.ndim == 3:
            e.arrays[q] = np.concatenate([x, x])[:len(f)]
    if forms[0] == 'forcing':
        a = f[0]
    if forms[1] == 'forcing':
        b = f[-1]
    e.syms['days_state'] = a + day * np.arange(-97, 2)
    e.days = np.arange(a, b + 1, day)
    e.memo = {}
    return len(e.days) > 0


def refusal(p, e, before):
    """The first raise before event number `before` that happens under e."""
    for r in p.all('raise'):
        if r['caught'] or r['seq'] > before:
            continue
        if r['loops']:
            continue
        if all(truth_(e, t) for t in r['pc']):
            return r
    return None


def case(kind, a, b, tier, file=None, **k):
    def f():
        c = Checker('%s start as %s, stop as %s%s%s' % (kind, a, b, ' in %s file' % file if file else '',
                                                       ' ' + describe(k) if k else ''))
        kw = dict(ts=kind, out_vars=['prec', 'wind'], forcing_extra=('wind', 'shortwave'), period_ending=FALSE, utc=FALSE, **k)
        if file:
            p = Prog(FileConfig(file, texts=dict(start=form('start', a), stop=form('stop', b)), **kw))
        else:
            p = Prog(Period(form('start', a), form('stop', b), **kw))
        ts = 1440 if kind == 'daily' else 60
        w = created(p)
        first = w[0]['seq'] if w else 10 ** 9
        t = Tries(c, 'refused', RULE, 'MetSim._validate_force_times')
        u = Tries(c, 'taken as given', 'the run covers exactly the given period', 'MetSim._validate_force_times')
        n = 4 if tier == 'quick' else 9
        for k1 in range(-3, n):
            for k2 in range(-3, n):
                bad = a != 'forcing' and k1 < 0 or b != 'forcing' and k2 < 0

                def base():
                    e = V.whole(p.cfg, 0, ts, n_days=6, start=START, lats=(48.25,), lons=(-121.3125,))
                    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((1, 1))
                    e.syms['cell'] = 0.0
                    return e if moved(e, k1, k2, (a, b)) else None

                def one():
                    e = base()
                    if e is None:
                        return
                    if p.err and not p.died:
                        raise Undecided(p.err)
                    r = refusal(p, e, first)
                    if bad and r is None:
                        return 'the forcing begins %d days before the start and ends %d days after the stop, but the period is run' % (k1, k2)
                    if not bad and r is not None:
                        return 'a period inside the forcing is refused: %s at %s' % (r['exc'], r['at'])
                t.run(one, 'forcing from %d days before the start to %d days after the stop' % (k1, k2))
                if bad:
                    continue

                def two():
                    e = base()
                    if e is None:
                        return
                    fs = simulate(p, e, ['N_prec', 'N_wind'])
                    ta, x = assembled(fs, 'N_wind')
                    m = len(e.days) * 1440 // ts
                    want = e.days[0] + ts * np.arange(m)
                    if not same_grid(ta, want):
                        return 'times: ' + differ(ta, want)
                    daily = e.arrays[('file(cfg_forcing)', 'F_wind')][:, 0, 0]
                    days = e.syms['days_forcing']
                    sel = daily[(days >= e.days[0]) & (days <= e.days[-1])]
                    if not same_grid(x.reshape(-1), np.repeat(sel, 1440 // ts)):
                        return 'wind: ' + differ(x.reshape(-1), np.repeat(sel, 1440 // ts))
                u.run(two, 'forcing from %d days before the start to %d days after the stop' % (k1, k2))
        t.done()
        u.done()
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []
    forms = ('date', DASH, SLASH, 'forcing')
    for kind in ('daily', 'sub'):
        for a in forms:
            for b in forms:
                r.append(('%s %s %s' % (kind, a, b), case(kind, a, b, tier)))
                if a != 'date' and b != 'date':
                    r.append(('ini %s %s %s' % (kind, a, b), case(kind, a, b, tier, 'ini')))
                if kind == 'sub':
                    r.append(('yaml %s %s %s' % (kind, a, b), case(kind, a, b, tier, 'yaml')))
        for a, b in (('date', 'date'), ('forcing', 'forcing')):
            r.append(('%s passthrough %s' % (kind, a), case(kind, a, b, tier, method='passthrough')))
            r.append(('%s split %s' % (kind, a), case(kind, a, b, tier, out_freq='D')))
            r.append(('%s triangle %s' % (kind, a), case(kind, a, b, tier, prec_type='triangle')))
    return r
