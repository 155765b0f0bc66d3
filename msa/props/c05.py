"""Physical quantities stay in range."""
from ..world import *
from ..prog import params
from ..files import happens, unroll
from .c33 import MONTHS
import math
import random
LEVEL = 'other'
DAYL = 'daylength is within 0 to 86400 s'
POT = 'potential and estimated shortwave are never negative'
CLOUD = 'the estimated cloud fraction of the default scheme is within 0 to 1'
PREC = 'sub-daily precipitation is never negative'
DIV = 'nothing is divided by zero in the solar geometry of any latitude'
# where something happens: the poles, the polar circles at each solstice, the equator, the tropics
LATS = [(90.0, -90.0), (66.56, -66.56), (0.0, 23.45), (66.0, -66.0), (89.999, -89.999), (67.4, -67.3), (48.25, -33.75),
        (71.25, -78.5), (66.8, -66.9), (1e-9, -1e-9), (80.0, -23.4378), (65.7, 85.1), (60.0, -67.0), (66.3, 66.4), (69.1, -89.5),
        (90.0, 66.549), (-0.0, 66.94), (-66.42, 12.0), (84.0, -84.0), (75.5, -72.3)]
STARTS = [(2004, 12, 20), (2003, 6, 18), (2001, 3, 18), (2000, 9, 20), (2004, 12, 30), (2003, 1, 1), (2002, 5, 10), (2005, 10, 25),
          (2001, 11, 20), (2002, 7, 24)]


def hot(seed):
    """Weather at the ends of what may be given."""
    def edit(e):
        r = random.Random(seed)
        for b in ('file(cfg_forcing)', 'file(cfg_state)'):
            for n in ('F_tmin', 'S_tmin'):
                a = e.arrays.get((b, n))
                if a is None:
                    continue
                m = n[0] + '_tmax'
                lo, hi = [(-60, -20), (18, 31), (-3, 3), (25, 35)][seed % 4]
                x = np.array([r.uniform(lo, hi) for _ in range(a.size)]).reshape(a.shape)
                # days without any range and with a very large one
                d = np.array([r.choice([0.0, 0.01, 3.0, 12.0, 45.0]) for _ in range(a.size)]).reshape(a.shape)
                e.arrays[(b, n)], e.arrays[(b, m)] = x, x + d
            for n in ('F_prec', 'S_prec'):
                a = e.arrays.get((b, n))
                if a is not None:
                    e.arrays[(b, n)] = np.array([r.choice([0.0, 0.0, 1e-3, 5.0, 300.0]) for _ in range(a.size)]).reshape(a.shape)
        e.memo = {}
    return edit


class Inside(object):
    """A quantity stays within bounds on a family of valuations."""

    def __init__(self, c, name, rule, at, lo, hi):
        self.t = Tries(c, name, rule, at)
        self.lo, self.hi, self.name = lo, hi, name

    def run(self, get, what):
        def f():
            x = np.asarray(get(), dtype=float)
            bad = ~((x >= self.lo) & (x <= self.hi))
            if bad.any():
                k = int(np.nonzero(bad.reshape(-1))[0][0])
                return '%s is %.8g at step %d' % (self.name, x.reshape(-1)[k], k)
        self.t.run(f, what)


def given(p, q, cell, lats, start, n, weather, ts=None):
    e = V.whole(p.cfg, q, ts, n_days=n, start=start, lats=lats)
    e.syms['cell'] = float(cell)
    if weather is not None:
        hot(weather)(e)
    return e


def daily(label, method, extra, tier, part, **k):
    def f():
        c = Checker(label)
        kw = dict(ts='daily', method=method, forcing_extra=extra, utc=FALSE, period_ending=FALSE,
                  out_vars=['daylength', 'shortwave', 'tskc'])
        p = Prog(Config(**dict(kw, **k)))
        c.saw(p)
        if p.died:
            c.add('runs', 'violated', DAYL, 'structure', '', 'the run fails: %s' % p.err)
            return c
        sets = [Inside(c, 'daylength', DAYL, wrote(p, 'daylength'), 0, 86400 * (1 + 1e-12)),
                Inside(c, 'tskc', CLOUD, wrote(p, 'tskc'), 0, 1)]
        if method == 'mtclim':
            sets.append(Inside(c, 'shortwave', POT, wrote(p, 'shortwave'), 0, 2000))
        n = len(LATS) if tier == 'quick' else 3 * len(LATS)
        for q in range(part, n, 4):
            for cell in (0, 3):
                e = given(p, q, cell, LATS[q % len(LATS)], STARTS[q % len(STARTS)], 4, q // 2 if q % 3 else None)
                for s in sets:
                    s.run(lambda: e(p.val(s.name)), 'latitude %s, %s' % (LATS[q % len(LATS)][cell // 2], V.fmt_day(e.days[0])))
        for s in sets:
            s.t.done()
        return c
    return f


def year(label, lats):
    def f():
        c = Checker(label)
        p = Prog(Config(ts='daily', method='passthrough', forcing_extra=('shortwave',), utc=FALSE, period_ending=FALSE,
                        out_vars=['daylength']))
        c.saw(p)
        s = Inside(c, 'daylength', DAYL, wrote(p, 'daylength'), 0, 86400 * (1 + 1e-12))
        for q, l in enumerate(lats):
            for cell in (0, 3):
                e = given(p, q, cell, l, (2004, 1, 1), 366, None)
                s.run(lambda: e(p.val('daylength')), 'latitude %s' % l[cell // 2])
        s.t.done()
        return c
    return f


def sub(label, method, extra, tier, utc, **k):
    def f():
        c = Checker(label)
        p = Prog(Config(ts='sub', method=method, forcing_extra=extra, utc=utc, period_ending=FALSE, out_vars=['shortwave', 'tskc'],
                        **k))
        c.saw(p)
        sets = [Inside(c, 'shortwave', POT, wrote(p, 'shortwave'), 0, 1e7)]
        if 'tskc' not in extra:
            sets.append(Inside(c, 'tskc', CLOUD, wrote(p, 'tskc'), 0, 1))
        for q in range(10 if tier == 'quick' else 40):
            for cell in (0, 3):
                e = given(p, q, cell, LATS[(3 * q) % len(LATS)], STARTS[q % len(STARTS)], 2, q if q % 3 else None, (60, 180, 30)[q % 3])
                for s in sets:
                    s.run(lambda: e(p.val(s.name)), 'latitude %s, %s' % (LATS[(3 * q) % len(LATS)][cell // 2], V.fmt_day(e.days[0])))
        for s in sets:
            s.t.done()
        return c
    return f


def rain(label, pt, utc, tier):
    def f():
        c = Checker(label)
        p = Prog(Config(ts='sub', utc=utc, period_ending=FALSE, out_vars=['prec'], prec_type=pt))
        c.saw(p)
        s = Inside(c, 'prec', PREC, wrote(p, 'prec'), 0, 1e9)
        for q in range(24 if tier == 'quick' else 96):
            for cell in (0, 3):
                e = given(p, q, cell, (48.25, -33.75), MONTHS[q % 12], 3, q, (60, 30, 180, 360, 15, 1, 720)[q % 7])
                d, t = ('file(cfg_domain)', 'D_dur'), ('file(cfg_domain)', 'D_tpk')
                if d in e.arrays:
                    # very short and very long storms, peaking near midnight
                    r = random.Random(q)
                    e.arrays[d] = np.array([float(r.choice([1, 2, 7, 61, 700, 1439, 1440])) for _ in range(
                        e.arrays[d].size)]).reshape(e.arrays[d].shape)
                    e.arrays[t] = np.array([float(r.choice([0, 1, 30, 720, 1380, 1439])) for _ in range(
                        e.arrays[t].size)]).reshape(e.arrays[t].shape)
                    e.memo = {}
                s.run(lambda: e(p.val('prec')), 'storms of valuation %d, steps of %d minutes' % (q, e.syms['cfg_ts']))
        s.t.done()
        return c
    return f


def grazing():
    """Latitudes where the sun is up for less than one step on some day, between winter night and day."""
    r = []
    for i in (0, 20, 40, 60, 100, 130, 150, 172, 200, 230, 250, 290, 310, 330, 354, 364):
        decl = -0.4092797 * math.cos((i + 11.25) * 2 * math.pi / 365)
        for h in (2e-5, 3e-4, 1e-3, 1.9e-3):
            r.append(math.degrees(math.atan(math.cos(h) / -math.tan(decl))))
    return r


def division(label, lats, tier):
    def f():
        c = Checker(label)
        p = Prog(Config(ts='daily', method='passthrough', forcing_extra=('shortwave',), utc=FALSE, period_ending=FALSE,
                        out_vars=['daylength', 'pet'], **params('lapse_rate')))
        c.saw(p)
        divs, n = {}, 0
        for ev in p.all('div'):
            if 'solar_geom' in ev['stack'] or ev['fn'] == 'solar_geom':
                divs.setdefault((ev['at'], ev['den']), ev)
        if not divs:
            c.add('division', 'undecided', DIV, detail='no division is found in the solar geometry')
            return c
        for (at, den), ev in sorted(divs.items(), key=lambda z: (z[0][0], show(z[0][1], 3))):
            if is_num(den):
                c.fact('by %s' % show(den, 2), den.args[0] != 0, DIV, at, 'division by zero')
                continue
            t = Tries(c, 'division at ' + at.split('/')[-1] + ' by ' + show(den, 2)[:40], DIV, at)
            for q, l in enumerate(lats):
                for cell in (0, 3):
                    e = given(p, q, cell, l, (2004, 12, 30), 2, None)

                    def one():
                        for env in iterations(e, ev['loops']):
                            if happens(e, ev['pc'], env):
                                x = e.ev(den, env)
                                if np.any(np.asarray(x, dtype=float) == 0) or np.any(np.isnan(np.asarray(x, dtype=float))):
                                    return 'the divisor is %s on day %s' % (np.asarray(x).reshape(-1)[0], list(env.values()) and
                                                                           int(list(env.values())[0]) + 1)
                    t.run(one, 'latitude %s' % l[cell // 2])
            t.done()
        return c
    return f


def iterations(e, loops, k=0, env=None):
    """The iterations of nested loops: all of the outermost, few of the others."""
    env = env or {}
    if k == len(loops):
        yield env
        return
    n, i = loops[k]
    try:
        m = e.int(n, env)
    except Unknown:
        return
    js = range(m) if m <= 366 and len(loops) - k <= 2 else sorted({0, 1, m // 2, m - 2, m - 1} & set(range(m)))
    if len(loops) - k == 2 and m > 60:
        js = sorted(set(range(0, m, 9)) | {0, 171, 172, 354, 355, m - 1} & set(range(m)))
    for j in js:
        e2 = dict(env)
        e2[('i', i)] = float(j)
        for x in iterations(e, loops, k + 1, e2):
            yield x


def tasks(tier, seed):
    r = []
    for part in range(4):
        l = 'daily mtclim %d' % part
        r.append((l, daily(l, 'mtclim', (), tier, part)))
        l = 'daily passthrough %d' % part
        r.append((l, daily(l, 'passthrough', ('shortwave',), tier, part)))
    for q in range(0, len(LATS), 5):
        l = 'year %d' % q
        r.append((l, year(l, LATS[q:q + 5])))
    for u, un in ((FALSE, 'local'), (TRUE, 'UTC')):
        l = 'sub-daily mtclim ' + un
        r.append((l, sub(l, 'mtclim', (), tier, u)))
        l = 'sub-daily passthrough ' + un
        r.append((l, sub(l, 'passthrough', ('shortwave',), tier, u)))
        for pt in ('uniform', 'triangle', 'mix'):
            l = 'precipitation %s %s' % (pt, un)
            r.append((l, rain(l, pt, u, tier)))
    for q in range(0, len(LATS), 2):
        l = 'division %d' % q
        r.append((l, division(l, LATS[q:q + 2], tier)))
    g = grazing()
    for q in range(0, len(g), 8):
        l = 'division at grazing latitudes %d' % q
        r.append((l, division(l, list(zip(g[q:q + 8:2], g[q + 1:q + 8:2])), tier)))
    return r
