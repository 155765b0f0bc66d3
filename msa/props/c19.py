"""Settings mean the same as text, number or date."""
from ..world import *
from ..harness import FileConfig
from .c06 import DAILY, SUB
from .c14 import same_files
LEVEL = 'other'
RULE = 'a setting given as text in an INI file has the same effect as the same value given natively'
START, STOP = (2001, 2, 26), (2001, 3, 1)
date = lambda d: mk('date', *[num(x) for x in d])
DATES = [('%d/%d/%d' % START, '%d/%d/%d' % STOP), ('2001/02/26', '2001/03/01'), ('2001-02-26', '2001-03-01'),
         ('2001-2-26', '2001-3-1')]


def texts(form, ts, dates=None, utc=TRUE, pe=FALSE, **k):
    t = dict(time_step=num(ts), utc_offset=utc, period_ending=pe, **k)
    if form == 'ini':
        t = {n: const('True' if v is TRUE else 'False') if v in (TRUE, FALSE) else const(show(v)) if v.op == 'num' else v
             for n, v in t.items()}
    a, b = dates or (date(START), date(STOP))
    if form == 'ini' and not isinstance(a, str):
        a, b = DATES[0]
    t['start'], t['stop'] = [const(x) if isinstance(x, str) else x for x in (a, b)]
    return t


def anew(p, q):
    """A TypeError of the one program that the other does not have."""
    fails = lambda x: {(r['exc'], r['at']): r for r in x.all('raise') if not r['caught'] and r['exc'] == 'TypeError'}
    new = set(fails(p)) - set(fails(q))
    return 'the run fails: %s at %s (%s)' % (min(new) + (show(fails(p)[min(new)]['msg'], 4)[:80],)) if new else None


def compare(c, name, p, q, rule, ts, sets=None, seeds=(0, 1), values=None, edit=None, key=None, skip_history=True, n_days=4):
    t = Tries(c, name, rule)
    for seed in seeds:
        def one():
            kw = dict(n_days=n_days, start=START, ts=ts, lats=(48.25, -33.75), lons=(-121.3125, 251.1875))
            if p.died and not q.died:
                return 'the run fails: ' + p.death()
            if anew(p, q):
                return anew(p, q)
            a, b = world(p, seed, values, sets, edit, **kw)[1], world(q, seed, values, sets, edit, **kw)[1]
            for f in list(a.values()) + list(b.values()):
                # the record of the settings in the file is not an effect
                for k in list(f.attrs):
                    f.attrs.pop(k)
            return same_files(a, b)
        t.run(one, 'seed %d' % seed)
    t.done(key)


def forms(ts, names, dates, style, form):
    """Whole configurations."""
    def f():
        c = Checker('%s file, %s minutes, dates %s, %s' % (form, ts, dates or 'as dates', style))
        kind = 'daily' if ts == 1440 else 'sub'
        k = dict(ts=kind, out_vars=names, forcing_extra=('wind',))
        q = Prog((OwnNames if style == 'list' else Config)(utc=TRUE, period_ending=FALSE, **k))
        p = Prog(FileConfig(form, texts=texts(form, ts, dates), out_style=style, **k))
        compare(c, 'files', p, q, RULE, ts, dict(cfg_pe=False, cfg_utc=True), values=['N_prec', 'N_t_min', 'N_temp'])
        for v in names if style != 'list' else ():
            c.eq(v, p, lambda: p.val(v), lambda: q.val(v), RULE, evs=at(p, ts))
        c.saw(p, q)
        return c
    return f


class OwnNames(Config):
    """Output variables under the names the program uses."""

    def values(self, I, h):
        p = Config.values(self, I, h)
        I.lib.dict_set(I, p, const('out_vars'), I.dict_(
            {const(v): I.dict_({const('out_name'): const(v)}) for v in self.out_vars}))
        return p


def at(p, ts):
    def evs(seed, cell):
        e = V.whole(p.cfg, seed, ts, n_days=4, start=START)
        e.syms['cell'] = float(cell)
        e.syms['cfg_utc'], e.syms['cfg_pe'] = True, False
        return e
    return evs


def numeric(form, kind):
    """Numeric options."""
    def f():
        c = Checker('%s numeric options, %s' % (form, kind))
        ts = 1440 if kind == 'daily' else 60
        names = ['t_day', 'shortwave', 'vapor_pressure', 'tskc', 'pet', 'daylength'] if kind == 'daily' else \
            ['temp', 'shortwave', 'air_pressure', 'rel_humid', 'longwave']
        opts = params()
        opts['tdew_tol'] = num(Fraction(1, 1000000))
        k = dict(ts=kind, out_vars=names, **opts)
        q = Prog(Config(utc=TRUE, period_ending=FALSE, **k))
        p = Prog(FileConfig(form, texts=texts(form, ts), **k))
        t = Tries(c, 'run', 'text of a number is turned into the number before it is used')
        t.run(lambda: anew(p, q), 'any input')
        t.done()
        for v in names:
            c.eq(v, p, lambda: p.val(v), lambda: q.val(v), RULE, evs=at(p, ts))
        c.saw(p, q)
        return c
    return f


def bools():
    def f():
        c = Checker('boolean options')
        for opt, other in (('utc_offset', 'period_ending'), ('period_ending', 'utc_offset')):
            ref = {}
            for on in (True, False):
                kk = dict(utc=boolT(on if opt == 'utc_offset' else False),
                          period_ending=boolT(on if opt == 'period_ending' else False))
                ref[on] = Prog(Config(ts='sub', out_vars=['prec', 'tskc'], **kk))
            for txt in ('True', 'true', 'TRUE', 'tRUE', 'False', 'false', 'FALSE', 'no', '0', '1', 'yes', 'on', 'None', '', 'truee', None):
                t = texts('ini', 60)
                t[other] = const('False')
                if txt is None:
                    t.pop(opt)
                else:
                    t[opt] = const(txt)
                drop = ('utc_offset', 'period_ending')
                p = Prog(FileConfig('ini', texts=t, ts='sub', out_vars=['prec', 'tskc'], drop=drop))
                on = txt is not None and txt.lower() == 'true'
                compare(c, '%s = %s' % (opt, txt), p, ref[on], 'a boolean option is on only for the text true in any capitalization',
                        60, seeds=(0,))
                c.saw(p)
        return c
    return f


def single(form, what, k, tk, kind='sub'):
    """One more option as text."""
    def f():
        c = Checker('%s %s' % (form, what))
        ts = 1440 if kind == 'daily' else 60
        base = dict(ts=kind, out_vars=['prec', 'wind'] if kind == 'sub' else ['prec', 't_min'], forcing_extra=('wind',))
        q = Prog(Config(utc=TRUE, period_ending=FALSE, **dict(base, **k)))
        p = Prog(FileConfig(form, texts=texts(form, ts, **tk), **dict(base, **k)))
        compare(c, what, p, q, RULE, ts, dict(cfg_chunk_lat=1.0, cfg_chunk_lon=2.0, cfg_pe=False, cfg_utc=True))
        c.saw(p, q)
        return c
    return f


def tasks(tier, seed):
    r = []
    sub, day = ['prec', 'temp', 'shortwave', 'wind'], ['prec', 't_min', 'shortwave']
    for form in ('ini', 'yaml'):
        for ts in (1440, 60, 180) if tier == 'quick' else (1440, 60, 180, 360, 30, 1, 45):
            for d in DATES + ([None] if form == 'yaml' else []):
                for st in ('list', 'section') if form == 'ini' else ('section',):
                    r.append(('%s %d %s %s' % (form, ts, d, st), forms(ts, day if ts == 1440 else sub, d, st, form)))
        for kind in ('daily', 'sub'):
            r.append(('%s numeric %s' % (form, kind), numeric(form, kind)))
        C = Fraction
        consts = Consts
        for what, k, tk in (
                ('chunks', dict(chunks={'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}), {}),
                ('precision f8', dict(out_precision='f8'), {}),
                ('daily files', dict(out_freq='D'), {}),
                ('monthly files', dict(out_freq='MS'), {}),
                ('triangle', dict(prec_type='triangle'), {}),
                ('mix', dict(prec_type='MIX'), {}),
                ('time units', dict(time_units=None), {})):
            if what != 'time units':
                r.append(('%s %s' % (form, what), single(form, what, k, tk)))
                if 'prec' not in str(k):
                    r.append(('%s %s daily' % (form, what), single(form, what, k, tk, 'daily')))
        r.append(('%s constants' % form, constants(form)))
    r.append(('booleans', bools()))
    return r


class Consts(FileConfig):
    def values(self, I, h):
        p = Config.values(self, I, h)
        I.lib.dict_set(I, p, const('constant_vars'), I.dict_({const(k): v for k, v in CONSTS.items()}))
        return p


class NativeConsts(Config):
    values = Consts.values


CONSTS = {'wind': num(Fraction(5, 2)), 't_max': num(12), 't_min': num(-3)}


def constants(form):
    def f():
        c = Checker('%s constant variables' % form)
        for kind in ('daily', 'sub'):
            ts = 1440 if kind == 'daily' else 60
            base = dict(ts=kind, out_vars=['prec', 'wind', 'temp' if kind == 'sub' else 't_min', 'shortwave'])
            q = Prog(NativeConsts(utc=TRUE, period_ending=FALSE, **base))
            p = Prog(Consts(form, texts=texts(form, ts), **base))
            compare(c, kind, p, q, RULE, ts, dict(cfg_pe=False, cfg_utc=True))
            c.saw(p, q)
        return c
    return f
