"""Unit labels match the values written."""
from ..prog import *
from .c06 import UNITS, DAILY, SUB
LEVEL = 'other'
DEFAULT = {'prec': 'mm timestep-1', 'pet': 'mm timestep-1', 't_min': 'C', 't_max': 'C', 't_day': 'C', 'temp': 'C',
           'vapor_pressure': 'Pa', 'air_pressure': 'kPa', 'tskc': 'fraction', 'rel_humid': '%', 'shortwave': 'W m-2',
           'longwave': 'W m-2', 'spec_humid': 'g g-1', 'wind': 'm s-1', 'daylength': 's'}


def labels(p):
    """Name of an output variable -> values of its units attribute in the order written."""
    r = {}
    for e in p.ev_of('nc_attr'):
        if e['name'] is const('units') or is_str(e['name']) and e['name'].args[0] == 'units':
            r.setdefault(show(e['var']).strip("'"), []).append(e)
    return r


def label_is(c, p, lab, var, unit, what):
    es = lab.get('N_' + var)
    if not es:
        return c.add('%s %s' % (var, what), 'undecided' if p.unm else 'violated', RULE,
                     at='setup of the output file', detail='no units attribute is written for %s' % var)
    v = es[-1]['value']
    if is_const(v):
        return c.fact('%s %s' % (var, what), v is const(unit), RULE, at=es[-1]['at'],
                      detail='units attribute of %s is %s, its values are in %s' % (var, show(v), unit))
    return c.eq('%s %s' % (var, what), p, v, const(unit), RULE, at=es[-1]['at'],
                detail='units attribute of ' + var)


RULE = 'the units attribute of a variable is the unit its values were converted to'


def case(kind, k, history=False):
    names = DAILY if kind == 'daily' else SUB

    def f():
        c = Checker('%s %s' % (kind, 'after another run' if history else ['default', 'requested', 'requested',
                                                                           'requested', 'unsupported'][k]))
        kw = dict(ts=kind, utc=FALSE, period_ending=FALSE, forcing_extra=('wind',), out_vars=names)
        base = Prog(Config(**kw))
        if k == 0:
            pick = {}
        elif k == 4:
            pick = {v: 'furlong' for v in names}
        else:
            pick = {v: sorted(UNITS[v])[(k - 1) % len(UNITS[v])] for v in names}
        p = Prog(Config(units=pick, **kw), before=[Config(units={v: sorted(UNITS[v], key=lambda u: u == DEFAULT[v])[0]
                                                              for v in names}, **kw)] if history else [])
        ts = num(1440) if kind == 'daily' else p.cfg.ts()
        lab = labels(p)
        for v in names:
            u = pick.get(v, DEFAULT[v])
            u = u if u in UNITS[v] else DEFAULT[v]
            label_is(c, p, lab, v, u, 'label')
            c.eq('%s values' % v, p, lambda: p.val(v), lambda: UNITS[v][u](base.val(v), ts),
                 'the values written are in the labelled unit', tol=1e-9)
        c.saw(base, p)
        return c
    return f


def absolute(kind):
    """The default units are the units of the quantities, not only labels."""
    def f():
        c = Checker('%s quantities' % kind)
        names = ['temp', 'vapor_pressure', 'rel_humid', 'air_pressure', 'tskc'] if kind == 'sub' else \
            ['t_min', 't_max', 'vapor_pressure', 'prec', 'tskc']
        p = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, method='passthrough', out_vars=names,
                        forcing_extra=('shortwave', 'vapor_pressure', 'tskc')))
        if kind == 'sub':
            got = lambda: p.val('vapor_pressure')

            def kilo():
                try:
                    return equal(got(), min_(got(), p.ref('svp_kpa', p.val('temp')))) and all(
                        float(np.nanmax(p.valuation(s, 0)(got()))) < 10 for s in (0, 1))
                except Exception:
                    return False
            # saturated exactly when relative humidity is 100: vp = rh/100 svp(temp), in Pa
            c.eq('vapor_pressure in Pa', p, got,
                 Num(lambda v: v.out('rel_humid') / 100 * svp_pa(v.out('temp'))),
                 'the values of a variable are in its labelled unit: vapor pressure in Pa is relative humidity times '
                 'saturation vapor pressure in Pa', at='metsim/disaggregate.py in disaggregate',
                 key='sub-daily vapor_pressure kPa labelled Pa' if kilo() else None)
            c.eq('air_pressure in kPa', p, lambda: p.val('air_pressure'),
                 lambda: p.ref('air_pressure', p.val('temp'), p.dom('D_elev'), num(0.0065)),
                 'the values of a variable are in its labelled unit')
        else:
            for v in ('t_min', 't_max', 'vapor_pressure', 'prec', 'tskc'):
                c.eq(v, p, lambda: p.val(v), lambda: p.inp(v), 'the values of a variable are in its labelled unit')
        c.saw(p)
        return c
    return f


def svp_pa(t):
    from .. import oracle
    return oracle.svp(t)


def times(utc):
    def f():
        c = Checker('time attributes')
        for kind in ('daily', 'sub'):
            p = Prog(Config(ts=kind, utc=utc, out_vars=['prec', 'tskc']))
            at = {}
            for e in p.ev_of('nc_attr'):
                if e['var'] is const('time'):
                    at.setdefault(e['name'].args[0] if is_str(e['name']) else '?', []).append(e)
            for n in ('long_name', 'standard_name'):
                for want in (True, False):
                    if not at.get(n):
                        c.fact('%s %s' % (kind, n), False, 'time attributes', detail='time has no attribute ' + n)
                        continue
                    e = at[n][-1]

                    def says(v):
                        return 'utc' in str(v).lower()
                    ev = Ev(0, {'cfg_utc': want if utc is None else (utc is TRUE)}, {})
                    if utc is not None and want != (utc is TRUE):
                        continue
                    try:
                        v = ev(e['value'])
                    except Unknown as u:
                        c.add('%s %s' % (kind, n), 'undecided', 'time attributes', detail=str(u))
                        continue
                    c.fact('%s %s with utc_offset %s' % (kind, n, want), says(v) == want,
                           'the time attributes say UTC exactly when the UTC shift is on', at=e['at'],
                           detail='%s of time is %r with utc_offset %s' % (n, v, want))
            c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = [('%s %d' % (a, k), case(a, k)) for a in ('daily', 'sub') for k in range(5)]
    r += [('%s history' % a, case(a, 0, True)) for a in ('daily', 'sub')]
    r += [('absolute ' + a, absolute(a)) for a in ('daily', 'sub')]
    r += [('times', times(None)), ('times utc', times(TRUE)), ('times local', times(FALSE))]
    return r
