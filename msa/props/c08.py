"""Every accepted output variable can be produced."""
from ..prog import *
from .c06 import DAILY, SUB
from .c07 import DEFAULT
LEVEL = 'other'
ALL = sorted(set(DAILY) | set(SUB) | {'tdew', 'seasonal_prec', 'elev', 'potrad', 'nonsense', 'dtr', 'tfmax'})


def computed(p):
    """Names of the output variables for which values are computed and written."""
    return {e['var'].args[0] for e in p.all('nc_write') if is_str(e['var']) and e['value'].op == 'scatter'}


def created(p):
    return [e for e in p.all('nc_open') if not (is_str(e['mode']) and str(e['mode'].args[0]).startswith('r'))]


def accepted(kind, var, extra, **k):
    def f():
        c = Checker('%s %s%s' % (kind, var, ' ' + describe(k) if k else ''))
        p = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, forcing_extra=extra, out_vars=[var], **k))
        if p.err and not p.died:
            c.add('produced', 'undecided', 'accepted variables', detail=p.err)
            return c
        c.fact('produced', not p.died and 'N_' + var in computed(p),
               'a documented output variable is accepted, computed, converted and written',
               at=p.death() if p.died else '', detail='the request of %s for %s output fails' % (var, kind))
        a = [e for e in p.all('nc_attr') if is_str(e['var']) and e['var'].args[0] == 'N_' + var]
        n = {e['name'].args[0] for e in a if is_str(e['name'])}
        c.fact('metadata', {'units', 'long_name'} <= n, 'an output variable has units and a long name',
               detail='%s has attributes %s only' % (var, sorted(n)))
        c.saw(p)
        return c
    return f


def refused(kind, var, extra=()):
    def f():
        c = Checker('%s %s' % (kind, var))
        p = Prog(Config(ts=kind, utc=FALSE, period_ending=FALSE, forcing_extra=extra, out_vars=[var]))
        refusal(c, 'refused', p, 'a name that is not an output of the time step is refused before output is created')
        c.saw(p)
        return c
    return f


def refusal(c, name, p, rule):
    if p.err and not p.died:
        return c.add(name, 'undecided', rule, detail=p.err)
    w = created(p)
    return c.fact(name, p.died and not w, rule, at=w[0]['at'] if w else 'MetSim.run',
                  detail='the run is not refused' + (', an output file is created' if w else ''))


def tasks(tier, seed):
    r = []
    for kind, names in (('daily', DAILY), ('sub', SUB)):
        for v in names:
            r.append(('%s %s' % (kind, v), accepted(kind, v, ('wind',) if v == 'wind' else ())))
        for v in ALL:
            if v not in names:
                r.append(('%s not %s' % (kind, v), refused(kind, v)))
    for v in DAILY:
        r.append(('passthrough ' + v, accepted('daily', v, ('shortwave',) + (('wind',) if v == 'wind' else ()),
                                               method='passthrough')))
    for v in SUB:
        r.append(('passthrough sub ' + v, accepted('sub', v, ('shortwave',) + (('wind',) if v == 'wind' else ()),
                                                   method='passthrough')))
    return r
