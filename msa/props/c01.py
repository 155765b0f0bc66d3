"""Sub-daily precipitation conserves the daily totals."""
from ..prog import *
LEVEL = 'other'


def case(pt, utc, pe=FALSE, method='mtclim', extra=(), steps=(None,)):
    def f():
        c = Checker('%s %s%s %s' % (pt, 'UTC' if utc is TRUE else 'local', ' period-ending' if pe is TRUE else '', method))
        p = Prog(Config(ts='sub', prec_type=pt, utc=utc, period_ending=pe, method=method, forcing_extra=extra,
                        out_vars=['prec', 't_min'] if False else ['prec']))
        ts = p.cfg.ts()
        v = lambda: p.val('prec')
        P = lambda: p.inp('prec')
        evs = lambda sd, cl: p.valuation(sd, cl)
        if utc is TRUE:
            c.eq('record total', p, lambda: ops.total(v()), lambda: ops.total(P()),
                 'the sum of the written precipitation is the sum of the input')
            # which day it falls on moves by the offset, the number of values does not
            c.eq('length', p, lambda: ops.length(v()), lambda: mul(p.ndays(), div(num(1440), ts)),
                 'one value for each step of each day')
        else:
            def days(x, y, e):
                n = len(y)
                if len(np.atleast_1d(x)) % n:
                    return x, y
                return np.asarray(x).reshape(n, -1).sum(1), y
            c.eq('day sums', p, v, P, 'the values of each day sum to the daily input', post=days)
            c.eq('day sums (normal form)', p, lambda: ops.blocksum(v(), div(num(1440), ts)), P,
                 'the values of each day sum to the daily input')
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []
    for pt in ('uniform', 'triangle', 'mix', 'TRIANGLE'):
        for utc in (FALSE, TRUE):
            r.append(('%s %s' % (pt, utc), case(pt, utc)))
    r.append(('period ending', case('mix', FALSE, TRUE)))
    r.append(('passthrough', case('uniform', FALSE, FALSE, 'passthrough', ('shortwave',))))
    r.append(('passthrough triangle', case('triangle', TRUE, FALSE, 'passthrough', ('shortwave',))))
    return r
