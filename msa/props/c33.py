"""Storm parameters come from the month of each day."""
from ..prog import *
from .c35 import ref
LEVEL = 'other'


def case(pt, seeds, **k):
    def f():
        c = Checker(pt, seeds=seeds)
        p = Prog(Config(ts='sub', prec_type=pt, utc=FALSE, period_ending=FALSE, out_vars=['prec'], **k))
        # periods that start in every month and cross into the next
        def evs(sd, cell):
            e = V.whole(p.cfg, sd, ts=60, start=MONTHS[sd % 12])
            e.syms['cell'] = float(cell)
            return e
        c.eq('storm parameters', p, lambda: p.val('prec'), ref(pt),
             'duration and peak of each day are those the domain gives for the day\'s own month', evs=evs)
        c.saw(p)
        return c
    return f


MONTHS = [(2001 + m % 4, m, 27 if m == 2 else 29) for m in range(1, 13)]


def tasks(tier, seed):
    sd = tuple(range(12 if tier == 'quick' else 36))
    return [(pt, case(pt, sd)) for pt in ('triangle', 'mix')] + [('triangle f8', case('triangle', sd, out_precision='f8'))]
