"""Only time steps that divide the day are accepted."""
from ..prog import *
from .c08 import created, computed
LEVEL = 'other'
RULE = 'a run is refused before an output file is created exactly when its step does not divide the day or is longer ' \
       'than 360 minutes and not a day'


def allowed(k):
    return k > 0 and 1440 % k == 0 and (k <= 360 or k == 1440)


class AnyStep(Config):
    def __init__(self, kind, **k):
        Config.__init__(self, **k)
        self.kind = kind

    def ts(self):
        return sym('cfg_step', self.kind)


class Step(Config):
    def __init__(self, value, **k):
        Config.__init__(self, **k)
        self.value = value

    def ts(self):
        return const(self.value)


def symbolic(kind, hi):
    def f():
        c = Checker('symbolic step given as %s' % kind)
        p = Prog(AnyStep(kind, ts='sub', utc=FALSE, period_ending=FALSE, out_vars=['prec']))
        c.saw(p)

        def go():
            if p.err and not p.died:
                raise Undecided(p.err)
            w = created(p)
            first = w[0]['seq'] if w else 10 ** 9
            rs = [e for e in p.all('raise') if not e['caught'] and e['seq'] < first]
            e0 = p.valuation(0, 0)
            n, bad = 0, None
            for k in range(-1500, hi):
                e = Ev(0, dict(e0.syms, cfg_step=float(k) if kind == 'int' else str(k)), e0.arrays)
                e.days, e.cells = e0.days, e0.cells
                refused = None
                for r in rs:
                    x = [truth_(e, t) for t in r['pc']]
                    if all(x):
                        refused = r
                        break
                n += 1
                if (refused is None) != allowed(k):
                    bad = (k, refused)
                    break
            if bad:
                k, r = bad
                c.add('steps -1500 to %d' % hi, 'violated', RULE, 'evaluation of the guard',
                      r['at'] if r else rs[-1]['at'] if rs else 'MetSim.run',
                      'a step of %d minutes is %s' % (k, 'refused' if r else 'accepted'))
            else:
                c.add('steps -1500 to %d' % hi, 'holds', RULE, 'evaluation of the guard (%d steps)' % n)
        c.guard('guard', RULE, go)
        return c
    return f


def truth_(e, t):
    v = e(t)
    return bool(np.asarray(v).reshape(-1)[0]) if isinstance(v, np.ndarray) and v.size == 1 else bool(v)


def concrete(values, text):
    def f():
        c = Checker('step given as %s' % ('text' if text else 'number'))
        for k in values:
            p = Prog(Step(str(k) if text else k, ts='sub', utc=FALSE, period_ending=FALSE,
                          out_vars=['tskc']))
            if p.err and not p.died:
                c.add(str(k), 'undecided', RULE, detail=p.err)
                continue
            w = created(p)
            ok = (not p.died and bool(w)) if allowed(k) else (p.died and not w)
            c.fact('%d minutes' % k, ok, RULE, at=p.death() if p.died else w[0]['at'] if w else '',
                   detail='a step of %d minutes is %s' % (k, 'refused' if p.died else 'accepted'), how='guard decided')
            c.saw(p)
        return c
    return f


def tasks(tier, seed):
    hi = 4400 if tier == 'quick' else 20000
    r = [('symbolic int', symbolic('int', hi)), ('symbolic text', symbolic('text', hi))]
    vals = [0, -60, -1440, 1, 7, 32, 48, 60, 90, 100, 360, 361, 480, 720, 1440, 2880, 1000, 359, 180, 3]
    if tier != 'quick':
        vals = sorted(set(vals) | {k for k in range(1, 1441) if 1440 % k == 0} | set(range(1, 1500, 37)))
    for t in (False, True):
        for k in range(0, len(vals), 5):
            r.append(('concrete', concrete(vals[k:k + 5], t)))
    return r
