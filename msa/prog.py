"""One analysed configuration of the program and comparisons of its value graph with the
graph of a reference definition."""
import os
import numpy as np
from . import terms as tm
from .terms import *
from . import ops
from . import harness as hs
from .harness import Config, Harness
from .interp import Dead, Unmodelled
from .values import *
from . import valuations as V
from .val import Unknown, same, Ev

REPO = os.environ.get('MSA_REPO', '/repo')
CELL = sym('cell', 'int')


class Undecided(Exception):
    """The analysis has no answer for this obligation."""


class Out(object):
    """What is written for one output variable: the series of the cell CELL, the condition
    under which the cell is computed, where it is written."""

    def __init__(self, name, e):
        self.name, self.event = name, e
        v = e['value']
        if v.op != 'scatter' or v.args[3].op != 'locs':
            raise Undecided('%s is not written cell by cell (%s)' % (name, v.op))
        base, n, h, locs, val, g = v.args
        m = {mk('bi', h): CELL}
        if n.op != 'size':
            # cells enumerated in another way: name them by their location
            for q in locs.args:
                d = q.args[0].args[0] if isinstance(q.args[0], tm.T) else q.args[0]
                if not is_num(q.args[1]):
                    m[q.args[1]] = mk('nd', CELL, d)
        self.base, self.n = base, n
        self.locs, self.val, self.guard = subst(locs, m), subst(val, m), subst(g, m)
        self.raw = v


class Prog(object):
    def __init__(self, cfg, h=None, before=()):
        self.cfg = cfg
        self.h = h or Harness()
        self.err = None
        self.died = False          # every path ends in an exception of the program
        self.I = None
        try:
            hs.run(cfg, REPO, self.h, lambda I: setattr(self, 'I', I), before=before)
        except Dead:
            self.died = True
            self.err = 'every path of the program ends in ' + self.death()
        except (Unmodelled, SyntaxError) as e:
            self.err = 'analysis stopped: %s' % (str(e)[:200],)
        except RecursionError:
            self.err = 'analysis stopped: recursion'
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
            if os.environ.get('MSA_DEBUG'):
                raise
            self.err = 'analysis stopped: %s %s' % (type(e).__name__, str(e)[:200])
        self.unm = list(self.I.unmodelled)
        self._outs = None
        tm.CUR[0] = None

    def death(self):
        r = [e for e in self.I.events if e['kind'] == 'raise' and not e['caught']]
        return '%s raised at %s (%s)' % (r[-1]['exc'], r[-1]['at'], show(r[-1]['msg'], 4)[:120]) if r else 'an exception'

    def all(self, kind):
        """Events up to wherever the analysis got."""
        return [e for e in self.I.events if e['kind'] == kind]

    @property
    def events(self):
        if self.err:
            raise Undecided(self.err)
        return self.I.events

    def ev_of(self, kind):
        return [e for e in self.events if e['kind'] == kind]

    @property
    def outs(self):
        if self._outs is None:
            o = {}
            for e in self.ev_of('nc_write'):
                v = e['var']
                if is_str(v) and str(v.args[0]).startswith('N_'):
                    o.setdefault(v.args[0][2:], []).append(e)
            self._outs = o
        return self._outs

    def out(self, name):
        es = self.outs.get(name)
        if not es:
            raise Undecided('no write of %s found%s' % (name, ': ' + self.unm[0][0] if self.unm else ''))
        if len(es) > 1:
            raise Undecided('%s is written at several places' % name)
        return Out(name, es[0])

    def val(self, name):
        return self.out(name).val

    # -------------------------------------------------------------- inputs
    def loc(self, d):
        return mk('nd', CELL, d)

    def dom(self, var):
        """Value of a domain variable at the cell."""
        x = mk('var', mk('file', hs.DOMAIN), const(var))
        for d in ('lat', 'lon'):
            if d in ops.dims_of(x):
                x = ops.isel(x, d, self.loc(d))
        return x

    def inp(self, model):
        """The forcing series of a model variable at the cell, over the run's days."""
        x = mk('var', mk('file', hs.FORCING), const(self.cfg.forc[model]))
        for d in ('lat', 'lon'):
            x = ops.csel(x, d, self.dom(d))
        a, b = self.period()
        return ops.tsel(x, self.cfg.dft, a, b)

    def period(self):
        if self.cfg.start == 'forcing':
            n = ops.length(self.cfg.dft)
            return ops.getitem(self.cfg.dft, ZERO), ops.getitem(self.cfg.dft, sub(n, ONE))
        return sym('cfg_start', 'date'), sym('cfg_stop', 'date')

    def days(self):
        a, b = self.period()
        return ops.tsel(self.cfg.dft, self.cfg.dft, a, b)

    def ndays(self):
        return ops.length(self.days())

    def doy(self):
        return mk('doy', self.days())

    # ----------------------------------------------------------- reference
    def ref(self, name, *args, mod='cell'):
        I = self.I
        try:
            f = I.mod_attr('msaref.' + mod, name)
            a = [self.wrap(x) for x in args]
            n0 = len(I.unmodelled)
            v = I.resolve(I.call(f, a, {}))
        except (Dead, Unmodelled) as e:
            raise Undecided('reference %s: %s' % (name, str(e)[:150]))
        if isinstance(v, Tup):
            return tuple(I.term(I.resolve(x)) for x in v.items)
        return I.term(v)

    def wrap(self, x):
        if isinstance(x, T) and ops.is_arr(x):
            return self.I.arr(x)
        if isinstance(x, (int, float, str, bool)) or x is None:
            return const(x)
        return x

    # -------------------------------------------------------- valuations
    def valuation(self, seed, cell, ts=None, **kw):
        e = V.whole(self.cfg, seed, ts, **kw)
        e.syms['cell'] = float(cell)
        return e


def params(*names):
    """Numeric settings as symbols."""
    return {n: sym('cfg_' + n, 'num') for n in names or V.PARAMS if n != 'tdew_tol'}


class Vals(object):
    """Inputs of one cell under one valuation."""

    def __init__(self, p, e):
        self.p, self.e = p, e
        self.days = e.days
        self.n = len(e.days)

    def __getattr__(self, n):
        e, p = self.e, self.p
        if n in ('lat', 'lon'):
            return float(np.asarray(e(p.dom(n))).reshape(-1)[0])
        if n == 'elev':
            return float(e(p.dom('D_elev')))
        if n in V.PARAMS:
            return e.syms['cfg_' + n] if n in p.cfg.extra else DEFAULTS[n]
        if n == 'ts':
            return 1440 if p.cfg.ts_kind == 'daily' else int(e.syms['cfg_ts'])
        if n in p.cfg.forc:
            return np.asarray(e(p.inp(n)))
        raise AttributeError(n)

    def out(self, name):
        return np.asarray(self.e(self.p.val(name)))

    def monthly(self, var):
        """A domain variable by month, at each day."""
        from . import oracle
        c = int(self.e.syms['cell'])
        a = self.e.arrays[('file(cfg_domain)', var)]
        nlat, nlon = self.e.cells
        return np.array([a[m - 1, c // nlon, c % nlon] for m in oracle.months(self.days)])

    def history(self, var, fvar):
        """The 90 days before the start from the state, then the forcing of the period."""
        c = int(self.e.syms['cell'])
        nlat, nlon = self.e.cells
        ds, a = np.asarray(self.e.syms['days_state']), self.e.arrays[('file(cfg_state)', var)]
        st = self.e.days[0]
        k = (ds >= st - 90 * 1440) & (ds <= st - 1440)
        assert k.sum() == 90
        return np.concatenate([a[k, c // nlon, c % nlon], np.asarray(fvar)])

    def seasonal_prec(self):
        h = self.history('S_prec', self.prec)
        return np.array([365.25 * h[i + 1:i + 91].mean() for i in range(self.n)])

    def smooth_dtr(self):
        h = self.history('S_tmax', self.t_max) - self.history('S_tmin', self.t_min)
        return np.array([h[i + 61:i + 91].mean() for i in range(self.n)])

    def solar(self):
        """Rows of the simulated days: (fractions, daylength, potrad, ttmax)."""
        from . import oracle
        r = [oracle.solar_day(self.elev, self.lat, self.lapse_rate, d - 1) for d in oracle.doys(self.days)]
        return [np.array([x[k] for x in r]) for k in range(4)]


DEFAULTS = {'lapse_rate': 0.0065, 'tday_coef': 0.45, 'rain_scalar': 0.75, 'sw_prec_thresh': 0.0,
            'tmax_daylength_fraction': 0.67, 'tdew_tol': 1e-6}


def blame(got, want, e):
    """Deepest node at which the two graphs part, and the statement that made it."""
    at = got.at
    for _ in range(60):
        if got.op != want.op or len(got.args) != len(want.args):
            break
        d = []
        for x, y in zip(got.args, want.args):
            if isinstance(x, T) and isinstance(y, T) and x is not y:
                try:
                    if not same(e(x), e(y)):
                        d.append((x, y))
                except Exception:
                    d.append((x, y))
        if len(d) != 1:
            break
        got, want = d[0]
        if got.at and not got.at[0].startswith('msaref'):
            at = got.at
    return at


def place(at):
    if not at:
        return '?'
    return '%s.py:%s in %s' % (at[0].replace('.', '/'), at[1], at[2] or '<module>')


def describe(k):
    r = []
    for n, v in k.items():
        if isinstance(v, T):
            if n in ('utc', 'u'):
                r.append('UTC' if v is TRUE else 'local')
            elif n == 'period_ending':
                r += ['period-ending'] if v is TRUE else []
            continue
        if isinstance(v, (tuple, list)):
            r += ['with ' + ' '.join(v)] if v else []
        else:
            r.append(str(v))
    return ' '.join(r)


class Num(object):
    """A reference given as a function of the values of one valuation."""

    def __init__(self, f):
        self.f = f


class Checker(object):
    """Collects obligations."""

    def __init__(self, label, seeds=(0, 1, 2), cells=(0, 3)):
        self.label, self.seeds, self.cells = label, seeds, cells
        self.obs = []
        self.analysed = set()
        self.known = {}

    def add(self, name, status, rule, how='', at='', detail='', key=None):
        self.obs.append(dict(name='%s: %s' % (self.label, name) if self.label else name, status=status, rule=rule,
                             how=how, at=at, detail=detail, key=key or ''))
        return status

    def saw(self, *ps):
        for p in ps:
            self.analysed |= p.I.stmts_seen

    def guard(self, name, rule, f):
        try:
            return f()
        except Undecided as e:
            self.add(name, 'undecided', rule, detail=str(e))
        except (Unknown, RecursionError) as e:
            self.add(name, 'undecided', rule, detail='evaluation: ' + str(e)[:150])
        except (Dead, Unmodelled) as e:
            self.add(name, 'undecided', rule, detail='analysis: ' + str(e)[:150])

    def fact(self, name, ok, rule, at='', detail='', how='structure', key=None):
        """An obligation decided on the structure of the analysed program."""
        return self.add(name, 'holds' if ok else 'violated', rule, how, at, '' if ok else detail, key)

    def eq(self, name, prog, got, want, rule, tol=1e-6, post=None, ts=(None,), seeds=None, cells=None, at=None,
           rel=None, detail='', evs=None, key=None):
        """got must equal want.  Equal normal forms prove it; otherwise both graphs are
        evaluated on random valuations of the inputs and must differ to be reported."""
        def go():
            g = got() if callable(got) else got
            w = want.f if isinstance(want, Num) else want() if callable(want) else want
            if rel is None and post is None and isinstance(w, T) and equal(g, w):
                return self.add(name, 'holds', rule, 'normal form')
            n = 0
            why = ''
            for sd in seeds or self.seeds:
                for c in cells or self.cells:
                    e = (evs or prog.valuation)(sd, c)
                    bad = misfit(prog, e)
                    if bad:
                        return self.add(name, 'violated', rule, 'lengths', bad.at, '%s; %s' % (bad, cell_of(e, sd, c)), key)
                    try:
                        x = e(g)
                        y = e(w) if isinstance(w, T) else w(Vals(prog, e))
                        if post:
                            x, y = post(x, y, e)
                    except Unknown as u:
                        why = str(u)
                        continue
                    except (ValueError, TypeError, IndexError, FloatingPointError, AttributeError) as u:
                        why = 'evaluator: %s %s' % (type(u).__name__, str(u)[:100])
                        continue
                    ok = rel(x, y) if rel else same(x, y, tol)
                    if not ok:
                        where = at or place(blame(g, w, e) if isinstance(w, T) else g.at)
                        return self.add(name, 'violated', rule, 'value graphs differ', where,
                                        '%s%s' % (detail + '; ' if detail else '', witness(x, y, e, sd, c)), key)
                    n += 1
            if n == 0:
                raise Undecided('cannot evaluate: ' + why)
            self.add(name, 'holds', rule, 'random interpretation (%d valuations)' % n)
        return self.guard(name, rule, go)


def misfit(prog, e):
    """Arrays of different lengths that are combined."""
    from . import files
    for ev in prog.all('shape') if hasattr(prog, 'all') else ():
        if ev['what'] in ('operands', 'bincount'):
            try:
                files.lengths(e, ev)
            except files.Bad as b:
                return b
            except (ValueError, TypeError, IndexError):
                pass


def cell_of(e, seed, cell):
    return 'valuation seed %d cell %d (period %s.., step %s min)' % (
        seed, cell, str(V.fmt_day(e.syms.get('cfg_start'))), e.syms.get('cfg_ts'))


def witness(x, y, e, seed, cell):
    import numpy as np
    def arr(v):
        return np.atleast_1d(np.asarray(getattr(v, 'a', v), dtype=float)).reshape(-1)
    s = 'valuation seed %d cell %d (period %s.., step %s min)' % (
        seed, cell, str(V.fmt_day(e.syms.get('cfg_start'))), e.syms.get('cfg_ts'))
    try:
        a, b = arr(x), arr(y)
        if a.size != b.size:
            return '%s: %d values instead of %d' % (s, a.size, b.size)
        bad = ~((np.abs(a - b) <= 1e-6 * np.maximum(np.abs(a), np.abs(b)) + 1e-9) | (np.isnan(a) & np.isnan(b)))
        k = int(np.nonzero(bad)[0][0]) if bad.any() else 0
        return '%s: step %d has %.8g where %.8g is required (%d of %d steps differ)' % (
            s, k, a[k], b[k], int(bad.sum()), a.size)
    except Exception:
        return '%s: %.60s where %.60s is required' % (s, x, y)
