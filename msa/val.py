"""Random interpretation: value-graph nodes evaluated over a small random valuation of the
inputs.  Only used to tell apart two graphs whose normal forms differ: a difference is
reported as one when the valuation shows it, never because normalisation fell short."""
import random
import datetime
import struct
import warnings
import numpy as np
from . import terms as tm
from .terms import T
from . import ops

np.seterr(all='ignore')
DAY = 1440.0
EPOCH = datetime.datetime(1970, 1, 1)


class Unknown(Exception):
    pass


def minutes(d):
    return (d - EPOCH).total_seconds() / 60.0


def todatetime(m):
    return EPOCH + datetime.timedelta(minutes=float(m))


class Lab(object):
    """Labelled array of more than one (named) dimension."""
    def __init__(self, dims, a):
        self.dims, self.a = tuple(dims), a

    def refuse(self, *a, **k):
        raise Unknown('labelled value as a plain one')

    __array__ = __bool__ = __float__ = __int__ = __len__ = __iter__ = refuse


class NC(object):
    pass


# free names of a node: loop heights and recursion names
_FREE = {}


def free(t):
    r = _FREE.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'bi':
        r = frozenset([('b', t.args[0])])
    elif op in ('rv', 'ri'):
        r = frozenset([('r', t.args[0])])
    elif op == 'i':
        r = frozenset([('i', t)])
    else:
        out = set()
        pos = tm.BINDERS.get(op)
        for k, a in enumerate(t.args):
            if isinstance(a, T):
                f = free(a)
                if pos is not None and k > pos:
                    f = f - {('b', t.args[pos])}
                if op in ('rec', 'collect') and k != 4:
                    f = f - {('r', t.args[0])}
                out |= f
        r = frozenset(out)
    _FREE[t] = r
    return r


class Ev(object):
    """One valuation.  syms: name -> value; files: (path-name, var) -> ndarray with dims by
    ops.VARDIMS; unknown leaves raise Unknown."""

    def __init__(self, seed=0, syms=None, arrays=None, subst=None):
        self.rng = random.Random(seed)
        self.syms = syms or {}
        self.arrays = arrays or {}      # node -> value
        self.memo = {}
        self.types = None               # element type of the coordinates of files
        self.budget = 4000000
        self.cells = None               # sizes of the dimensions of the mask
        self.dims = ('lat', 'lon')      # of the mask
        self.subs = {}
        self.files = {}                 # contents by path
        self.ints = set()               # names of variables that hold integers

    # ------------------------------------------------------------ evaluation
    def __call__(self, t, env=()):
        return self.ev(t, dict(env))

    def key(self, t, env):
        f = free(t)
        if not f:
            return t
        try:
            return (t,) + tuple((n, vkey(env[n]) if n[0] != 'r' else env[n][0]) for n in sorted(f, key=str))
        except KeyError:
            raise Unknown('free name in %s' % t.op)

    def ev(self, t, env):
        k = self.key(t, env)
        if k in self.memo:
            return self.memo[k]
        self.budget -= 1
        if self.budget < 0:
            raise Unknown('budget')
        v = self.arrays.get(t)
        if v is None:
            m = getattr(self, 'op_' + t.op, None)
            if m is None:
                raise Unknown('operation ' + t.op)
            v = m(t, env)
        self.memo[k] = v
        return v

    def sc(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return v.reshape(-1)[0]
            raise Unknown('array where a scalar is expected: %s' % t.op)
        return v

    def int(self, t, env):
        v = self.sc(t, env)
        return int(round(float(v)))

    def ar(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (int, float, bool, np.generic)):
            return np.array([v])
        return v

    # ------------------------------------------------------------- constants
    def op_num(self, t, env):
        v = t.args[0]
        return float(v)

    def op_str(self, t, env):
        return t.args[0]

    def op_true(self, t, env):
        return True

    def op_false(self, t, env):
        return False

    def op_none(self, t, env):
        return None

    def op_nan(self, t, env):
        return float('nan')

    def op_inf(self, t, env):
        return float('inf') * t.args[0]

    def op_sym(self, t, env):
        n = t.args[0]
        if n in self.syms:
            return self.syms[n]
        if n == 'minute':
            return 1.0
        if t.args[1] in ('text', 'path'):
            return 'txt_' + n
        raise Unknown('leaf ' + n)

    # ------------------------------------------------------------ arithmetic
    def bin(self, vals, f):
        r = vals[0]
        for v in vals[1:]:
            r = self.two(r, v, f)
        return r

    def two(self, a, b, f):
        if isinstance(a, Lab) or isinstance(b, Lab):
            a, b, dims = align(a, b)
            return Lab(dims, f(a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise Unknown('arithmetic on text or None')
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.ndim == 1 and b.ndim == 1 and a.size != b.size and 1 not in (a.size, b.size):
                raise Unknown('lengths %d and %d' % (a.size, b.size))
            if a.ndim != b.ndim:
                if a.ndim == 2 and b.ndim == 1 and b.size == a.shape[1]:
                    pass
                elif not (a.size == 1 or b.size == 1):
                    raise Unknown('ranks')
        try:
            return f(a, b)
        except ZeroDivisionError:
            return float('nan')

    def op_add(self, t, env):
        return self.bin([self.ev(a, env) for a in t.args], lambda a, b: a + b)

    def op_mul(self, t, env):
        return self.bin([num1(self.ev(a, env)) for a in t.args], lambda a, b: a * b)

    def op_pow(self, t, env):
        def f(a, b):
            r = np.power(np.asarray(a, dtype=float), b)
            return r if r.ndim else float(r)
        return self.two(self.ev(t.args[0], env), self.ev(t.args[1], env), f)

    def op_mod(self, t, env):
        return self.two(self.ev(t.args[0], env), self.ev(t.args[1], env),
                        lambda a, b: fl(np.mod(a, b)))

    def op_floor(self, t, env):
        return self.one(self.ev(t.args[0], env), np.floor)

    def one(self, v, f):
        if isinstance(v, Lab):
            return Lab(v.dims, f(v.a))
        if v is None or isinstance(v, str):
            raise Unknown('arithmetic on text or None')
        return fl(f(np.asarray(v, dtype=float)))

    FUN = {'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'acos': np.arccos,
           'asin': np.arcsin, 'atan': np.arctan, 'floor': np.floor, 'ceil': np.ceil, 'rint': np.rint,
           'abs': np.abs, 'sign': np.sign, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh,
           'log10': np.log10, 'log2': np.log2, 'int': np.trunc, 'cbrt': np.cbrt, 'sqrt': np.sqrt}

    def op_f(self, t, env):
        f = self.FUN.get(t.args[0])
        if f is None:
            raise Unknown('function ' + t.args[0])
        v = self.ev(t.args[1], env)
        if t.args[0] == 'int' and isinstance(v, str):
            return float(int(v))
        return self.one(v, f)

    def op_numof(self, t, env):
        v = self.ev(t.args[0], env)
        try:
            return float(v)
        except Exception:
            raise Unknown('number of %r' % (v,))

    def op_min(self, t, env):
        return self.bin([self.ev(a, env) for a in t.args], lambda a, b: fl(np.minimum(a, b)))

    def op_max(self, t, env):
        return self.bin([self.ev(a, env) for a in t.args], lambda a, b: fl(np.maximum(a, b)))

    def op_fext(self, t, env):
        n = t.args[0]
        a = t.args[1:]
        if n in ('remainder',) and len(a) == 2:
            def f(x, y):
                return fl(np.asarray(x) - np.asarray(y) * np.rint(np.asarray(x) / np.asarray(y)))
            return self.two(self.ev(a[0], env), self.ev(a[1], env), f)
        if n == 'fmod':
            return self.two(self.ev(a[0], env), self.ev(a[1], env), lambda x, y: fl(np.fmod(x, y)))
        if n in ('arctan2', 'hypot', 'copysign'):
            return self.two(self.ev(a[0], env), self.ev(a[1], env), lambda x, y: fl(getattr(np, n)(x, y)))
        if n == 'round':
            d = int(self.sc(a[1], env)) if len(a) > 1 else 0
            return self.one(self.ev(a[0], env), lambda x: np.round(x, d))
        if n == 'bincount':
            ids, w = self.ar(a[0], env), self.ar(a[1], env)
            return np.bincount(np.asarray(ids, dtype=int), None if w is None else w).astype(float)
        if n == 'reduceat':
            return np.add.reduceat(self.ar(a[0], env), np.asarray(self.ar(a[1], env), dtype=int))
        if n == 'searchsorted':
            return np.searchsorted(self.ar(a[0], env), self.ev(a[1], env)).astype(float)
        if n == 'tile':
            return np.tile(self.ar(a[0], env), int(self.sc(a[1], env)))
        if n == 'dot' or n == 'matmul':
            return fl(np.dot(self.ev(a[0], env), self.ev(a[1], env)))
        if n == 'isclose':
            return self.two(self.ev(a[0], env), self.ev(a[1], env), np.isclose)
        if n == 'isin':
            return np.isin(self.ev(a[0], env), self.ar(a[1], env))
        if n == 'datefield':
            return self.field(a[0], self.ev(a[1], env))
        raise Unknown('fext ' + str(n))

    # ------------------------------------------------------------ conditions
    def cond(self, t, env, f):
        v = self.ev(t.args[0], env)
        if isinstance(v, Lab):
            return Lab(v.dims, f(v.a))
        if v is None or isinstance(v, str):
            raise Unknown('comparison of text or None')
        r = f(v)
        return r if isinstance(r, np.ndarray) else bool(r)

    def op_lt0(self, t, env):
        return self.cond(t, env, lambda v: v < -EPS)

    def op_le0(self, t, env):
        return self.cond(t, env, lambda v: v <= EPS)

    def op_eq0(self, t, env):
        return self.cond(t, env, lambda v: abs(v) <= EPS)

    def op_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.equal(a, b)
        return a == b

    def op_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return a is b

    def op_not(self, t, env):
        v = self.ev(t.args[0], env)
        return self.one_b(v, np.logical_not)

    def one_b(self, v, f):
        if isinstance(v, Lab):
            return Lab(v.dims, f(v.a))
        if isinstance(v, np.ndarray):
            return f(v.astype(bool))
        return bool(f(bool(v)))

    def logic(self, t, env, f, stop):
        r = None
        for a in t.args:
            v = self.ev(a, env)
            if not isinstance(v, (np.ndarray, Lab)):
                v = truth(v)
                if v is stop and not isinstance(r, np.ndarray):
                    return stop
            r = v if r is None else self.two(r, v, f)
        return r

    def op_and(self, t, env):
        return self.logic(t, env, np.logical_and, False)

    def op_or(self, t, env):
        return self.logic(t, env, np.logical_or, True)

    def op_truth(self, t, env):
        v = self.ev(t.args[0], env)
        return v.astype(bool) if isinstance(v, np.ndarray) and (v.size != 1 or True) else truth(v)

    def op_isnull(self, t, env):
        v = self.ev(t.args[0], env)
        if v is None:
            return True
        return np.isnan(v) if isinstance(v, np.ndarray) else bool(v != v)

    op_isnull_ = op_isnull

    def op_contains(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, str) and isinstance(b, str):
            return b in a
        raise Unknown('contains')

    def op_isinstance(self, t, env):
        raise Unknown('isinstance')

    def op_ite(self, t, env):
        c = self.ev(t.args[0], env)
        if isinstance(c, (np.ndarray, Lab)):
            a, b = num1(self.ev(t.args[1], env)), num1(self.ev(t.args[2], env))
            if isinstance(c, Lab) or isinstance(a, Lab) or isinstance(b, Lab):
                if a is None or b is None:
                    raise Unknown('choice with None')
                return choice(c, a, b)
            if a is None or b is None:
                raise Unknown('choice with None')
            n = {x.size for x in (c, a, b) if isinstance(x, np.ndarray) and x.ndim == 1 and x.size != 1}
            if len(n) > 1:
                raise Unknown('lengths %s' % n)
            return np.where(c.astype(bool), a, b)
        return self.ev(t.args[1] if truth(c) else t.args[2], env)

    # ---------------------------------------------------------------- lengths
    def op_len(self, t, env):
        a = t.args[0]
        v = self.ev(a, env)
        if isinstance(v, (np.ndarray, list, tuple, str)):
            return float(len(v))
        if isinstance(v, Lab):
            return float(v.a.shape[0])
        raise Unknown('length of %s' % a.op)

    def op_ncols(self, t, env):
        v = self.ev(t.args[0], env)
        return float(v.shape[1])

    def op_count(self, t, env):
        v = self.ev(t.args[0], env)
        return float(np.count_nonzero(v.a if isinstance(v, Lab) else v))

    def op_size(self, t, env):
        v = self.ev(t.args[0], env)
        return float((v.a if isinstance(v, Lab) else np.asarray(v)).size)

    def op_dimlen(self, t, env):
        d = t.args[-1]
        d = d.args[0] if d.op == 'str' else self.ev(d, env)
        k = 'dim_' + str(d)
        if k in self.syms:
            return self.syms[k]
        raise Unknown(k)

    # ----------------------------------------------------------------- arrays
    def op_full(self, t, env):
        v = self.ev(t.args[1], env)
        if t.args[0].op == 'tuple':
            sh = tuple(self.int(x, env) for x in t.args[0].args)
            return np.full(sh, self.sc_of(v), dtype=float)
        n = self.int(t.args[0], env)
        if n < 0:
            raise Unknown('negative length')
        if isinstance(v, np.ndarray):
            return np.tile(v, (n, 1))
        if isinstance(v, bool):
            return np.full(n, v)
        return np.full(n, np.nan if v is None else v, dtype=float)

    def sc_of(self, v):
        return v

    def op_zeros2(self, t, env):
        return np.zeros((self.int(t.args[0], env), self.int(t.args[1], env)))

    def op_drange(self, t, env):
        a, s, n = self.sc(t.args[0], env), self.sc(t.args[1], env), self.int(t.args[2], env)
        return a + s * np.arange(max(n, 0))

    def op_linspace(self, t, env):
        n = self.int(t.args[2], env)
        return np.linspace(self.sc(t.args[0], env), self.sc(t.args[1], env), max(n, 0))

    def op_repeat(self, t, env):
        return np.repeat(self.ar(t.args[0], env), self.int(t.args[1], env))

    def op_roll(self, t, env):
        return np.roll(self.ar(t.args[0], env), self.int(t.args[1], env))

    def op_flat(self, t, env):
        v = self.ev(t.args[0], env)
        return v.a.reshape(-1) if isinstance(v, Lab) else self.ar(t.args[0], env).reshape(-1)

    op_flatd = op_flat

    def op_blocksum(self, t, env):
        x, m = self.ar(t.args[0], env), self.int(t.args[1], env)
        if m <= 0 or x.size % m:
            raise Unknown('blocks of %d in %d' % (m, x.size))
        return x.reshape(-1, m).sum(axis=1)

    def op_blockred(self, t, env):
        how, x, m = t.args
        x, m = self.ar(x, env), self.int(m, env)
        if m <= 0 or x.size % m:
            raise Unknown('blocks')
        if not isinstance(how, str):
            how = self.ev(how, env)
        return getattr(np, how)(x.reshape(-1, m), axis=1)

    def op_sum(self, t, env):
        v = self.ar(t.args[0], env)
        return float(np.nansum(v.a) if isinstance(v, Lab) else np.sum(v))

    def op_reddim(self, t, env):
        how, x, ds = t.args
        v = self.ev(x, env)
        if not isinstance(v, Lab):
            if not isinstance(v, np.ndarray):
                return v
            v = Lab(ops.dims_of(x) or ds, v)
        if v.a.ndim != len(v.dims) or any(d not in v.dims for d in ds):
            raise Unknown('reduction over %s of %s' % (ds, v.dims))
        f = {'sum': np.nansum, 'mean': np.nanmean, 'min': np.nanmin, 'max': np.nanmax, 'any': np.any, 'all': np.all,
             'std': np.nanstd, 'var': np.nanvar, 'prod': np.nanprod, 'median': np.nanmedian}[how]
        return self.lab(tuple(d for d in v.dims if d not in ds), np.asarray(f(v.a, axis=tuple(v.dims.index(d) for d in ds))))

    def op_reduce(self, t, env):
        how = t.args[0] if isinstance(t.args[0], str) else self.ev(t.args[0], env)
        f = getattr(np, how, None)
        if f is None:
            raise Unknown('reduce ' + str(how))
        v = self.ar(t.args[1], env)
        if isinstance(v, Lab):
            f, v = getattr(np, 'nan' + how, f), v.a
        return fl(f(v))

    def op_cumsum(self, t, env):
        return np.cumsum(self.ar(t.args[0], env))

    def op_diff(self, t, env):
        return np.diff(self.ar(t.args[0], env))

    def op_sorted(self, t, env):
        return np.sort(self.ar(t.args[0], env))

    def op_concat(self, t, env):
        xs = [self.ar(a, env) for a in t.args[1:]]
        if not xs:
            return np.zeros(0)
        if any(isinstance(x, Lab) for x in xs):
            dims = xs[0].dims
            if any(not isinstance(x, Lab) or x.dims != dims for x in xs):
                raise Unknown('labelled concat')
            d = t.args[0].args[0] if t.args[0].op == 'str' else dims[0]
            return Lab(dims, np.concatenate([x.a for x in xs], axis=dims.index(d)))
        return np.concatenate(xs)

    def op_interleave(self, t, env):
        return np.stack([self.ar(a, env) for a in t.args], axis=1).reshape(-1)

    def op_arr(self, t, env):
        return np.array([self.sc(a, env) for a in t.args])

    def op_rows2(self, t, env):
        return np.stack([self.ar(a, env) for a in t.args])

    def op_colstack(self, t, env):
        return np.stack([self.ar(a, env) for a in t.args], axis=1)

    def op_colvec(self, t, env):
        return self.ar(t.args[0], env).reshape(-1, 1)

    def op_transpose(self, t, env):
        return self.ar(t.args[0], env).T

    def op_reshape2(self, t, env):
        return self.ar(t.args[0], env).reshape(-1, self.int(t.args[1], env))

    def op_column(self, t, env):
        if t.args[0].op in ('str', 'sym', 'joinpath', 'abspath'):
            f = self.files.get(self.ev(t.args[0], env))
            if f is None:
                raise Unknown('file contents')
            return f[:, self.int(t.args[1], env)]
        return self.ar(t.args[0], env)[:, self.int(t.args[1], env)]

    def op_rows(self, t, env):
        f = self.files.get(self.ev(t.args[0], env))
        if f is None:
            raise Unknown('file contents')
        return np.asarray(f)

    def op_colsum(self, t, env):
        return np.sum(self.ar(t.args[0], env), axis=0)

    def op_colred(self, t, env):
        return getattr(np, self.ev(t.args[1], env))(self.ar(t.args[0], env), axis=0)

    def op_storecol(self, t, env):
        x = np.array(self.ar(t.args[0], env), dtype=float)
        x[:, self.int(t.args[1], env)] = self.ev(t.args[2], env)
        return x

    def op_select(self, t, env):
        return self.ar(t.args[0], env)[np.asarray(self.ev(t.args[1], env), dtype=bool)]

    def op_nz(self, t, env):
        v = self.ev(t.args[0], env)
        v = v.a if isinstance(v, Lab) else np.asarray(v)
        return np.nonzero(v)[0].astype(float)

    def op_nzi(self, t, env):
        v = self.ev(t.args[0], env)
        v = v.a if isinstance(v, Lab) else np.asarray(v)
        return np.nonzero(v)[self.int(t.args[1], env)].astype(float)

    def op_argwhere(self, t, env):
        v = self.ev(t.args[0], env)
        return np.argwhere(v.a if isinstance(v, Lab) else np.asarray(v)).astype(float)

    # single elements and rows, without evaluating the whole array
    def elem(self, t, i, env):
        """t[i] (an element, or a row of a two-dimensional value)."""
        k = self.key(t, env)
        if k in self.memo:
            return self.pick(self.memo[k], i)
        op = t.op
        if op == 'gen':
            n = self.int(t.args[0], env)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise Unknown('index %d outside %d' % (i, n))
            return self.body(t.args[2], t.args[1], i, env)
        if op == 'scatter':
            init, n, h, idx, v, g = t.args
            if idx.op not in ('sl', 'locs', 'labels', 'tuple') and init not in self.memo:
                if i < 0:
                    i += int(self.length_of(init, env))
                n = self.int(n, env)
                if idx.op == 'bi' and idx.args[0] == h:
                    cand = [i] if 0 <= i < n else []
                else:
                    ix = self.vec(idx, h, n, env)
                    cand = [j for j in range(n) if ix[j] == i]
                for j in reversed(cand):
                    if truth(self.body(g, h, j, env)):
                        return self.body(v, h, j, env)
                return self.elem(init, i, env)
        if op == 'take':
            return self.elem(t.args[0], int(self.elem(t.args[1], i, env)), env)
        if op == 'store' and t.args[1].op not in ('sl', 'locs', 'labels', 'tuple', 'mask'):
            j = self.sc(t.args[1], env)
            if not isinstance(j, bool):
                return self.ev(t.args[2], env) if int(j) == i else self.elem(t.args[0], i, env)
        if op == 'zeros2':
            return np.zeros(self.int(t.args[1], env))
        if op == 'full' and i >= 0 and t.args[0].op != 'tuple':
            return self.ev(t.args[1], env)
        if op in ops.EW and i >= 0 and op not in ('f', 'fext') and ops.rank(t) > 1:
            args = [self.elem(a, i, env) if ops.is_arr(a) and ops.rank(a) > 1 else self.ev(a, env) for a in t.args]
            e2 = Ev.__new__(Ev)
            e2.__dict__ = dict(self.__dict__)
            ys = []
            arrs = dict(self.arrays)
            for k, a in enumerate(args):
                y = tm.mk('elemarg', k, t)
                arrs[y] = a
                ys.append(y)
            e2.arrays, e2.memo = arrs, {}
            return e2.ev(tm.mk(op, *ys), {})
        return self.pick(self.ev(t, env), i)

    def pick(self, v, i):
        if isinstance(v, Lab):
            v = v.a
        if isinstance(v, (list, tuple)):
            return v[i]
        if not isinstance(v, np.ndarray):
            return v
        if not -len(v) <= i < len(v):
            raise Unknown('index %d outside %d' % (i, len(v)))
        r = v[i]
        return r if isinstance(r, np.ndarray) else r.item()

    def length_of(self, t, env):
        try:
            return self.sc(ops.length(t), env)
        except Unknown:
            return len(self.ev(t, env))

    def body(self, e, h, i, env):
        e2 = dict(env)
        e2[('b', h)] = i
        return self.ev(e, e2)

    def op_bi(self, t, env):
        v = env[('b', t.args[0])]
        return v if isinstance(v, np.ndarray) else float(v)

    def op_i(self, t, env):
        return env[('i', t)]

    def vec(self, e, h, n, env):
        if n > 8 and vectorizable(e, h):
            e2 = dict(env)
            e2[('b', h)] = np.arange(n, dtype=float)
            v = self.ev(e, e2)
            if not isinstance(v, np.ndarray):
                v = np.full(n, v)
            if v.shape == (n,):
                return v
        return [self.body(e, h, j, env) for j in range(n)]

    def op_getitem(self, t, env):
        x, i = t.args
        iv = self.ev(i, env)
        if x.op == 'table':
            if isinstance(iv, np.ndarray):
                tb = np.array([self.sc(a, env) for a in x.args])
                return tb[iv.astype(int)]
            return self.ev(x.args[int(iv)], env)
        if isinstance(iv, np.ndarray):
            return self.take(x, iv, env)
        if iv is None or isinstance(iv, str):
            raise Unknown('index')
        return self.elem(x, int(round(float(iv))), env)

    def take(self, x, iv, env):
        if iv.dtype == bool:
            return self.ar(x, env)[iv]
        u, inv = np.unique(iv.astype(int), return_inverse=True)
        vals = [self.elem(x, int(j), env) for j in u]
        return np.array(vals)[inv]

    def op_take(self, t, env):
        iv = self.ar(t.args[1], env)
        return self.take(t.args[0], iv, env)

    op_take2 = None

    def op_slice(self, t, env):
        x, a, b = t.args
        a, b = self.int(a, env), self.int(b, env)
        if x.op == 'flat' and x not in self.memo:
            nc = self.int(x.args[1], env)
            if nc > 0 and b > a >= 0:
                rows = [np.asarray(self.elem(x.args[0], r, env)) for r in range(a // nc, (b - 1) // nc + 1)]
                rows = np.concatenate([np.full(nc, r) if r.ndim == 0 else r for r in rows])
                o = (a // nc) * nc
                return rows[a - o:b - o]
        v = self.ar(x, env)
        if a < 0 or b > len(v) or b < a:
            raise Unknown('slice %d:%d of %d' % (a, b, len(v)))
        return v[a:b]

    def op_tslice(self, t, env):
        v = self.ev(t.args[0], env)
        a, b = self.int(t.args[1], env), self.int(t.args[2], env)
        if isinstance(v, Lab):
            ax = v.dims.index('time')
            return Lab(v.dims, np.take(v.a, np.arange(a, b), axis=ax))
        return v[a:b]

    def op_slicerows(self, t, env):
        return self.ar(t.args[0], env)[self.int(t.args[1], env):self.int(t.args[2], env)]

    def op_store(self, t, env):
        b, i, v = t.args
        if i.op == 'labels':
            return self.store_labels(self.ev(b, env), [[self.ev(x, env) for x in p.args] for p in i.args],
                                     self.ev(v, env))
        x = np.array(self.ar(b, env))
        if i.op == 'sl':
            lo, hi = [None if a is tm.NONE else self.int(a, env) for a in i.args]
            x = x.astype(float)
            x[slice(lo, hi)] = self.ev(v, env)
            return x
        if i.op in ('locs', 'labels', 'tuple', 'mask'):
            if i.op == 'tuple' and all(isinstance(a, T) for a in i.args):
                x[tuple(self.int(a, env) for a in i.args)] = self.ev(v, env)
                return x
            raise Unknown('store at ' + i.op)
        j = self.ev(i, env)
        if isinstance(j, np.ndarray):
            raise Unknown('array store')
        x = x.astype(float)
        x[int(j)] = self.ev(v, env)
        return x

    def op_stores(self, t, env):
        x = np.array(self.ar(t.args[0], env), dtype=float)
        m = np.asarray(self.ev(t.args[1], env), dtype=bool)
        v = self.ev(t.args[2], env)
        x[m] = v
        return x

    def op_gen(self, t, env):
        n = self.int(t.args[0], env)
        return np.array(self.vec(t.args[2], t.args[1], n, env))

    def op_concatL(self, t, env):
        n, h, v, k = t.args
        n = self.int(n, env)
        k = self.int(k, env)
        out = []
        for j in range(n):
            x = self.body(v, h, j, env)
            x = np.full(k, x) if not isinstance(x, np.ndarray) else x
            if len(x) != k:
                raise Unknown('block of %d for %d' % (len(x), k))
            out.append(x)
        return np.concatenate(out) if out else np.zeros(0)

    def op_scatter(self, t, env):
        init, n, h, idx, v, g = t.args
        if idx.op == 'locs':
            return self.grid(t, env)
        if idx.op in ('labels', 'tuple'):
            raise Unknown('scatter at labels')
        n = self.int(n, env)
        x = np.array(self.ar(init, env), dtype=float)
        if n > 8 and idx.op != 'sl' and all(vectorizable(q, h) for q in (idx, v, g)):
            gs = np.asarray(self.vec(g, h, n, env), dtype=bool)
            ix = np.asarray(self.vec(idx, h, n, env), dtype=int)[gs]
            if ix.size and (ix.min() < -len(x) or ix.max() >= len(x)):
                raise Unknown('store outside')
            x[ix] = np.asarray(self.vec(v, h, n, env), dtype=float)[gs]
            return x
        for j in range(n):
            if not truth(self.body(g, h, j, env)):
                continue
            val = self.body(v, h, j, env)
            if idx.op == 'sl':
                e2 = dict(env)
                e2[('b', h)] = j
                x[self.int(idx.args[0], e2):self.int(idx.args[1], e2)] = val
            else:
                x[int(self.body(idx, h, j, env))] = val
        return x

    def grid(self, t, env):
        """Cells stored one by one into a labelled array."""
        init, n, h, idx, v, g = t.args
        sub = self
        if n.op == 'size':
            m = self.ev(n.args[0], env)
            shape = m.a.shape if isinstance(m, Lab) else np.asarray(m).shape
            if len(shape) < len(self.dims):
                shape = (1,) * (len(self.dims) - len(shape)) + shape
            n = int(np.prod(shape))
        else:
            shape, n = self.cells, self.int(n, env)
        if shape != self.cells:
            sub = self.subs.get(shape)
            if sub is None:
                sub = self.subs[shape] = self.__class__(0, self.syms, self.arrays)
                sub.files, sub.ints = self.files, self.ints
                sub.cells, sub.budget, sub.subs, sub.dims = shape, self.budget, self.subs, self.dims
        b = sub.ev(init, env)
        if not isinstance(b, Lab):
            raise Unknown('store at locations')
        x = np.array(b.a, dtype=float)
        for j in range(n):
            e2 = dict(env)
            e2[('b', h)] = j
            if not truth(sub.ev(g, e2)):
                continue
            at = [slice(None)] * x.ndim
            for q in idx.args:
                d = q.args[0].args[0] if isinstance(q.args[0], T) else q.args[0]
                k = sub.int(q.args[1], e2)
                ax = b.dims.index(d)
                if not -x.shape[ax] <= k < x.shape[ax]:
                    raise Unknown('store outside')
                at[ax] = k
            x[tuple(at)] = sub.ev(v, e2)
        return Lab(b.dims, x)

    def op_pi(self, t, env):
        i, k, n, later = t.args
        return float((int(self.sc(i, env)) // self.int(later, env)) % self.int(n, env))

    def groups(self, it, gt, env):
        c = self.ev(it, env)
        f = self.ev(gt.args[0], env)
        k = group_keys(c, f)
        return [np.nonzero(k == u)[0] for u in np.unique(k)]

    def op_ngroups(self, t, env):
        return float(len(self.groups(t.args[0], t.args[1], env)))

    def op_group(self, t, env):
        x = self.ev(t.args[0], env)
        it = t.args[0] if len(np.asarray(x)) == 0 else t.args[0]
        return x[self.groups(it, t.args[1], env)[self.int(t.args[2], env)]]

    def op_date2num(self, t, env):
        v, u = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return from_epoch(v, u)

    def op_sumL(self, t, env):
        n, h, e = t.args
        v = self.vec(e, h, self.int(n, env), env)
        return fl(np.sum(v)) if isinstance(v, np.ndarray) else fl(sum(v, 0.0))

    def op_any(self, t, env):
        if len(t.args) == 1:
            v = self.ev(t.args[0], env)
            return bool(np.any(v.a if isinstance(v, Lab) else v))
        n, h, e = t.args
        return any(truth(self.body(e, h, j, env)) for j in range(self.int(n, env)))

    def op_minL(self, t, env):
        return min(self.vec(t.args[2], t.args[1], self.int(t.args[0], env), env))

    def op_maxL(self, t, env):
        return max(self.vec(t.args[2], t.args[1], self.int(t.args[0], env), env))

    # ------------------------------------------------------------- recurrences
    def op_collect(self, t, env):
        out = []
        self.op_rec(t, env, out)
        return np.array(out)

    def op_fread(self, t, env):
        b = self.files.get(self.ev(t.args[0], env))
        if b is None:
            raise Unknown('file contents')
        k = self.int(t.args[1], env)
        return b[k:] if t.args[2] is tm.NONE else b[k:k + self.int(t.args[2], env)]

    def op_unpack(self, t, env):
        try:
            r = struct.unpack(self.ev(t.args[0], env), self.ev(t.args[1], env))
        except struct.error:
            raise Unknown('unpack')
        if len(r) != 1:
            raise Unknown('unpack of several')
        return float(r[0])

    def op_head(self, t, env):
        return self.ar(t.args[0], env)[:self.int(t.args[1], env)]

    def op_tail(self, t, env):
        x, n = self.ar(t.args[0], env), self.int(t.args[1], env)
        return x[max(0, len(x) - n):]

    def op_nearest(self, t, env):
        c, x = np.asarray(self.ev(t.args[0], env), dtype=float), self.ev(t.args[1], env)
        how = self.ev(t.args[2], env)
        tol = None if t.args[3] is tm.NONE else self.ev(t.args[3], env)

        def one(y):
            w = np.abs(c - y)
            if how in ('ffill', 'pad'):
                w = np.where(c <= y, w, np.inf)
            elif how in ('bfill', 'backfill'):
                w = np.where(c >= y, w, np.inf)
            elif how != 'nearest':
                raise Unknown('method %s' % how)
            k = int(np.argmin(w)) if len(w) else 0
            return c[k] if len(w) and np.isfinite(w[k]) and (tol is None or w[k] <= tol) else np.nan
        if isinstance(x, (Lab, np.ndarray)):
            a = x.a if isinstance(x, Lab) else x
            r = np.array([one(float(y)) for y in a.reshape(-1)]).reshape(a.shape)
            return Lab(x.dims, r) if isinstance(x, Lab) else r
        return one(x)

    def op_incoord(self, t, env):
        if len(t.args) < 3:
            raise Unknown('coordinate')
        return bool(np.any(np.asarray(self.ev(t.args[2], env)) == self.ev(t.args[1], env)))

    def store_labels(self, x, keys, v):
        """Assignment at labels of named dimensions (coordinates of the domain)."""
        if not isinstance(x, Lab):
            raise Unknown('store at labels')
        ix = [slice(None)] * len(x.dims)
        for p in keys:
            d, lab, c = p if len(p) == 3 else (p[0], p[1], None)
            if d not in x.dims or c is None or isinstance(lab, (tuple, np.ndarray)):
                raise Unknown('store at labels')
            w = np.nonzero(np.asarray(c) == lab)[0]
            if len(w) != 1:
                from .files import Bad
                raise Bad('a file is stored at a label that is not on the axis (KeyError)', '')
            ix[x.dims.index(d)] = int(w[0])
        a = np.array(x.a, dtype=float)
        if isinstance(v, Lab):
            raise Unknown('labelled value')
        a[tuple(ix)] = v
        return Lab(x.dims, a)

    def op_rec(self, t, env, out=None):
        d, idx, c, brk, init, steps = t.args
        vals = [None if a.op == 'undef' else self.ev(a, env) for a in init.args]
        n = None
        if c.op == 'for':
            n = self.int(c.args[0], env) if c.args[0] is not tm.NONE else None
        k = 0
        while True:
            self.stamp = getattr(self, 'stamp', 0) + 1
            e2 = dict(env)
            e2[('r', d)] = (self.stamp, vals, k)
            if n is not None:
                if k >= n:
                    break
            elif c.op == 'for' or not truth(self.ev(c, e2)):
                break
            b = self.ev(brk, e2)
            if out is not None:
                for p in steps.args[idx].args:
                    if truth(self.ev(p.args[0], e2)):
                        out.append(self.sc(p.args[1], e2))
            if truth(b):
                break
            new = [None if out is not None and q == idx else self.ev(s, e2) for q, s in enumerate(steps.args)]
            if truth(b):
                break
            vals = new
            k += 1
            if k > 20000:
                raise Unknown('loop does not end')
        return vals[idx]

    def op_rv(self, t, env):
        return env[('r', t.args[0])][1][t.args[1]]

    def op_ri(self, t, env):
        return float(env[('r', t.args[0])][2])

    # ------------------------------------------------------------------ dates
    def field(self, name, v):
        f = {'dayofyear': lambda d: d.timetuple().tm_yday, 'month': lambda d: d.month, 'year': lambda d: d.year,
             'day': lambda d: d.day, 'hour': lambda d: d.hour, 'minute': lambda d: d.minute,
             'second': lambda d: d.second, 'dayofweek': lambda d: d.weekday(),
             'quarter': lambda d: (d.month + 2) // 3}.get(name)
        if f is None:
            raise Unknown('date field ' + str(name))
        if isinstance(v, np.ndarray):
            return np.array([float(f(todatetime(x))) for x in v])
        return float(f(todatetime(v)))

    def op_doy(self, t, env):
        return self.field('dayofyear', self.ev(t.args[0], env))

    def op_month(self, t, env):
        return self.field('month', self.ev(t.args[0], env))

    def op_datefield(self, t, env):
        n = t.args[0]
        return self.field(n if isinstance(n, str) else self.ev(n, env), self.ev(t.args[1], env))

    def op_rounded(self, t, env):
        v = self.ev(t.args[0], env)
        f = t.args[1]
        f = f if isinstance(f, str) else self.ev(f, env)
        if f == 'normalize':
            return np.floor(v / DAY) * DAY
        if f == 'D':
            return np.rint(v / DAY) * DAY
        raise Unknown('round to %s' % f)

    def op_floored(self, t, env):
        f = t.args[1]
        f = f if isinstance(f, str) else self.ev(f, env)
        if f != 'D':
            raise Unknown('floor')
        return np.floor(self.ev(t.args[0], env) / DAY) * DAY

    def op_rawdays(self, t, env):
        return self.ev(t.args[0], env)

    def op_todate(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            for f in ('%Y/%m/%d:%H', '%Y-%m-%d', '%Y/%m/%d'):
                try:
                    return minutes(datetime.datetime.strptime(v, f))
                except ValueError:
                    pass
            raise Unknown('date text')
        return v

    def date_of(self, v):
        if isinstance(v, str):
            for f in ('%Y/%m/%d:%H', '%Y-%m-%d', '%Y/%m/%d'):
                try:
                    return minutes(datetime.datetime.strptime(v, f))
                except ValueError:
                    pass
            raise Unknown('date text')
        return v

    def op_date(self, t, env):
        xs = [int(self.sc(a, env)) for a in t.args]
        return minutes(datetime.datetime(*xs))

    # --------------------------------------------------------------- labelled
    def op_var(self, t, env):
        return self.ev_var(t, env)

    def ev_var(self, t, env):
        if t.args[0].op == 'numbers':
            return self.ev(t.args[0].args[0], env)
        if t.args[0].op == 'defined':
            return self.ev(t.args[0].args[0], env)
        if t.args[0].op == 'filled':
            v, c = self.ev(t.args[0].args[0], env), self.ev(t.args[0].args[1], env)
            dims = ops.dims_of(t)
            own = {p.args[0].args[0]: p.args[1] for p in t.args[0].args[2:]}
            n = [self.int(own[d], env) if d in own else self.nfill(d, c) for d in dims]
            return self.lab(dims, np.full(n, v, dtype=float))
        key = (tm.show(t.args[0]), t.args[1].args[0] if t.args[1].op == 'str' else None)
        v = self.arrays.get(key)
        if v is None:
            raise Unknown('variable %s' % (key,))
        dims = ops.dims_of(t)
        return self.lab(dims, v)

    def nfill(self, d, c):
        if d == 'time':
            return len(c)
        return self.cells[self.dims.index(d)] if d in self.dims else int(self.syms['dim_' + d])

    def lab(self, dims, a):
        if len(dims) <= 1:
            return a if a.ndim else a.item()
        return Lab(dims, a)

    def op_isel(self, t, env):
        x, d, s = t.args
        v = self.ev(x, env)
        dims = ops.dims_of(x)
        if s.op == 'sl':
            lo, hi = [None if a is tm.NONE else self.int(a, env) for a in s.args]
            i = slice(lo, hi)
        elif s.op == 'bsel':
            i = np.asarray(self.ev(s.args[0], env))
            if i.ndim != 1:
                raise Unknown('bsel')
            i = i if i.dtype == bool else i.astype(int)
        else:
            i = self.int(s, env)
        if isinstance(v, Lab):
            if d not in v.dims:
                return v
            ax = v.dims.index(d)
            if isinstance(i, (slice, np.ndarray)):
                return Lab(v.dims, v.a[(slice(None),) * ax + (i,)])
            return self.lab(v.dims[:ax] + v.dims[ax + 1:], np.take(v.a, i, axis=ax))
        if isinstance(v, np.ndarray):
            if dims and dims != (d,):
                return v
            if isinstance(i, (slice, np.ndarray)):
                return v[i]
            return self.pick(v, i)
        return v

    def op_inlabels(self, t, env):
        return bool(np.any(np.asarray(self.ev(t.args[0], env)) == self.date_of(self.sc(t.args[1], env))))

    def op_nd(self, t, env):
        i = self.int(t.args[0], env)
        d = t.args[1]
        if d not in self.dims and not (isinstance(d, int) and d < len(self.dims)):
            raise Unknown('dimension %s' % (d,))
        k = d if isinstance(d, int) else self.dims.index(d)
        return float(np.unravel_index(i, self.cells)[k])

    def op_csel(self, t, env):
        x, d, c = t.args
        v = self.ev(x, env)
        cv = self.ev(c, env)
        if d == 'time':
            raise Unknown('csel time')
        coord = self.coord_of(x, d, env)
        if not isinstance(v, Lab):
            if isinstance(v, np.ndarray) and ops.dims_of(x) == (d,):
                v = Lab((d,), v)
            else:
                return v
        if d not in v.dims:
            return v
        ax = v.dims.index(d)
        if isinstance(cv, np.ndarray):
            ix = [int(np.nonzero(coord == q)[0][0]) for q in cv]
            return Lab(v.dims, np.take(v.a, ix, axis=ax))
        w = np.nonzero(coord == cv)[0]
        if len(w) != 1:
            raise Unknown('label %s not on the axis' % d)
        return self.lab(v.dims[:ax] + v.dims[ax + 1:], np.take(v.a, int(w[0]), axis=ax))

    def coord_of(self, x, d, env):
        """Labels of a dimension of a labelled value."""
        while True:
            if x.op == 'isel' and x.args[1] == d and x.args[2].op == 'sl':
                lo, hi = [None if a is tm.NONE else self.int(a, env) for a in x.args[2].args]
                return self.coord_of(x.args[0], d, env)[lo:hi]
            if x.op == 'csel' and x.args[1] == d:
                return np.asarray(self.ev(x.args[2], env))
            if x.op == 'var' and x.args[0].op == 'defined':
                x = x.args[0].args[0]
                continue
            if x.op == 'var':
                c = self.arrays.get((tm.show(x.args[0]), d))
                if c is None:
                    raise Unknown('coordinate of %s' % d)
                return c
            y = next((a for a in x.args if isinstance(a, T) and d in ops.dims_of(a)), None)
            if y is None:
                raise Unknown('coordinate of %s' % d)
            x = y

    def op_reindex(self, t, env):
        x, old, new = self.ev(t.args[0], env), np.asarray(self.ev(t.args[1], env)), np.asarray(self.ev(t.args[2], env))
        if isinstance(x, Lab):
            if 'time' not in x.dims or len(old) != x.a.shape[x.dims.index('time')] or not timelike(t.args[1]):
                raise Unknown('reindex')
            ax, a = x.dims.index('time'), x.a
        else:
            ax, a = 0, np.asarray(x)
            if a.ndim != 1 or len(old) != len(a):
                raise Unknown('reindex')
        at = {float(v): k for k, v in enumerate(old)}
        if len(at) != len(old):
            raise Unknown('reindex of repeated labels')
        a = np.moveaxis(np.asarray(a, dtype=float), ax, 0)
        r = np.stack([a[at[float(v)]] if float(v) in at else np.full(a.shape[1:], np.nan) for v in new]) if len(new) else a[:0]
        r = np.moveaxis(r, 0, ax)
        return Lab(x.dims, r) if isinstance(x, Lab) else r

    def op_castlike(self, t, env):
        v = self.sc(t.args[0], env)
        return float(int(v)) if self.show(t.args[1].args[1]) in self.ints else v

    def show(self, t):
        return t.args[0] if t.op == 'str' else None

    def op_sllen(self, t, env):
        lo, hi = [None if a is tm.NONE else self.int(a, env) for a in t.args[0].args]
        return float(len(range(self.int(t.args[1], env))[lo:hi]))

    def op_tsel(self, t, env):
        x, coord, a, b = t.args
        v = self.ev(x, env)
        c = self.ev(coord, env)
        lo = -np.inf if a is tm.NONE else self.date_of(self.sc(a, env))
        hi = np.inf if b is tm.NONE else self.date_of(self.sc(b, env))
        if lo is None:
            lo = -np.inf
        if hi is None:
            hi = np.inf
        m = (c >= lo) & (c <= hi)
        if isinstance(v, Lab):
            return Lab(v.dims, np.compress(m, v.a, axis=v.dims.index('time')))
        return v[m]

    def op_rolling(self, t, env):
        x, d, w, how = t.args[:4]
        how = how if isinstance(how, str) else self.ev(how, env)
        w = self.int(w, env)
        mp, center = w, False
        for p in t.args[4:]:
            if isinstance(p, T) and p.op == 'pair':
                k = self.ev(p.args[0], env)
                if k == 'min_periods':
                    mp = self.ev(p.args[1], env)
                    mp = w if mp is None else int(mp)
                elif k == 'center':
                    center = bool(self.ev(p.args[1], env))
                else:
                    raise Unknown('rolling ' + str(k))
            else:
                raise Unknown('rolling argument')
        v = self.ev(x, env)
        f = {'mean': np.mean, 'sum': np.sum, 'max': np.max, 'min': np.min, 'median': np.median}.get(how)
        if how == 'shift':
            ax = v.dims.index(d if isinstance(d, str) else self.ev(d, env)) if isinstance(v, Lab) else 0
            a = np.moveaxis(np.asarray(getattr(v, 'a', v), dtype=float), ax, 0)
            y = np.full(a.shape, np.nan)
            if abs(w) < len(a):
                y[max(w, 0):len(a) + min(w, 0)] = a[max(-w, 0):len(a) - max(w, 0)]
            y = np.moveaxis(y, 0, ax)
            return Lab(v.dims, y) if isinstance(v, Lab) else y
        if f is None:
            raise Unknown('rolling ' + str(how))
        ahead = w - 1 - w // 2 if center else 0
        if isinstance(v, Lab):
            ax = v.dims.index(d if isinstance(d, str) else self.ev(d, env))
            y = np.full(v.a.shape, np.nan)
            for i in range(v.a.shape[ax]):
                part = np.take(v.a, range(max(0, i + 1 - w + ahead), min(v.a.shape[ax], i + 1 + ahead)), axis=ax)
                n = np.sum(~np.isnan(part), axis=ax)
                with np.errstate(all='ignore'), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = {'mean': np.nanmean, 'sum': np.nansum, 'max': np.nanmax, 'min': np.nanmin,
                         'median': np.nanmedian}[how](part, axis=ax)
                y[(slice(None),) * ax + (i,)] = np.where(n >= mp, r, np.nan)
            return Lab(v.dims, y)
        out = np.full(len(v), np.nan)
        for i in range(len(v)):
            y = v[max(0, i - w + 1 + ahead):i + 1 + ahead]
            if len(y) >= mp:
                out[i] = f(y)
        return out

    def op_permute(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, Lab):
            return v
        if set(v.dims) != set(t.args[1]):
            raise Unknown('permute')
        return Lab(t.args[1], v.a.transpose([v.dims.index(d) for d in t.args[1]]))

    def op_dropped(self, t, env):
        x, d, labs, c = t.args
        v, labs, c = self.ev(x, env), np.atleast_1d(self.ev(labs, env)), self.ev(c, env)
        keep = ~np.isin(c, labs)
        if isinstance(v, Lab):
            return Lab(v.dims, np.compress(keep, v.a, axis=v.dims.index(d if isinstance(d, str) else self.ev(d, env))))
        if np.ndim(v) != 1:
            raise Unknown('dropped')
        return np.asarray(v)[keep]

    def op_ffill(self, t, env):
        x = np.array(self.ar(t.args[0], env), dtype=float)
        for i in range(1, len(x)):
            if x[i] != x[i]:
                x[i] = x[i - 1]
        return x

    def op_bfill(self, t, env):
        x = np.array(self.ar(t.args[0], env), dtype=float)
        for i in range(len(x) - 2, -1, -1):
            if x[i] != x[i]:
                x[i] = x[i + 1]
        return x

    def op_interp(self, t, env):
        kind, x, y, p, extrap = t.args
        kind = kind if isinstance(kind, str) else self.ev(kind, env)
        x, y, p = self.ar(x, env), self.ar(y, env), self.ar(p, env)
        if len(x) != len(y):
            raise Unknown('interp lengths')
        if kind == 'clamp':
            return np.interp(p, x, y)
        if kind == 'linear':
            r = np.interp(p, x, y)
            lo, hi = p < x[0], p > x[-1]
            ex = self.ev(extrap, env) if isinstance(extrap, T) else extrap
            if ex == 'extrapolate' or ex is True:
                r = np.where(lo, y[0] + (p - x[0]) * (y[1] - y[0]) / (x[1] - x[0]), r)
                r = np.where(hi, y[-1] + (p - x[-1]) * (y[-1] - y[-2]) / (x[-1] - x[-2]), r)
            elif isinstance(ex, (int, float)) and not isinstance(ex, bool):
                r = np.where(lo | hi, float(ex), r)
            elif isinstance(ex, (tuple, list)):
                r = np.where(lo, ex[0], np.where(hi, ex[1], r))
            else:
                r = np.where(lo | hi, np.nan, r)
            return r
        if kind == 'pchip':
            return pchip(x, y, p)
        raise Unknown('interpolation %s' % kind)

    def op_tuple(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    op_list = op_tuple

    def op_table(self, t, env):
        return np.array([self.sc(a, env) for a in t.args])

    def op_pair(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def op_labelpos(self, t, env):
        c, l = self.ev(t.args[0], env), self.sc(t.args[1], env)
        w = np.nonzero(c == l)[0]
        if len(w) != 1:
            raise Unknown('label')
        return float(w[0])

    # ------------------------------------------------------------------- text
    def op_fv(self, t, env):
        v = self.ev(t.args[0], env)
        s = self.ev(t.args[1], env)
        if t.args[0].op == 'datefield' or (isinstance(v, float) and v == int(v)):
            v = int(v)
        if t.args[0].op not in ('datefield',) and '%' in (s or ''):
            return todatetime(v).strftime(s)
        return format(v, s or '')

    def op_fmt(self, t, env):
        return ''.join(a if isinstance(a, str) else str(self.ev(a, env)) for a in t.args)

    def op_joinpath(self, t, env):
        return '/'.join(str(self.ev(a, env)) for a in t.args)

    def op_lower(self, t, env):
        return self.ev(t.args[0], env).lower()

    def op_upper(self, t, env):
        return self.ev(t.args[0], env).upper()

    def op_strip(self, t, env):
        return self.ev(t.args[0], env).strip()

    def op_abspath(self, t, env):
        return 'abs:' + str(self.ev(t.args[0], env))

    def op_dtype(self, t, env):
        if self.types is None:
            raise Unknown('operation dtype')
        return self.types

    def op_strcall(self, t, env):
        raise Unknown('strcall')


def timelike(t):
    if ops.is_time(t) or t.op in ('drange', 'date_range', 'rawdays'):
        return True
    if t.op == 'concat':
        return all(timelike(a) for a in t.args[1:])
    return t.op in ('sorted', 'tslice', 'slice', 'dropped', 'getitem', 'tsel', 'reindex', 'isel') and timelike(t.args[0])


EPS = 1e-9
_VEC = {}


def group_keys(c, f):
    """Number of the period of a frequency each time falls in."""
    m = ''.join(ch for ch in f if ch.isdigit())
    k, u = int(m or 1), f[len(m):]
    if u in ('D', 'H', 'h', 'T', 'min'):
        w = {'D': DAY, 'H': 60.0, 'h': 60.0}.get(u, 1.0) * k
        o = np.floor(c[0] / DAY) * DAY
        return np.floor((c - o) / w)
    if k == 1 and u in ('M', 'MS', 'ME'):
        return np.array([todatetime(x).year * 12 + todatetime(x).month for x in c])
    if k == 1 and u in ('A', 'AS', 'Y', 'YS', 'YE'):
        return np.array([todatetime(x).year for x in c])
    raise Unknown('frequency ' + f)


def from_epoch(v, u):
    w = u.split()
    k = {'minutes': 1.0, 'hours': 60.0, 'days': DAY, 'seconds': 1 / 60.0}.get(w[0])
    if k is None or len(w) < 3 or w[1] != 'since':
        raise Unknown('time units ' + u)
    o = datetime.datetime.strptime(w[2], '%Y-%m-%d')
    if len(w) > 3:
        h = w[3].split('.')[0].split(':')
        o += datetime.timedelta(hours=int(h[0]), minutes=int(h[1]) if len(h) > 1 else 0,
                                seconds=int(h[2]) if len(h) > 2 else 0)
    return (np.asarray(v) - minutes(o)) / k


def vkey(v):
    return ('arange', len(v)) if isinstance(v, np.ndarray) else v


def vectorizable(e, h):
    """Is the body e of a loop elementwise in the loop index h?"""
    k = (e, h)
    r = _VEC.get(k)
    if r is None:
        r = _VEC[k] = _vectorizable(e, h)
    return r


def _vectorizable(e, h):
    b = ('b', h)
    if b not in free(e):
        return not ops.is_arr(e)
    if e.op == 'bi':
        return True
    if e.op == 'getitem':
        return (e.args[0].op == 'table' or b not in free(e.args[0]) and ops.rank(e.args[0]) == 1) and \
            vectorizable(e.args[1], h)
    if e.op in ops.EW or e.op == 'truth':
        return not ops.is_arr(e) and all(vectorizable(a, h) for a in e.args if isinstance(a, T))
    return False


def truth(v):
    if isinstance(v, Lab):
        v = v.a
    if isinstance(v, np.ndarray):
        if v.size == 1:
            return bool(v.reshape(-1)[0])
        raise Unknown('truth of an array')
    return bool(v)


def fl(v):
    if isinstance(v, np.ndarray):
        return v if v.ndim else v.item()
    if isinstance(v, np.generic):
        return v.item()
    return v


def num1(v):
    if isinstance(v, bool):
        return v
    return v


def align(a, b):
    da = a.dims if isinstance(a, Lab) else None
    db = b.dims if isinstance(b, Lab) else None
    x = a.a if da else np.asarray(a)
    y = b.a if db else np.asarray(b)
    if da is None:
        if x.size != 1:
            raise Unknown('labelled with plain')
        return x, y, db
    if db is None:
        if y.size != 1:
            raise Unknown('labelled with plain')
        return x, y, da
    if da != db:
        dims = tuple(da) + tuple(d for d in db if d not in da)
        x = x.reshape([x.shape[da.index(d)] if d in da else 1 for d in dims])
        y = y.transpose([db.index(d) for d in dims if d in db]).reshape(
            [y.shape[db.index(d)] if d in db else 1 for d in dims])
        return x, y, dims
    return x, y, da


def choice(c, a, b):
    """np.where of labelled values."""
    dims = ()
    for x in (c, a, b):
        if isinstance(x, Lab):
            dims += tuple(d for d in x.dims if d not in dims)
    xs = []
    for x in (c, a, b):
        if isinstance(x, Lab):
            y = x.a.transpose([x.dims.index(d) for d in dims if d in x.dims])
            xs.append(y.reshape([x.a.shape[x.dims.index(d)] if d in x.dims else 1 for d in dims]))
        else:
            y = np.asarray(x)
            if y.size != 1:
                raise Unknown('labelled with plain')
            xs.append(y.reshape(-1)[0])
    return Lab(dims, np.where(xs[0].astype(bool) if isinstance(xs[0], np.ndarray) else bool(xs[0]), xs[1], xs[2]))


def base_file(t):
    """File node of the variable a labelled value is taken from."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'var' and x.args[0].op == 'defined':
            st.append(x.args[0].args[0])
            continue
        if x.op == 'var':
            return x.args[0]
        st.extend(a for a in x.args[:1] if isinstance(a, T))
    return None


def pchip(x, y, p):
    h = np.diff(x)
    if np.any(h <= 0):
        raise Unknown('interpolation points not increasing')
    d = np.diff(y) / h
    n = len(x)
    m = np.zeros(n)
    if n == 2:
        m[:] = d[0]
    else:
        for k in range(1, n - 1):
            if d[k - 1] * d[k] > 0:
                w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
                m[k] = (w1 + w2) / (w1 / d[k - 1] + w2 / d[k])

        def end(h0, h1, d0, d1):
            v = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
            if np.sign(v) != np.sign(d0):
                return 0.0
            if np.sign(d0) != np.sign(d1) and abs(v) > 3 * abs(d0):
                return 3 * d0
            return v
        m[0], m[-1] = end(h[0], h[1], d[0], d[1]), end(h[-1], h[-2], d[-1], d[-2])
    k = np.clip(np.searchsorted(x, p, side='right') - 1, 0, n - 2)
    s = (p - x[k]) / h[k]
    return (y[k] * (1 + 2 * s) * (1 - s) ** 2 + h[k] * m[k] * s * (1 - s) ** 2
            + y[k + 1] * s * s * (3 - 2 * s) + h[k] * m[k + 1] * s * s * (s - 1))


def same(a, b, tol=1e-6):
    """Do two evaluated values agree?"""
    if isinstance(a, Lab):
        a = a.a
    if isinstance(b, Lab):
        b = b.a
    if isinstance(a, (np.ndarray, float, int, bool, np.generic)) and isinstance(b, (np.ndarray, float, int, bool,
                                                                                   np.generic)):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.size == 1 and b.size == 1:
            a, b = a.reshape(-1), b.reshape(-1)
        if a.shape != b.shape:
            return a.size == b.size == 0
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            return False
        a, b = a[~na], b[~nb]
        s = np.maximum(np.maximum(np.abs(a), np.abs(b)), 1e-9)
        r = np.abs(a - b) <= tol * s + 1e-9
        return bool(np.all(r | (a == b)))
    return a == b
