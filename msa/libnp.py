"""Transfer functions of numpy, scipy.interpolate and math."""
from .terms import *
from . import terms as tm
from . import ops
from .ops import is_arr, length, rank
from .values import *
from . import lib

TABLE = {}

EW1 = {'exp': 'exp', 'log': 'log', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arccos': 'acos',
       'acos': 'acos', 'arcsin': 'asin', 'asin': 'asin', 'arctan': 'atan', 'atan': 'atan', 'floor': 'floor',
       'ceil': 'ceil', 'rint': 'rint', 'square': 'square', 'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs',
       'sign': 'sign', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'log10': 'log10', 'log2': 'log2',
       'log1p': 'log1p', 'expm1': 'expm1', 'trunc': 'int', 'fix': 'int', 'reciprocal': 'reciprocal',
       'cbrt': 'cbrt', 'exp2': 'exp2'}
EW2 = {'power': power, 'float_power': power, 'pow': power, 'maximum': max_, 'minimum': min_, 'fmax': max_,
       'fmin': min_, 'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div,
       'mod': mod, 'floor_divide': lib.floordiv}
CMP2 = {'greater': '>', 'greater_equal': '>=', 'less': '<', 'less_equal': '<=', 'equal': '==', 'not_equal': '!='}


def ewfn(name, x):
    if name == 'log1p':
        return fn('log', add(ONE, x))
    if name == 'expm1':
        return sub(fn('exp', x), ONE)
    if name == 'exp2':
        return power(num(2), x)
    return fn(name, x)


def tv(I, v):
    """Node of an array-like operand."""
    v = I.resolve(v)
    if isinstance(v, Phi):
        return ite(v.c, tv(I, v.a), tv(I, v.b))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Arr):
            return I.tof(v)
        if isinstance(o, ListO):
            return I.tof(to_array(I, v))
    if isinstance(v, Tup):
        return I.tof(to_array(I, v))
    return I.term(v)


def num_arg(I, v):
    """Operand of an arithmetic function."""
    v = I.resolve(v)
    if isinstance(v, Tup) or I.is_obj(v, ListO):
        v = to_array(I, v)
    x = lib.arith(I, v)
    return x if x is not None else I.term(v)


def cell(x):
    return x if is_arr(x) else ops.full(ONE, x)


def to_array(I, v):
    """np.array(v) as a new reference."""
    v = I.resolve(v)
    if isinstance(v, Phi):
        a, b = to_array(I, v.a), to_array(I, v.b)
        return I.arr(ite(v.c, I.tof(a), I.tof(b)))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Arr):
            return I.arr(I.tof(v), dtype=o.dtype)
    items = lib.seq_items(I, v)
    if items is not None:
        ts = [tv(I, x) if isinstance(x, (Ref, Tup)) else I.term(x) for x in items]
        if ts and all(is_arr(t) for t in ts):
            return I.arr(mk('rows2', *ts))
        if ts and all(t.op not in ('str',) for t in ts):
            if len(ts) > 8:
                return I.arr(mk('arr', *ts))
            return I.arr(ops.concat([ops.full(ONE, t) for t in ts]))
        return I.arr(mk('arr', *ts))
    if isinstance(v, Ref) and isinstance(I.get(v), ListO):
        parts = []
        for s in I.get(v).segs:
            if s[0] == 'v':
                parts.append(cell(I.term(s[1])))
            elif s[0] == 'gen' and s[3] is TRUE:
                parts.append(ops.gen(s[1], s[2], I.term(s[4])))
            else:
                return I.arr(mk('arr', I.term(v)))
        return I.arr(ops.concat(parts))
    t = I.term(v)
    if is_arr(t):
        return I.arr(t)
    return t


def scalar_or(I, t, *operands):
    return lib.wrap(I, t, *operands)


def result(I, t):
    return I.arr(t) if is_arr(t) else t


def shape_of(I, v):
    v = I.resolve(v)
    if isinstance(v, Tup):
        return [I.scalar(x) for x in v.items]
    items = lib.seq_items(I, v) if isinstance(v, Ref) and isinstance(I.get(v), ListO) else None
    if items is not None:
        return [I.scalar(x) for x in items]
    t = I.term(v)
    if t.op in ('tuple', 'list'):
        return list(t.args)
    if t.op == 'shape':
        return shape_list(t.args[0])
    return [t]


def as_int(t):
    return t


def shape_list(t):
    if not is_arr(t):
        return []
    if t.op == 'full' and t.args[0].op == 'tuple':
        return list(t.args[0].args)
    d = ops.dims_of(t)
    if d:
        return [ops.dimlen(t, x) for x in d]
    if rank(t) == 1:
        return [length(t)]
    if rank(t) == 2:
        return [length(t), ops.ncols(t)]
    return [length(t)] + [mk('dim', t, k) for k in range(1, rank(t))]


SHAPES = {}      # arrays by their shape


def shape_tuple(t, items):
    SHAPES.setdefault(tuple(items), t)
    return Tup(items)


def filled(I, shape, v):
    if len(shape) == 1:
        return ops.full(shape[0], v)
    if len(shape) == 2 and v is ZERO:
        return mk('zeros2', *shape)
    return ops.full(mk('tuple', *shape), v)


def f_zeros(v):
    def f(I, a, kw, node):
        t = filled(I, shape_of(I, a[0] if a else kw['shape']), v)
        return I.arr(t)
    return f


def f_full(I, a, kw, node):
    x = I.scalar(a[1] if len(a) > 1 else kw['fill_value'])
    return I.arr(filled(I, shape_of(I, a[0] if a else kw['shape']), x), dtype=dtype_of(I, kw.get('dtype')))


def dtype_of(I, v):
    return None if v is None else I.term(v)


def f_like(v):
    def f(I, a, kw, node):
        x = tv(I, a[0])
        val = v if v is not None else I.scalar(a[1] if len(a) > 1 else kw['fill_value'])
        if not is_arr(x):
            return val
        return I.arr(filled(I, shape_list(x), val))
    return f


def count(a, b, s):
    q = canon(div(sub(b, a), s))
    if is_int(q):
        return q
    return fn('ceil', q)


def f_arange(I, a, kw, node):
    xs = [num_arg(I, x) for x in a]
    if 'start' in kw:
        xs = [num_arg(I, kw['start']), num_arg(I, kw['stop'])]
    if 'step' in kw and len(xs) < 3:
        if len(xs) == 1:
            xs = [ZERO] + xs
        xs.append(num_arg(I, kw['step']))
    if len(xs) == 1:
        xs = [ZERO] + xs
    if len(xs) == 2:
        xs.append(ONE)
    return I.arr(mk('drange', xs[0], xs[2], count(*xs)))


def f_linspace(I, a, kw, node):
    n = I.scalar(a[2]) if len(a) > 2 else I.scalar(kw.get('num', num(50)))
    x, y = num_arg(I, a[0] if a else kw['start']), num_arg(I, a[1] if len(a) > 1 else kw['stop'])
    ep = I.scalar(kw.get('endpoint', TRUE))
    if ep is FALSE:
        return I.arr(mk('drange', x, div(sub(y, x), n), n))
    return I.arr(mk('linspace', x, y, n))


def f_array(I, a, kw, node):
    if not a:
        a = [kw.get('object', kw.get('a'))]
    r = to_array(I, a[0])
    dt = a[1] if len(a) > 1 else kw.get('dtype')
    if dt is not None:
        r = astype(I, r, dt)
    return r


def f_asarray(I, a, kw, node):
    v = I.resolve(a[0])
    if isinstance(v, Ref) and isinstance(I.get(v), Arr) and v.k == 'nd' and 'dtype' not in kw:
        return v
    if isinstance(v, Ref) and isinstance(I.get(v), Arr):
        # shares memory with the labelled array
        return I.new(view_of(I, v), 'nd')
    return f_array(I, a, kw, node)


def view_of(I, ref):
    o = Arr(I.tof(ref))
    o.base = (Ref(ref.a), ('fn', lambda t: t, lambda b, t: t))
    return o


def is_int_dtype(I, dt):
    t = I.term(dt)
    s = t.args[0] if t.op in ('str', 'ext') else ''
    s = str(s).split('.')[-1]
    return s.startswith('int') or s.startswith('uint') or s in ('i2', 'i4', 'i8', 'u2', 'u4', 'u8')


def astype(I, r, dt):
    t = tv(I, r)
    s = I.term(dt)
    name = str(s.args[0]).split('.')[-1] if s.op in ('str', 'ext') else ''
    if is_int_dtype(I, dt):
        if kind(t) == 'bool':
            t = ite(t, ONE, ZERO)
        t = t if t.op == 'sym' and t.args[1] == 'int' else fn('int', t)
    elif name == 'bool' or name == 'bool_':
        if kind(t) != 'bool':
            t = not_(cmp_('==', t, ZERO))
    elif kind(t) == 'bool' and name.startswith('float'):
        t = ite(t, ONE, ZERO)
    if isinstance(r, Ref):
        return lib.wrap(I, t, r)
    return result(I, t)


# ------------------------------------------------------------ 2-D blocks
def deblock(t):
    """(m, x): a 2-D elementwise expression of blocks of m as the flat array x."""
    if not is_arr(t):
        return None, t
    if t.op == 'reshape2':
        return t.args[1], t.args[0]
    if t.op in ops.EW:
        m, parts = None, []
        for a in t.args:
            if isinstance(a, T) and is_arr(a):
                if a.op == 'colvec':
                    parts.append(('c', a.args[0]))
                    continue
                m1, y = deblock(a)
                if m1 is None or m is not None and not equal(m1, m):
                    return None, t
                m = m1
                parts.append(('x', y))
            else:
                parts.append(('s', a))
        if m is None:
            return None, t
        return m, rebuild(t.op, tuple(ops.repeat(y, m) if k == 'c' else y for k, y in parts))
    return None, t


def reduce_last(I, t, how):
    """Reduction over the last axis of a 2-D array."""
    m, x = deblock(t)
    if m is None and rank(t) == 2:
        if t.op == 'rows2':
            return ops.concat([cell(red(how, r)) for r in t.args])
        if t.op == 'colstack':
            s = add(*t.args) if how in ('sum', 'mean') else None
            if s is not None:
                return s if how == 'sum' else div(s, num(len(t.args)))
        return mk('fext', 'reduce_rows', how, t)
    if m is None:
        return mk('fext', 'reduce_rows', how, t)
    if how == 'sum':
        return ops.blocksum(x, m)
    if how == 'mean':
        return div(ops.blocksum(x, m), m)
    return mk('blockred', how, x, m)


def red(how, t):
    if not is_arr(t):
        return t
    if how == 'sum':
        if kind(t) == 'bool':
            return mk('count', t)
        return ops.total(t)
    if how == 'mean':
        n = length(t) if rank(t) == 1 else mul(length(t), ops.ncols(t))
        return div(ops.total(t), n)
    if how in ('any', 'all'):
        b = t if kind(t) == 'bool' else not_(cmp_('==', t, ZERO))
        if how == 'any':
            return any_(b)
        return not_(any_(not_(b)))
    if t.op == 'full':
        return t.args[1]
    return mk('reduce', how, t)


def any_(b):
    if b in (TRUE, FALSE):
        return b
    if not is_arr(b):
        return b
    if b.op == 'full':
        return b.args[1]
    if b.op == 'or':
        return or_(*[any_(x) for x in b.args])
    return mk('any', b)


def reduction(how):
    def f(I, a, kw, node):
        v = a[0] if a else kw.get('a')
        axis = a[1] if len(a) > 1 else kw.get('axis', NONE)
        return reduce_(I, v, how, axis)
    return f


def reduce_(I, v, how, axis=NONE):
    t = num_arg(I, v) if how not in ('any', 'all') else tv(I, v)
    axis = I.scalar(axis)
    if axis is NONE or rank(t) == 1:
        return red(how, t)
    if is_num(axis) and (axis.args[0] == -1 or axis.args[0] == rank(t) - 1):
        return result(I, reduce_last(I, t, how))
    if is_num(axis) and axis.args[0] == 0:
        if t.op == 'rows2' and how == 'sum':
            return result(I, add(*t.args))
        return I.arr(mk('colsum' if how == 'sum' else 'colred', t, const(how)))
    return result(I, mk('fext', 'reduce', how, t, axis))


def flatten(t):
    if not is_arr(t) or rank(t) <= 1:
        return t
    m, x = deblock(t)
    if m is not None:
        return x
    cols = columns(t)
    if cols is not None:
        return mk('interleave', *cols)
    if t.op == 'rows2':
        return ops.concat(list(t.args))
    if ops.dims_of(t):
        return mk('flatd', t)
    if t.op == 'full' and t.args[0].op == 'tuple':
        return ops.full(mul(*t.args[0].args), t.args[1])
    return ops.flat(t)


def columns(t):
    """Columns of a 2-D array, if they are known."""
    if t.op == 'colstack':
        return list(t.args)
    if t.op in ('zeros2', 'full') and rank(t) == 2:
        n, m = shape_list(t)
        v = ZERO if t.op == 'zeros2' else t.args[1]
        if is_num(m) and m.args[0] <= 8:
            return [ops.full(n, v)] * int(m.args[0])
    if t.op == 'storecol':
        c = columns(t.args[0])
        if c is not None and is_num(t.args[1]):
            k = int(t.args[1].args[0])
            v = t.args[2]
            c[k] = v if is_arr(v) else ops.full(length(t.args[0]), v)
            return c
    return None


def f_column_stack(I, a, kw, node):
    items = lib.seq_items(I, a[0])
    if items is None:
        return lib.opaque_call(I, mk('ext', 'numpy.column_stack'), a, kw)
    return I.arr(mk('colstack', *[tv(I, x) for x in items]))


def f_stack(I, a, kw, node):
    items = [tv(I, x) for x in lib.seq_items(I, a[0])]
    axis = I.scalar(a[1] if len(a) > 1 else kw.get('axis', ZERO))
    if is_num(axis) and axis.args[0] in (1, -1):
        return I.arr(mk('colstack', *items))
    return I.arr(mk('rows2', *items))


def f_vstack(I, a, kw, node):
    return I.arr(mk('rows2', *[tv(I, x) for x in lib.seq_items(I, a[0])]))


def f_concatenate(I, a, kw, node):
    v = a[0] if a else kw['arrays']
    items = lib.seq_items(I, v)
    if items is None:
        g = lib.as_gen(I, v)
        if g is None:
            return I.arr(mk('arr', I.term(v)))
        n, make = g
        i = mk('i', ops.fresh())
        ops.UPPER[i] = n
        x = tv(I, make(i))
        h, e = bind(i, x)
        return I.arr(ops.concatL(n, h, e, length(x)))
    ts = [cell(tv(I, x)) for x in items]
    ts = [t for t in ts if not (t.op == 'concat' and len(t.args) == 1)]
    return I.arr(ops.concat(ts))


def f_append(I, a, kw, node):
    return I.arr(ops.concat([cell(tv(I, a[0])), cell(tv(I, a[1] if len(a) > 1 else kw['values']))]))


def f_insert(I, a, kw, node):
    x, i, v = tv(I, a[0]), I.scalar(a[1]), cell(tv(I, a[2]))
    n = length(x)
    if i is ZERO:
        return I.arr(ops.concat([v, x]))
    i = lib.norm_index(i, n)
    return I.arr(ops.concat([ops.slice_(x, ZERO, i), v, ops.slice_(x, i, n)]))


def f_repeat(I, a, kw, node):
    k = I.scalar(a[1] if len(a) > 1 else kw['repeats'])
    return I.arr(ops.repeat(tv(I, a[0]), k))


def f_roll(I, a, kw, node):
    x = tv(I, a[0])
    return lib.wrap(I, ops.roll(x, canon(I.scalar(a[1] if len(a) > 1 else kw['shift']))), a[0])


def f_bincount(I, a, kw, node):
    ids = tv(I, a[0])
    w = a[1] if len(a) > 1 else kw.get('weights')
    if w is not None and ids.op == 'repeat' and ids.args[0].op == 'drange' and ids.args[0].args[0] is ZERO and \
            ids.args[0].args[1] is ONE:
        w = tv(I, w)
        if equal(length(w), length(ids)) or True:
            if not equal(length(w), length(ids)):
                I.event('shape', what='bincount', a=length(w), b=length(ids))
            return I.arr(ops.blocksum(w, ids.args[1]))
    return I.arr(mk('fext', 'bincount', ids, tv(I, w) if w is not None else NONE))


def f_reduceat(I, a, kw, node):
    x, ix = tv(I, a[0]), tv(I, a[1])
    if ix.op == 'drange' and ix.args[0] is ZERO:
        return I.arr(ops.blocksum(x, ix.args[1]))
    return I.arr(mk('fext', 'reduceat', x, ix))


def f_diff(I, a, kw, node):
    x = tv(I, a[0])
    return I.arr(diff(x))


def diff(x):
    if not is_arr(x):
        return x
    if x.op == 'concat' and rank(x) == 1:
        pass
    return mk('diff', x)


def nonzero(I, c):
    if kind(c) != 'bool':
        c = not_(cmp_('==', c, ZERO))
    if rank(c) <= 1:
        return Tup([I.arr(mk('nz', c))])
    return Tup([I.arr(mk('nzi', c, num(k))) for k in range(rank(c))])


def f_where(I, a, kw, node):
    if len(a) == 1:
        return nonzero(I, tv(I, a[0]))
    c = tv(I, a[0])
    if kind(c) != 'bool':
        c = not_(cmp_('==', c, ZERO))
    x, y = num_arg(I, a[1]), num_arg(I, a[2])
    return lib.wrap(I, ite(c, x, y), *a) if not is_arr(ite(c, x, y)) or True else None


def f_select(I, a, kw, node):
    cs, vs = lib.seq_items(I, a[0]), lib.seq_items(I, a[1])
    d = num_arg(I, a[2]) if len(a) > 2 else num_arg(I, kw.get('default', ZERO))
    t = d
    for c, v in reversed(list(zip(cs, vs))):
        t = ite(tv(I, c), num_arg(I, v), t)
    return result(I, t)


def f_clip(I, a, kw, node):
    lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min', NONE))
    hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max', NONE))
    return clip(I, a[0], lo, hi)


def clip(I, v, lo, hi):
    t = num_arg(I, v)
    if I.scalar(lo) is not NONE:
        t = max_(t, num_arg(I, lo))
    if I.scalar(hi) is not NONE:
        t = min_(t, num_arg(I, hi))
    return lib.wrap(I, t, v)


def f_isnan(I, a, kw, node):
    t = tv(I, a[0])
    return lib.wrap(I, isnull(t), a[0])


def isnull(t):
    if not ops.maynan(t):
        return FALSE if not is_arr(t) else ops.full(length(t), FALSE)
    if t is NAN:
        return TRUE
    return mk('isnull', t)


def f_interp(I, a, kw, node):
    x, xp, fp = [num_arg(I, v) for v in a[:3]]
    t = mk('interp', 'clamp', xp, fp, x, TRUE) if is_arr(x) else \
        ops.getitem(mk('interp', 'clamp', xp, fp, ops.full(ONE, x), TRUE), ZERO)
    if kw:
        t = mk('fext', 'interp', t, *[mk('pair', const(k), I.term(v)) for k, v in kw.items()])
    return result(I, t)


def f_interp1d(I, a, kw, node):
    x, y = tv(I, a[0]), tv(I, a[1])
    how = I.scalar(a[2] if len(a) > 2 else kw.get('kind', const('linear')))
    be = I.scalar(kw.get('bounds_error', NONE))
    fv = kw.get('fill_value', NAN)
    fvt = I.term(fv)
    ex = FALSE
    if is_str(fvt) and fvt.args[0] == 'extrapolate':
        ex = TRUE
    elif fvt is not NAN:
        ex = mk('fill', fvt)
    o = Opaque('interp', mk('interpolant', how, x, y, ex))
    o.attrs = {'kind': how.args[0] if is_str(how) else '?', 'x': x, 'y': y, 'extrap': ex, 'bounds_error': be}
    return I.new(o)


def f_pchip(I, a, kw, node):
    x, y = tv(I, a[0]), tv(I, a[1])
    ex = I.term(a[3] if len(a) > 3 else kw.get('extrapolate', TRUE))
    if ex is NONE:
        ex = TRUE
    o = Opaque('interp', mk('interpolant', const('pchip'), x, y, ex))
    o.attrs = {'kind': 'pchip', 'x': x, 'y': y, 'extrap': ex}
    return I.new(o)


def f_otherinterp(name):
    def f(I, a, kw, node):
        x, y = tv(I, a[0]), tv(I, a[1])
        o = Opaque('interp', mk('interpolant', const(name), x, y, TRUE))
        o.attrs = {'kind': name, 'x': x, 'y': y, 'extrap': TRUE}
        return I.new(o)
    return f


def call_interp(I, o, args):
    pts = num_arg(I, args[0])
    a = o.attrs
    if a.get('bounds_error') in (TRUE,) or a['kind'] == 'linear' and a.get('bounds_error') is NONE \
            and a['extrap'] is FALSE:
        I.event('bounds_error', pts=pts)
    t = mk('interp', a['kind'], a['x'], a['y'], pts if is_arr(pts) else ops.full(ONE, pts), a['extrap'])
    if not is_arr(pts):
        return ops.getitem(t, ZERO)
    return I.arr(t)


def f_ndenumerate(I, a, kw, node):
    t = tv(I, a[0])
    ds = ops.dims_of(t)
    if not ds:
        k = rank(t)
        ds = list(range(k))
    i = mk('i', ops.fresh())
    n = mk('size', t)
    ops.UPPER[i] = n
    idx = []
    v = t
    for pos, d in enumerate(ds):
        x = mk('nd', i, d)
        idx.append(x)
        ops.UPPER[x] = ops.dimlen(t, d) if ops.dims_of(t) else (length(t) if pos == 0 else ops.ncols(t))
        v = ops.isel(v, d, x) if ops.dims_of(t) else ops.getitem(v, x)
    r = I.list_((), 'ndenumerate')
    I.mut(r).segs = [('gen', n, i, TRUE, Tup([Tup(idx), v]))]
    I.event('ndenumerate', over=t, index=i)
    return r


def f_ndindex(I, a, kw, node):
    shape = shape_of(I, a[0]) if len(a) == 1 else [I.scalar(x) for x in a]
    i = mk('i', ops.fresh())
    t = SHAPES.get(tuple(shape))
    ds = ops.dims_of(t) if t is not None else ()
    n = mul(*shape) if t is None else mk('size', t)
    ops.UPPER[i] = n
    idx = []
    for pos, s in enumerate(shape):
        d = ds[pos] if len(ds) == len(shape) else pos
        x = mk('nd', i, d)
        ops.UPPER[x] = s
        idx.append(x)
    r = I.list_((), 'ndenumerate')
    I.mut(r).segs = [('gen', n, i, TRUE, Tup(idx))]
    return r


def f_argwhere(I, a, kw, node):
    c = tv(I, a[0])
    if kind(c) != 'bool':
        c = not_(cmp_('==', c, ZERO))
    return I.arr(mk('argwhere', c))


def f_count(I, a, kw, node):
    c = tv(I, a[0])
    if kind(c) != 'bool':
        c = not_(cmp_('==', c, ZERO))
    return mk('count', c)


def f_isclose(I, a, kw, node):
    x, y = num_arg(I, a[0]), num_arg(I, a[1])
    return lib.wrap(I, mk('fext', 'isclose', x, y), a[0], a[1])


def f_array_equal(I, a, kw, node):
    x, y = tv(I, a[0]), tv(I, a[1])
    return TRUE if x is y else mk('truth', mk('call', 'array_equal', x, y))


def f_unravel(I, a, kw, node):
    i, shape = I.term(a[0]), shape_of(I, a[1] if len(a) > 1 else kw['shape'])
    if is_arr(i):
        raise I.Unmodelled('unravel_index', I.where())
    r = []
    for k, n in enumerate(shape):
        x = mk('pi', i, k, n, mul(*(shape[k + 1:] or [ONE])))
        ops.UPPER[x] = n
        r.append(x)
    return Tup(r)


def f_copy(I, a, kw, node):
    return I.arr(tv(I, a[0]))


def f_reshape(I, a, kw, node):
    return reshape(I, a[0], [a[1] if len(a) > 1 else kw.get('newshape', kw.get('shape'))], kw)


def reshape(I, v, args, kw):
    t = tv(I, v)
    if len(args) == 1:
        sh = shape_of(I, args[0])
    else:
        sh = [I.scalar(x) for x in args]
    if len(sh) == 1:
        return I.new(fn_view(I, v, flatten, None), 'nd') if isinstance(v, Ref) else I.arr(flatten(t))
    flat_ = flatten(t)
    n = length(flat_)
    if len(sh) == 2:
        a, b = sh
        if is_num(b) and b.args[0] == -1:
            b = canon(div(n, a))
        elif not (is_num(a) and a.args[0] == -1) and not equal(mul(a, b), n):
            I.event('shape', what='reshape', a=n, b=mul(a, b))
            I.may('ValueError', mk('not', cmp_('==', mul(a, b), n)) if cmp_('==', mul(a, b), n) not in (
                TRUE, FALSE) else TRUE)
        if b is ONE:
            return I.arr(mk('colvec', flat_))
        if is_num(a) and a is ONE:
            return I.arr(mk('rows2', flat_))
        return I.arr(mk('reshape2', flat_, b))
    return I.arr(mk('reshapen', flat_, *sh))


def fn_view(I, ref, get, put):
    o = Arr(get(I.tof(ref)))
    o.base = (Ref(ref.a), ('fn', get, put))
    return o


def transpose(t):
    if t.op == 'colstack':
        return mk('rows2', *t.args)
    if t.op == 'rows2':
        return mk('colstack', *t.args)
    c = columns(t) if rank(t) == 2 else None
    if c is not None:
        return mk('rows2', *c)
    return t if rank(t) <= 1 else mk('transpose', t)


def f_tile(I, a, kw, node):
    x = tv(I, a[0])
    n = a[1] if len(a) > 1 else kw['reps']
    k = I.scalar(n) if not isinstance(n, Tup) else None
    if k is None or rank(x) > 1:
        return I.arr(mk('fext', 'tile', x, I.term(n)))
    i = mk('bi', 0)
    if not is_arr(x):
        return I.arr(ops.full(k, x))
    h, e = bind(mk('i', ops.fresh()), x)
    return I.arr(ops.concatL(k, h, e, length(x)))


def f_sort(I, a, kw, node):
    return I.arr(mk('sorted', tv(I, a[0])))


def f_unwrapq(I, a, kw, node):
    return result(I, num_arg(I, a[0]))


def f_issubdtype(I, a, kw, node):
    return mk('truth', mk('call', 'issubdtype', I.term(a[0]), I.term(a[1])))


def f_shape(I, a, kw, node):
    return Tup(shape_list(tv(I, a[0])))


def f_size(I, a, kw, node):
    t = tv(I, a[0])
    return size(t)


def size(t):
    if not is_arr(t):
        return ONE
    return mul(*shape_list(t))


def f_errstate(I, a, kw, node):
    return I.new(Opaque('ctx', mk('ext', 'errstate')))


def f_vectorize(I, a, kw, node):
    f = a[0]

    def call(I2, args, kw2, node2):
        arrs = [(k, tv(I2, x)) for k, x in enumerate(args)]
        n = None
        for k, t in arrs:
            if is_arr(t):
                n = length(t)
        if n is None:
            return I2.call(f, args, kw2)
        i = mk('i', ops.fresh())
        ops.UPPER[i] = n
        v = I2.call(f, [ops.getitem(t, i) if is_arr(t) else args[k] for k, t in arrs], kw2)
        return I2.arr(ops.gen(n, i, I2.term(v)))
    return Native('vectorized', call)


def f_quiet(I, a, kw, node):
    return NONE


def f_flatnonzero(I, a, kw, node):
    return nonzero(I, flatten(tv(I, a[0]))).items[0]


def f_take(I, a, kw, node):
    ix = tv(I, a[1])
    x = tv(I, a[0])
    return result(I, ops.take(x, ix) if is_arr(ix) else ops.getitem(x, ix))


def f_average(I, a, kw, node):
    if kw:
        return lib.opaque_call(I, mk('ext', 'numpy.average'), a, kw)
    return reduce_(I, a[0], 'mean')


def f_isin(I, a, kw, node):
    return I.arr(mk('fext', 'isin', tv(I, a[0]), tv(I, a[1])))


def f_searchsorted(I, a, kw, node):
    r = mk('fext', 'searchsorted', tv(I, a[0]), tv(I, a[1]))
    return result(I, r)


def f_logical(op):
    def f(I, a, kw, node):
        xs = [tb(tv(I, v)) for v in a]
        r = {'and': lambda: and_(*xs), 'or': lambda: or_(*xs), 'not': lambda: not_(xs[0]),
             'xor': lambda: or_(and_(xs[0], not_(xs[1])), and_(not_(xs[0]), xs[1]))}[op]()
        return lib.wrap(I, r, *a)
    return f


def f_logical_reduce(op):
    def f(I, a, kw, node):
        xs = [tb(tv(I, x)) for x in lib.seq_items(I, a[0])]
        return result(I, and_(*xs) if op == 'and' else or_(*xs))
    return f


def tb(t):
    return t if kind(t) == 'bool' else not_(cmp_('==', t, ZERO))


def f_remainder(I, a, kw, node):
    x, y = num_arg(I, a[0]), num_arg(I, a[1])
    return lib.wrap(I, mod(x, y), *a)


def m_remainder(I, a, kw, node):
    return mk('fext', 'remainder', num_arg(I, a[0]), num_arg(I, a[1]))


def m_fmod(I, a, kw, node):
    return lib.wrap(I, mk('fext', 'fmod', num_arg(I, a[0]), num_arg(I, a[1])), *a)


def f_degrees(c):
    def f(I, a, kw, node):
        import math
        k = num(math.pi / 180 if c else 180 / math.pi)
        return lib.wrap(I, mul(k, num_arg(I, a[0])), a[0])
    return f


def f_vecdot(I, a, kw, node):
    x, y = num_arg(I, a[0]), num_arg(I, a[1])
    if is_arr(x) and is_arr(y) and rank(x) == rank(y) == 1:
        return ops.total(mul(x, y))
    return result(I, mk('fext', 'dot', x, y))


def f_split(I, a, kw, node):
    t = tv(I, a[0])
    n = I.scalar(a[1])
    if is_num(n):
        k = int(n.args[0])
        m = canon(div(length(t), n))
        return I.list_([I.arr(ops.slice_(t, mul(num(j), m), mul(num(j + 1), m))) for j in range(k)])
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    m = canon(div(length(t), n))
    r = I.list_()
    I.mut(r).segs = [('gen', n, i, TRUE, I.arr(ops.slice_(t, mul(i, m), mul(add(i, ONE), m))))]
    return r


def f_einsum(I, a, kw, node):
    return result(I, mk('fext', 'einsum', *[I.term(x) for x in a]))


NP = {
    'zeros': f_zeros(ZERO), 'ones': f_zeros(ONE), 'empty': f_zeros(ZERO), 'full': f_full, 'zeros_like': f_like(ZERO),
    'ones_like': f_like(ONE), 'empty_like': f_like(ZERO), 'full_like': f_like(None), 'arange': f_arange,
    'linspace': f_linspace, 'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray, 'atleast_1d': f_asarray,
    'ascontiguousarray': f_asarray,
    'column_stack': f_column_stack, 'stack': f_stack, 'vstack': f_vstack, 'row_stack': f_vstack,
    'hstack': f_concatenate, 'concatenate': f_concatenate, 'append': f_append, 'insert': f_insert,
    'repeat': f_repeat, 'roll': f_roll, 'bincount': f_bincount, 'add.reduceat': f_reduceat, 'diff': f_diff,
    'nonzero': lambda I, a, kw, node: nonzero(I, tv(I, a[0])), 'where': f_where, 'select': f_select, 'clip': f_clip,
    'isnan': f_isnan, 'interp': f_interp, 'ndenumerate': f_ndenumerate, 'ndindex': f_ndindex,
    'argwhere': f_argwhere, 'unravel_index': f_unravel, 'count_nonzero': f_count, 'isclose': f_isclose, 'array_equal': f_array_equal,
    'copy': f_copy, 'reshape': f_reshape, 'ravel': lambda I, a, kw, node: I.arr(flatten(tv(I, a[0]))),
    'transpose': lambda I, a, kw, node: I.arr(transpose(tv(I, a[0]))), 'tile': f_tile, 'sort': f_sort,
    'shape': f_shape, 'size': f_size, 'errstate': f_errstate, 'seterr': f_quiet, 'vectorize': f_vectorize,
    'flatnonzero': f_flatnonzero, 'take': f_take, 'average': f_average, 'isin': f_isin, 'in1d': f_isin,
    'searchsorted': f_searchsorted, 'logical_and': f_logical('and'), 'logical_or': f_logical('or'),
    'logical_not': f_logical('not'), 'invert': f_logical('not'), 'logical_xor': f_logical('xor'),
    'logical_and.reduce': f_logical_reduce('and'), 'logical_or.reduce': f_logical_reduce('or'),
    'remainder': f_remainder, 'fmod': m_fmod, 'deg2rad': f_degrees(True), 'radians': f_degrees(True),
    'rad2deg': f_degrees(False), 'degrees': f_degrees(False), 'dot': f_vecdot, 'split': f_split,
    'array_split': f_split, 'einsum': f_einsum, 'issubdtype': f_issubdtype, 'set_printoptions': f_quiet,
    'nan_to_num': lambda I, a, kw, node: lib.wrap(I, ite(isnull(tv(I, a[0])), ZERO, tv(I, a[0])), a[0]),
    'ndim': lambda I, a, kw, node: num(rank(tv(I, a[0])) if is_arr(tv(I, a[0])) else 0),
    'squeeze': f_asarray,
}
for _n, _h in (('sum', 'sum'), ('mean', 'mean'), ('max', 'max'), ('min', 'min'), ('amax', 'max'), ('amin', 'min'),
               ('any', 'any'), ('all', 'all'), ('nansum', 'sum'), ('nanmean', 'mean'), ('nanmin', 'min'),
               ('nanmax', 'max'), ('median', 'median'), ('std', 'std'), ('var', 'var'), ('prod', 'prod'),
               ('argmax', 'argmax'), ('argmin', 'argmin'), ('add.reduce', 'sum')):
    NP[_n] = reduction(_h)


def f_cumsum(I, a, kw, node):
    return I.arr(mk('cumsum', num_arg(I, a[0])))


NP['cumsum'] = f_cumsum
for _n, _f in NP.items():
    TABLE['numpy.' + _n] = _f
TABLE.update({'scipy.interpolate.interp1d': f_interp1d, 'scipy.interpolate.PchipInterpolator': f_pchip,
              'scipy.interpolate.pchip': f_pchip, 'math.remainder': m_remainder, 'math.fmod': m_fmod,
              'scipy.interpolate.pchip_interpolate': lambda I, a, kw, node: call_interp(
                  I, I.get(f_pchip(I, a[:2], {}, node)), a[2:]),
              'scipy.interpolate.CubicSpline': f_otherinterp('cubic'),
              'scipy.interpolate.Akima1DInterpolator': f_otherinterp('akima'),
              'scipy.interpolate.UnivariateSpline': f_otherinterp('spline'),
              'scipy.interpolate.make_interp_spline': f_otherinterp('bspline'),
              'math.radians': f_degrees(True), 'math.degrees': f_degrees(False)})


def f_isinf(I, a, kw, node):
    return FALSE


def f_isfinite(I, a, kw, node):
    t = tv(I, a[0])
    return lib.wrap(I, not_(isnull(t)), a[0])


TABLE.update({'numpy.isfinite': f_isfinite, 'math.isnan': f_isnan, 'math.isfinite': f_isfinite})


def family(I, path, args, kw, node):
    p = path.split('.')
    if p[0] in ('numpy', 'math', 'numba') and len(p) == 2:
        n = p[1]
        if n in EW1 and args:
            x = num_arg(I, args[0])
            if EW1[n] in ('log', 'acos', 'asin', 'sqrt', 'log10'):
                I.event('domain', fn=EW1[n], arg=x)
            r = ewfn(EW1[n], x)
            if p[0] == 'math' and n == 'trunc':
                r = fn('int', x)
            if 'where' in kw or 'out' in kw and I.term(kw['out']) is not NONE:
                return store_out(I, r, kw)
            return lib.wrap(I, r, args[0])
        if n in EW2 and len(args) >= 2:
            x, y = num_arg(I, args[0]), num_arg(I, args[1])
            if n in ('divide', 'true_divide'):
                I.event('div', den=y)
            r = EW2[n](x, y)
            if 'where' in kw or 'out' in kw or len(args) > 2:
                if len(args) > 2:
                    kw = dict(kw, out=args[2])
                return store_out(I, r, kw)
            return lib.wrap(I, r, args[0], args[1])
        if n in CMP2:
            return lib.wrap(I, cmp_(CMP2[n], num_arg(I, args[0]), num_arg(I, args[1])), args[0], args[1])
        if n == 'negative':
            return lib.wrap(I, neg(num_arg(I, args[0])), args[0])
        if n in ('arctan2', 'atan2', 'hypot', 'copysign', 'heaviside'):
            x, y = num_arg(I, args[0]), num_arg(I, args[1])
            return lib.wrap(I, mk('fext', n, x, y), args[0], args[1])
        if n in ('float64', 'float32', 'float', 'double', 'float16', 'float128', 'longdouble'):
            return lib.numof(I, args[0], 'float') if not isinstance(args[0], Ref) else astype(
                I, args[0], Ext('numpy.float64'))
        if n in ('int64', 'int32', 'int', 'int16', 'int8', 'intp', 'uint16', 'uint8'):
            return lib.numof(I, args[0], 'int') if not isinstance(args[0], Ref) else astype(
                I, args[0], Ext('numpy.int64'))
        if n in ('bool_', 'bool'):
            return I.truth(args[0])
        if n in ('round', 'around', 'round_'):
            x = num_arg(I, args[0])
            if len(args) == 1 and not kw:
                return lib.wrap(I, fn('rint', x), args[0])
            return lib.wrap(I, mk('fext', 'round', x, *[I.term(z) for z in args[1:]]), args[0])
        if n in ('datetime64',):
            from . import libpd
            return libpd.timestamp(I, args[0])
        if n in ('timedelta64',):
            from . import libpd
            return libpd.timedelta(I, args, kw)
        if n == 'dtype':
            return I.new(Opaque('dtype', mk('dtype', I.term(args[0]))))
        if n in ('finfo', 'iinfo'):
            return I.new(Opaque('finfo', mk('ext', n)))
        if n == 'fsum':
            return reduce_(I, args[0], 'sum')
        if n == 'prange':
            return lib.b_range(I, args, kw, node)
    return None


def store_out(I, r, kw):
    out = kw.get('out')
    w = kw.get('where')
    if out is not None and I.is_obj(I.resolve(out), Arr):
        out = I.resolve(out)
        t = I.tof(out)
        v = r if w is None else ite(tb(tv(I, w)), r, t)
        I.setarr(out, v if is_arr(v) else ops.full(length(t), v))
        return out
    if w is not None:
        return result(I, ite(tb(tv(I, w)), r, sym('uninitialised', 'num')))
    return result(I, r)


# ------------------------------------------------------------ subscripting
def bounds_of(I, s, n):
    """(a, b, step) of a slice of an axis of length n."""
    def pos(x, d):
        if x is NONE:
            return d
        y = lib.norm_index(x, n)
        if y is not x:
            return y
        if is_num(x):
            return x
        return x
    st = s.c
    if st is NONE or st is ONE:
        a, b = pos(s.a, ZERO), pos(s.b, n)
        # an end beyond the array is the end of the array
        d = canon(sub(b, n))
        if d.op == 'num' and d.args[0] > 0:
            b = n
        elif d.op != 'num' and d is not ZERO:
            lo, hi = ops.bounds(d)
            if lo is not None and lo >= 0:
                b = n
        return a, b, ONE
    return pos(s.a, ZERO if not (is_num(st) and st.args[0] < 0) else sub(n, ONE)), \
        pos(s.b, n if not (is_num(st) and st.args[0] < 0) else num(-1)), st


def strided(x, a, b, st):
    if is_num(st) and st.args[0] < 0:
        k = sub(a, b) if st.args[0] == -1 else fn('ceil', div(sub(a, b), neg(st)))
        return ops.take(x, mk('drange', a, st, canon(k)))
    if x.op == 'interleave' and is_num(st) and is_num(a) and st.args[0] == len(x.args) and a.args[0] < len(x.args):
        return x.args[int(a.args[0])]
    k = count(a, b, st)
    return ops.take(x, mk('drange', a, st, k))


def put_strided(base, a, b, st, v):
    if is_num(st) and is_num(a) and 1 < st.args[0] <= 8 and a.args[0] < st.args[0]:
        m = int(st.args[0])
        n = canon(div(length(base), st))
        if is_int(n):
            cols = list(base.args) if base.op == 'interleave' and len(base.args) == m else \
                [strided(base, num(k), length(base), st) if base.op != 'full' else ops.full(n, base.args[1])
                 for k in range(m)]
            cols[int(a.args[0])] = v if is_arr(v) else ops.full(n, v)
            return mk('interleave', *cols)
    k = count(a, b, st)
    return ops.store(base, mk('drange', a, st, k), v)


def arr_getitem(I, ref, idx):
    o = I.get(ref)
    from . import libpd
    if ref.k == 'da':
        return libpd.da_getitem(I, ref, idx)
    if ref.k == 'ser':
        return libpd.ser_getitem(I, ref, idx)
    t = I.tof(ref)
    if isinstance(idx, (T, Phi)):
        i = I.scalar(idx)
        if i is NONE:
            return I.arr(mk('rows2', t))
        if i.op == 'ellipsis':
            return ref
        if is_text(i):
            return I.arr(mk('field', t, i))
        if is_arr(i):
            return I.arr(by_array(t, i), k=ref.k)
        if kind(i) == 'bool' and i in (TRUE, FALSE):
            return ref
        check_index(I, t, i)
        return I.arr_elem(ref, i)
    if isinstance(idx, Slc):
        a, b, st = bounds_of(I, idx, length(t))
        if st is not ONE:
            v = fn_view(I, ref, lambda x: strided(x, a, b, st), lambda x, v: put_strided(x, a, b, st, v))
            return I.new(v, ref.k)
        if a is ZERO and b is length(t) and ref.k == 'idx':
            return ref
        if rank(t) > 1:
            if a is ZERO and equal(b, length(t)):
                return I.new(view_of(I, ref), ref.k)
            return I.arr(mk('slicerows', t, a, b))
        v = Arr(ops.slice_(t, a, b))
        v.base = (Ref(ref.a), Slc(a, b))
        return I.new(v, ref.k)
    if isinstance(idx, Ref):
        oi = I.get(idx)
        if isinstance(oi, Arr):
            it = I.tof(idx)
            if not is_arr(it):
                return arr_getitem(I, ref, it)
            return I.arr(by_array(t, it), k=ref.k)
        if isinstance(oi, ListO):
            it = tv(I, idx)
            items = lib.seq_items(I, idx)
            if items is not None and all(isinstance(x, T) for x in items):
                return I.arr(ops.concat([ops.full(ONE, ops.getitem(t, lib.norm_index(x, length(t))))
                                         for x in items]), k=ref.k)
            return I.arr(by_array(t, it), k=ref.k)
    if isinstance(idx, Tup):
        items = [x for x in idx.items]
        if any(isinstance(x, T) and x is NONE for x in items):
            full_ = [x for x in items if not (isinstance(x, T) and x is NONE)]
            if len(items) == 2 and len(full_) == 1 and isinstance(full_[0], Slc) and full_[0].a is NONE and \
                    full_[0].b is NONE:
                if items[1] is NONE:
                    return I.arr(mk('colvec', t))
                return I.arr(mk('rows2', t))
            raise I.Unmodelled('newaxis', I.where())
        items = [x for x in items if not (isinstance(x, T) and x.op == 'ellipsis')] \
            if len(items) > 1 and rank(t) < len(items) else items
        if len(items) == 1:
            return arr_getitem(I, ref, items[0])
        if len(items) == 2:
            i, j = items
            if isinstance(i, T) and i.op == 'ellipsis':
                i = Slc(NONE, NONE)
            if isinstance(j, T) and j.op == 'ellipsis':
                j = Slc(NONE, NONE)
            if not isinstance(i, (Slc, Ref)):
                row = I.arr_elem(ref, I.scalar(i))
                return arr_getitem(I, row, j)
            if isinstance(i, Slc) and i.a is NONE and i.b is NONE and not isinstance(j, (Slc, Ref)):
                j = I.scalar(j)
                if is_num(j) and j.args[0] < 0:
                    j = add(ops.ncols(t), j)
                return I.new(fn_view(I, ref, lambda x: column(x, j), lambda x, v: mk('storecol', x, j, v)), 'nd')
            if isinstance(i, Ref):
                it = I.tof(i)
                if is_arr(it):
                    return I.arr(mk('take2', t, it, I.term(j)))
                return arr_getitem(I, arr_getitem(I, ref, it), j)
            if isinstance(i, Slc) and isinstance(j, Slc) and i.a is NONE and i.b is NONE and j.a is NONE and \
                    j.b is NONE:
                return I.new(view_of(I, ref), 'nd')
            a, b, st = bounds_of(I, i, length(t))
            return I.arr(mk('block', t, a, b, I.term(j)))
        if isinstance(items[0], T):
            row = I.arr_elem(ref, items[0])
            return arr_getitem(I, row, Tup(items[1:]))
    raise I.Unmodelled('array subscript %r' % (idx,), I.where())


def is_text(t):
    return lib.is_text(t)


def check_index(I, t, i):
    I.event('index', arr=t, i=i)


def column(x, j):
    c = columns(x)
    if c is not None and is_num(j) and j.args[0] < len(c):
        return c[int(j.args[0])]
    if x.op in ops.EW:
        return ops.push(x, lambda a: column(a, j))
    return mk('column', x, j)


def by_array(t, it):
    if kind(it) == 'bool':
        return select(t, it)
    return ops.take(t, it)


def select(t, mask):
    if t.op == 'drange' and t.args[0] is ZERO and t.args[1] is ONE:
        return mk('nz', mask)
    return ops.select(t, mask)


def arr_setitem(I, ref, idx, x):
    o = I.get(ref)
    from . import libpd
    if ref.k == 'da':
        return libpd.da_setitem(I, ref, idx, x)
    if ref.k == 'ser':
        return libpd.ser_setitem(I, ref, idx, x)
    if ref.k == 'idx':
        I.raise_('TypeError', const('Index does not support mutable operations'))
    t = I.tof(ref)
    v = num_arg(I, x)
    if isinstance(idx, Ref) and isinstance(I.get(idx), ListO):
        idx = tv(I, idx)
    if isinstance(idx, Ref):
        idx = I.tof(idx)
    if isinstance(idx, (T, Phi)):
        i = I.scalar(idx)
        if i.op == 'ellipsis':
            return I.setarr(ref, v if is_arr(v) else ops.full(length(t), v))
        if not is_arr(i):
            if kind(i) == 'bool':
                return I.setarr(ref, ite(i, v, t))
            check_index(I, t, i)
            i = lib.norm_index(i, length(t))
            if rank(t) > 1 and not is_arr(v):
                v = ops.full(ops.ncols(t), v)
        return I.setarr(ref, ops.store(t, i, v))
    if isinstance(idx, Slc):
        a, b, st = bounds_of(I, idx, length(t))
        if st is not ONE:
            return I.setarr(ref, put_strided(t, a, b, st, v))
        if a is ZERO and equal(b, length(t)):
            if not is_arr(v):
                v = filled(I, shape_list(t), v)
            elif rank(v) == 1 and v.op == 'full' and v.args[0] is ONE:
                v = ops.full(length(t), v.args[1])
            return I.setarr(ref, v)
        return I.setarr(ref, ops.store_slice(t, a, b, v))
    if isinstance(idx, Tup):
        items = list(idx.items)
        if len(items) == 1:
            return arr_setitem(I, ref, items[0], x)
        if len(items) >= 2:
            if all(isinstance(z, Slc) and z.a is NONE and z.b is NONE or isinstance(z, T) and z.op == 'ellipsis'
                   for z in items):
                return I.setarr(ref, v if is_arr(v) else filled(I, shape_list(t), v))
            i, j = items[0], items[1]
            if isinstance(i, (T, Phi)) and I.scalar(i).op != 'ellipsis':
                row = I.arr_elem(ref, I.scalar(i))
                if isinstance(row, Ref):
                    return arr_setitem(I, row, j if len(items) == 2 else Tup(items[1:]), x)
            if len(items) == 2 and isinstance(i, (Slc, T)) and not isinstance(j, (Slc, Ref)):
                if isinstance(i, T) or i.a is NONE and i.b is NONE:
                    return I.setarr(ref, mk('storecol', t, I.scalar(j), v))
        return I.setarr(ref, mk('store', t, mk('tuple', *[I.term(z) for z in items]), v))
    raise I.Unmodelled('array assignment %r' % (idx,), I.where())
