"""Array-level constructors of the value graph: structural operations pushed
towards the leaves, so that different ways to write a computation meet."""
from . import terms as tm
from .terms import *

EW = {'add', 'mul', 'pow', 'f', 'min', 'max', 'ite', 'lt0', 'le0', 'eq0', 'eq', 'and', 'or', 'not', 'mod', 'fext'}
ARR = {'repeat', 'roll', 'blocksum', 'gen', 'scatter', 'store', 'concat', 'concatL', 'slice', 'drange', 'interp',
       'take', 'flat', 'select', 'full', 'var', 'tsel', 'csel', 'rolling', 'ffill', 'bfill', 'nz', 'diff', 'zeros2',
       'column', 'rows', 'interleave', 'isnull', 'doy', 'month', 'loc', 'group', 'monthsel', 'cumsum', 'colsum',
       'arr', 'sorted', 'reindex', 'linspace', 'where', 'reshape2', 'stores', 'colstack', 'rows2', 'colvec',
       'blockred', 'colred', 'storecol', 'transpose', 'nzi', 'argwhere', 'flatd', 'reshapen', 'slicerows', 'take2',
       'block', 'field', 'isnull_', 'table', 'collect'}
SHAPES = {}
SCALAR_VARS = set()
_ISARR = {}
_LEN = {}


def arr_sym(name, n):
    t = sym(name, 'arr')
    SHAPES[t] = n
    return t


def is_arr(t):
    r = _ISARR.get(t)
    if r is None:
        op = t.op
        if op == 'sym':
            r = t.args[1] == 'arr'
        elif op == 'mu':
            r = t in SHAPES
        elif op in ('doy', 'month', 'rounded', 'floored', 'isnull', 'rawdays'):
            r = is_arr(t.args[0])
        elif op == 'nearest':
            r = is_arr(t.args[1])
        elif op in ARR:
            r = True
        elif op == 'reddim':
            r = bool(dims_of(t))
        elif op == 'isel':
            r = bool(dims_of(t)) if is_arr(t.args[0]) else False
        elif op in EW:
            r = any(isinstance(a, T) and is_arr(a) for a in t.args)
        elif op == 'getitem':
            r = rank(t.args[0]) > 1
        elif op == 'rec':
            r = is_arr(t.args[4].args[t.args[1]])
        elif op == 'rv':
            r = len(t.args) > 2
        else:
            r = False
        _ISARR[t] = r
    return r


# --------------------------------------------------- named dimensions
class VarDims(dict):
    """'var' node -> dims; what was derived from other dimensions is forgotten."""

    def __setitem__(self, k, v):
        if k not in self or self[k] != v:
            for m in (_DIMS, _LEN, _ISARR):
                m.clear()
        dict.__setitem__(self, k, v)


VARDIMS = VarDims()


_DIMS = {}


def dims_of(t):
    if t.op == 'var':
        if t.args[0].op == 'defined':
            return dims_of(t.args[0].args[0])
        return VARDIMS.get(t, ())
    r = _DIMS.get(t)
    if r is None:
        r = _DIMS[t] = _dims_of(t)
    return r


def _dims_of(t):
    op = t.op
    if op == 'isel':
        d = [x for x in dims_of(t.args[0])]
        if t.args[1] in d and t.args[2].op not in ('sl', 'bsel'):
            d.remove(t.args[1])
        return tuple(d)
    if op in ('tsel', 'rolling', 'csel', 'monthsel', 'ffill', 'bfill'):
        ds = dims_of(t.args[0])
        if op == 'csel' and t.args[1] in ds and not is_arr(t.args[2]):
            return tuple(d for d in ds if d != t.args[1])
        return ds
    if op == 'store' and t.args[1].op in ('locs', 'labels') or op in ('tslice', 'dropped', 'scatter', 'reindex'):
        return dims_of(t.args[0])
    if op in EW or op in ('concat',):
        out = []
        for a in t.args:
            if isinstance(a, T):
                for d in dims_of(a):
                    if d not in out:
                        out.append(d)
        return tuple(out)
    if op in ('doy', 'month'):
        return dims_of(t.args[0])
    if op == 'nearest':
        return dims_of(t.args[1])
    if op == 'reddim':
        return tuple(d for d in dims_of(t.args[1]) if d not in t.args[2])
    if op == 'permute':
        return t.args[1]
    return ()


def permute(t, dims):
    if t.op == 'permute':
        t = t.args[0]
    return t if tuple(dims) == dims_of(t) else mk('permute', t, tuple(dims))


def reddim(how, t, dims):
    """Reduction over named dimensions."""
    mine = dims_of(t)
    dims = tuple(sorted(d for d in dims if d in mine))
    return mk('reddim', how, t, dims) if dims else t


def rank(t):
    op = t.op
    if op in ('zeros2', 'rows', 'colstack', 'rows2', 'colvec', 'reshape2', 'transpose', 'storecol', 'argwhere',
              'slicerows', 'block', 'take2'):
        return 2
    if op in ('var', 'isel', 'tsel', 'rolling', 'csel', 'reddim', 'permute'):
        return max(1, len(dims_of(t)))
    if op in ('store', 'scatter'):
        return rank(t.args[0])
    if op in ('diff',):
        return rank(t.args[0])
    if op == 'rec':
        return rank(t.args[4].args[t.args[1]])
    if op == 'rv':
        return max(1, len(t.args) - 2)
    if op == 'mu' or op == 'sym':
        n = SHAPES.get(t)
        return len(n) if isinstance(n, tuple) else 1
    if op in EW:
        return max([1] + [rank(a) for a in t.args if isinstance(a, T) and is_arr(a)])
    if op == 'getitem':
        return rank(t.args[0]) - 1
    if op == 'gen':
        return 1 + (rank(t.args[2]) if is_arr(t.args[2]) else 0)
    if op == 'full' and t.args[0].op == 'tuple':
        return len(t.args[0].args)
    return 1


def as_drange(t):
    """a*range + b as a range."""
    if t.op not in ('add', 'mul'):
        return t
    rng, c, rest = None, None, []
    for m, k in poly(t).items():
        ds = [a for a, e in m if is_arr(a)]
        if not ds:
            rest.append(frompoly({m: k}))
        elif rng is None and len(ds) == 1 and ds[0].op == 'drange' and dict(m)[ds[0]] == 1:
            rng, c = ds[0], frompoly({tuple((a, e) for a, e in m if a is not ds[0]): k})
        else:
            return t
    if rng is None:
        return t
    return mk('drange', add(mul(c, rng.args[0]), *rest), mul(c, rng.args[1]), rng.args[2])


def length(t):
    r = _LEN.get(t)
    if r is None:
        r = _LEN[t] = _length(t)
    return r


def _length(t):
    op, a = t.op, t.args
    if op == 'rec':
        return length(a[4].args[a[1]])
    if op == 'rv':
        return a[2] if len(a) > 2 else mk('len', t)
    if op in ('sym', 'mu'):
        n = SHAPES.get(t)
        if isinstance(n, tuple):
            return n[0]
        return n if n is not None else mk('len', t)
    if op == 'reddim':
        x = a[1]
        for d in a[2]:
            x = isel(x, d, ZERO)
        return length(x)
    if op == 'repeat':
        return mul(length(a[0]), a[1])
    if op in ('roll', 'ffill', 'bfill', 'store', 'scatter', 'isnull', 'doy', 'month', 'cumsum', 'sorted', 'stores'):
        return length(a[0])
    if op == 'blocksum':
        return div(length(a[0]), a[1])
    if op == 'diff':
        return length(a[0]) if rank(a[0]) > 1 else sub(length(a[0]), ONE)
    if op == 'gen':
        return a[0]
    if op == 'concatL':
        return mul(a[0], a[3])
    if op == 'concat':
        return add(*[length(x) for x in a[1:]])
    if op == 'slice':
        return sub(a[2], a[1])
    if op == 'drange':
        return a[2]
    if op == 'interp':
        return length(a[3])
    if op == 'take':
        return length(a[1])
    if op == 'flat':
        return mul(length(a[0]), a[1])
    if op == 'full':
        return a[0].args[0] if a[0].op == 'tuple' else a[0]
    if op == 'zeros2':
        return a[0]
    if op == 'interleave':
        return mul(num(len(a)), length(a[0]))
    if op == 'linspace':
        return a[2]
    if op in ('reshape2', 'blockred'):
        return div(length(a[0] if op == 'reshape2' else a[1]), a[1] if op == 'reshape2' else a[2])
    if op in ('arr', 'table'):
        return num(len(a))
    if op == 'rows2':
        return num(len(a))
    if op in ('colstack', 'colvec', 'storecol'):
        return length(a[0])
    if op in ('nz', 'nzi', 'argwhere'):
        return mk('count', a[0])
    if op == 'select':
        return mk('count', a[1])
    if op == 'column':
        return length(a[0])
    if op == 'getitem' and rank(a[0]) > 1:
        return ncols(a[0])
    if op == 'tsel':
        return length(tcoord(t)) if tcoord(t) is not t else mk('len', t)
    if op == 'tslice':
        return sub(a[2], a[1])
    if op in ('csel', 'isel', 'rolling', 'var', 'permute'):
        d = dims_of(t)
        if d and d[0] != 'time':
            return dimlen(t, d[0])
        if op == 'rolling' and not d:
            return length(a[0])
        c = tcoord(t)
        return length(c) if c is not None and c is not t else mk('len', t)
    if op in ('rounded', 'floored', 'dropped'):
        return length(a[0])
    if op == 'rawdays':
        return length(a[0])
    if op in EW:
        for x in a:
            if isinstance(x, T) and is_arr(x):
                return length(x)
    return mk('len', t)


def tcoord(t):
    """Time coordinate of a labelled value."""
    if t.op == 'tsel':
        return mk('tsel', t.args[1], t.args[1], t.args[2], t.args[3])
    if t.op in ('csel', 'isel', 'rolling', 'permute') or t.op in EW or t.op == 'store':
        for a in t.args:
            if isinstance(a, T) and is_arr(a):
                c = tcoord(a)
                if c is not None:
                    return c
    if t.op == 'var' and t.args[0].op == 'defined':
        return tcoord(t.args[0].args[0])
    if t.op == 'var' and dims_of(t)[:1] == ('time',):
        return TIME_OF.get(t.args[0])
    return None


TIME_OF = {}


def ncols(t):
    op = t.op
    if op == 'zeros2':
        return t.args[1]
    if op in ('store', 'scatter', 'storecol'):
        return ncols(t.args[0])
    if op == 'colstack':
        return num(len(t.args))
    if op == 'rows2':
        return length(t.args[0])
    if op == 'colvec':
        return ONE
    if op == 'reshape2':
        return t.args[1]
    if op == 'rec':
        return ncols(t.args[4].args[t.args[1]])
    if op == 'rv' and len(t.args) > 3:
        return t.args[3]
    if op in ('mu', 'sym'):
        n = SHAPES.get(t)
        return n[1] if isinstance(n, tuple) else mk('ncols', t)
    if op == 'diff':
        return sub(ncols(t.args[0]), ONE)
    if op == 'full' and t.args[0].op == 'tuple':
        return t.args[0].args[1]
    if op == 'gen':
        return length(t.args[2])
    if op in EW:
        for x in t.args:
            if isinstance(x, T) and is_arr(x):
                return ncols(x)
    return mk('ncols', t)


# ------------------------------------------------------------- pushing
def unfull(t):
    return t.args[1] if t.op == 'full' else t


def ew(op, args):
    """Elementwise node over args, with constant arrays treated as scalars
    next to other arrays."""
    args = list(args)
    arrs = [a for a in args if isinstance(a, T) and is_arr(a)]
    fulls = [a for a in arrs if a.op == 'full']
    if fulls:
        sc = [unfull(a) if isinstance(a, T) else a for a in args]
        if len(fulls) == len(arrs):
            return full(fulls[0].args[0], rebuild(op, sc))
        args = sc
    return rebuild(op, tuple(args))


def push(t, f):
    """Apply the structural function f to the array children of an
    elementwise node."""
    return ew(t.op, [f(a) if isinstance(a, T) and is_arr(a) else a for a in t.args])


def full(n, v):
    return mk('full', n, v)


def repeat(x, k):
    if not is_arr(x):
        return full(k, x)
    if k is ONE:
        return x
    if x.op in EW:
        return push(x, lambda a: repeat(a, k))
    if x.op == 'full':
        return full(mul(x.args[0], k), x.args[1])
    if x.op == 'repeat':
        return repeat(x.args[0], mul(x.args[1], k))
    return mk('repeat', x, k)


def roll(x, s):
    if s is ZERO or not is_arr(x) or x.op == 'full':
        return x
    if x.op in EW:
        return push(x, lambda a: roll(a, s))
    if x.op == 'roll':
        return roll(x.args[0], add(x.args[1], s))
    return mk('roll', x, s)


def flat(x, nc=None):
    if rank(x) <= 1:
        return x
    nc = nc if nc is not None else ncols(x)
    if x.op in EW:
        return push(x, lambda a: flat(a, nc))
    return mk('flat', x, nc)


def _mono_split(p):
    """Polynomial -> list of (coefficient term, array factor term or None)."""
    out = []
    for m, c in p.items():
        sc = [(a, e) for a, e in m if not is_arr(a)]
        ar = [(a, e) for a, e in m if is_arr(a)]
        out.append((frompoly({tuple(sc): c}), frompoly({tuple(ar): Fraction(1)}) if ar else None))
    return out


def blocksum(x, m):
    if m is ONE:
        return x
    if not is_arr(x):
        return mul(x, m)
    if x.op == 'full':
        return full(div(x.args[0], m), mul(x.args[1], m))
    if x.op == 'ite' and not is_arr(x.args[0]):
        return ite(x.args[0], blocksum(x.args[1], m), blocksum(x.args[2], m))
    if x.op in EW:
        x = canon(x)
        parts = _mono_split(poly(x))
        if len(parts) > 1 or parts and parts[0][0] is not ONE:
            return add(*[mul(c, blocksum(a, m)) if a is not None else mul(c, m) for c, a in parts])
    k, y = unrepeat(x)
    if k is not None and is_int(div(k, m)):
        return mul(m, repeat(y, div(k, m)))
    if x.op == 'concatL' and is_int(div(x.args[3], m)):
        n, h, v, k = x.args
        return concatL(n, h, blocksum(v, m), div(k, m))
    return mk('blocksum', x, m)


def unrepeat(x):
    """(k, y) if x is y with every element repeated k times."""
    if x.op == 'repeat':
        return x.args[1], x.args[0]
    if x.op in EW:
        k, args = None, []
        for a in x.args:
            if isinstance(a, T) and is_arr(a):
                k1, y = unrepeat(a)
                if k1 is None or k is not None and k1 is not k:
                    return None, None
                k = k1
                args.append(y)
            else:
                args.append(a)
        return k, rebuild(x.op, tuple(args))
    return None, None


def total(x):
    """Sum of all elements."""
    if not is_arr(x):
        return x
    if x.op == 'full':
        n = x.args[0]
        return mul(x.args[1], *(n.args if n.op == 'tuple' else (n,)))
    if x.op in ('blocksum', 'roll', 'flat', 'sorted'):
        return total(x.args[0])
    if x.op == 'repeat':
        return mul(x.args[1], total(x.args[0]))
    if x.op == 'gen':
        n, h, e = x.args
        if not is_arr(e):
            return canon(mk('sumL', n, h, e))
    if x.op == 'concatL':
        n, h, v, k = x.args
        return canon(mk('sumL', n, h, total(v)))
    if x.op == 'ite' and not is_arr(x.args[0]):
        return ite(x.args[0], total(x.args[1]), total(x.args[2]))
    if x.op == 'concat':
        return add(*[total(a) for a in x.args[1:]])
    if x.op in EW:
        parts = _mono_split(poly(x))
        if len(parts) > 1 or parts and parts[0][0] is not ONE:
            return add(*[mul(c, total(a)) if a is not None else mul(c, length(x)) for c, a in parts])
    return mk('sum', x)


def slice_(x, a, b):
    """x[a:b] with 0 <= a <= b <= len."""
    if not is_arr(x):
        return x
    n = length(x)
    if a is ZERO and equal(b, n):
        return x
    k = sub(b, a)
    if x.op in EW:
        return push(x, lambda y: slice_(y, a, b))
    if x.op == 'full':
        return full(k, x.args[1])
    if x.op == 'repeat':
        y, r = x.args
        q = div(a, r)
        if is_int(canon(q)):
            q = canon(q)
            if equal(k, r):
                return full(k, getitem(y, q))
            w = canon(div(k, r))
            if is_int(w):
                return repeat(slice_(y, q, add(q, w)), r)
    if x.op == 'flat':
        y, nc = x.args
        q = canon(div(a, nc))
        if is_int(q) and equal(k, nc):
            return getitem(y, q)
    if x.op == 'concatL':
        cn, h, v, ck = x.args
        q = canon(div(a, ck))
        if is_int(q) and equal(k, ck):
            return subst(v, {mk('bi', h): q})
    if x.op == 'slice':
        return slice_(x.args[0], add(x.args[1], a), add(x.args[1], b))
    if x.op == 'drange':
        return mk('drange', add(x.args[0], mul(a, x.args[1])), x.args[1], k)
    if x.op == 'gen':
        n0, h, e = x.args
        return gen_h(k, h, subst(e, {mk('bi', h): add(mk('bi', h), a)}))
    if x.op == 'concat' and x.args[0].op == 'none':
        pos, out = ZERO, []
        for y in x.args[1:]:
            e = add(pos, length(y))
            if equal(a, pos) and equal(b, e):
                return y
            pos = e
    if is_num(a) and is_num(b) and 0 <= b.args[0] - a.args[0] <= 4:
        return concat([full(ONE, getitem(x, num(j))) for j in range(int(a.args[0]), int(b.args[0]))]) \
            if b.args[0] > a.args[0] else mk('concat', NONE)
    if is_num(k) and 0 < k.args[0] <= 4 and k.args[0].denominator == 1:
        return concat([full(ONE, getitem(x, add(a, num(j)))) for j in range(int(k.args[0]))])
    return mk('slice', x, a, b)


def concat(xs):
    out = []
    for x in xs:
        if x.op == 'concat' and x.args[0].op == 'none':
            out.extend(x.args[1:])
        else:
            out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('concat', NONE, *out)


def gen_h(n, h, e):
    """Array of length n with element e at bound index h."""
    b = mk('bi', h)
    if e is b:
        return mk('gen', n, h, e)
    if not mentions(e, b):
        return full(n, e) if not is_arr(e) else mk('gen', n, h, e)
    # pointwise over arrays: undo the indexing
    m, ok = {}, True
    for s in subterms(e):
        if s.op == 'getitem' and s.args[1] is b and not mentions(s.args[0], b) and rank(s.args[0]) == 1:
            m[s] = s.args[0]
    if m:
        # every use of b must be inside such a getitem, under elementwise ops
        def conv(t):
            if t in m:
                return m[t] if equal(length(m[t]), n) else None
            if not mentions(t, b):
                return t if not is_arr(t) else None
            if t.op in EW:
                args = []
                for a in t.args:
                    if isinstance(a, T):
                        a = conv(a)
                        if a is None:
                            return None
                    args.append(a)
                return ew(t.op, args)
            return None
        r = conv(e)
        if r is not None:
            return r
    h2, e2 = bind(b, e)
    return mk('gen', n, h2, e2)


def gen(n, i, e):
    h, e = bind(i, e)
    return gen_h(n, h, e)


def concatL(n, h, v, k):
    if not is_arr(v):
        return repeat(gen_h(n, h, v), k)
    if v.op == 'full':
        return repeat(gen_h(n, h, v.args[1]), k)
    b = mk('bi', h)
    h2, v2 = bind(b, v)
    return mk('concatL', n, h2, v2, k)


def diffcmp(i, j):
    """True if i == j, False if certainly different, else None."""
    if i is j:
        return True
    d = canon(sub(i, j))
    if d.op == 'num':
        return d.args[0] == 0
    return None


LO = {}     # atom -> known lower bound (Fraction)
HI = {}


def bounds(t):
    """Lower/upper bound of a scalar term from the known atom bounds."""
    p = poly(t)
    lo = hi = Fraction(0)
    for m, c in p.items():
        l, h = Fraction(1), Fraction(1)
        for a, e in m:
            al, ah = atom_bounds(a)
            if e.denominator != 1:
                al, ah = (Fraction(0), None) if al is not None and al >= 0 else (None, None)
            else:
                k = int(e)
                if k < 0:
                    if al is not None and al > 0:
                        al, ah = (Fraction(1) / ah if ah else Fraction(0)), Fraction(1) / al
                    else:
                        al, ah = None, None
                    k = -k
                if k > 1:
                    if al is not None and al >= 0:
                        al, ah = al ** k, (ah ** k if ah is not None else None)
                    else:
                        al, ah = (Fraction(0), None) if k % 2 == 0 else (None, None)
            l, h = _imul((l, h), (al, ah))
        l, h = _imul((l, h), (c, c))
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi


def _imul(x, y):
    vals, inf = [], False
    cands = []
    for a in x:
        for b in y:
            cands.append((a, b))
    lo = hi = None
    (a, b), (c, d) = x, y
    if None not in (a, b, c, d):
        v = [a * c, a * d, b * c, b * d]
        return min(v), max(v)
    # one-sided
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (b * d if b is not None and d is not None else None)
    if a is not None and a >= 0 and d is not None and d <= 0:
        r = _imul(x, (-d, -c if c is not None else None))
        return (-r[1] if r[1] is not None else None), (-r[0] if r[0] is not None else None)
    if b is not None and b <= 0:
        r = _imul((-b, -a if a is not None else None), y)
        return (-r[1] if r[1] is not None else None), (-r[0] if r[0] is not None else None)
    return None, None


def atom_bounds(a):
    lo, hi = LO.get(a), HI.get(a)
    op = a.op
    if op in ('len', 'i', 'bi', 'ncols'):
        lo = lo if lo is not None else Fraction(0)
    elif op in BOOL_OPS:
        return Fraction(0), Fraction(1)
    elif op == 'ite':
        l1, h1 = bounds(a.args[1])
        l2, h2 = bounds(a.args[2])
        lo = None if None in (l1, l2) else min(l1, l2)
        hi = None if None in (h1, h2) else max(h1, h2)
    elif op in ('min', 'max'):
        bs = [bounds(x) for x in a.args]
        ls, hs = [b[0] for b in bs], [b[1] for b in bs]
        if op == 'min':
            hs = [x for x in hs if x is not None]
            hi = min(hs) if hs else None
            lo = None if None in ls else min(ls)
        else:
            ls = [x for x in ls if x is not None]
            lo = max(ls) if ls else None
            hi = None if None in hs else max(hs)
    elif op == 'f' and a.args[0] in ('floor', 'int', 'ceil'):
        l, h = bounds(a.args[1])
        import math
        lo = None if l is None else Fraction(math.floor(l))
        hi = None if h is None else Fraction(math.ceil(h))
    elif op == 'f' and a.args[0] in ('cos', 'sin'):
        return Fraction(-1), Fraction(1)
    elif op == 'f' and a.args[0] == 'exp':
        return Fraction(0), None
    elif op == 'f' and a.args[0] == 'abs':
        return Fraction(0), None
    elif op == 'add' or op == 'mul':
        return bounds(a)
    return lo, hi


def getitem(x, i):
    """x[i] for a scalar integer i."""
    if not is_arr(x):
        return x
    op = x.op
    if is_num(i) and i.args[0] < 0:
        i = add(length(x), i)
    if op in EW:
        return rebuild(op, tuple(getitem(a, i) if isinstance(a, T) and is_arr(a) else a for a in x.args))
    if op == 'gen':
        return subst_bi(x.args[2], x.args[1], i)
    if op == 'full':
        if x.args[0].op == 'tuple' and len(x.args[0].args) > 1:
            r = x.args[0].args[1:]
            return full(r[0] if len(r) == 1 else mk('tuple', *r), x.args[1])
        return x.args[1]
    if op == 'zeros2':
        return full(x.args[1], ZERO)
    if op == 'repeat':
        return getitem(x.args[0], floordiv(i, x.args[1]))
    if op == 'drange':
        return add(x.args[0], mul(i, x.args[1]))
    if op == 'slice':
        return getitem(x.args[0], add(x.args[1], i))
    if op == 'take':
        return getitem(x.args[0], getitem(x.args[1], i))
    if op == 'store':
        base, j, v = x.args
        if j.op not in ('sl', 'tuple', 'mask'):
            c = diffcmp(i, j)
            if c is True:
                return v
            if c is False:
                return getitem(base, i)
            if not is_arr(j):
                return ite(cmp_('==', i, j), v, getitem(base, i))
    if op == 'scatter':
        base, n, h, idx, v, g = x.args
        b = mk('bi', h)
        if idx is b:
            inr = decide_bounds(sub(i, n))   # i < n ?
            m = lambda t: subst_bi(t, h, i)
            if inr is True:
                return ite(m(g), m(v), getitem(base, i))
            if inr is False:
                return getitem(base, i)
    if op == 'concat' and x.args[0].op == 'none':
        pos = ZERO
        for y in x.args[1:]:
            e = add(pos, length(y))
            d = decide_bounds(sub(i, e))
            if d is True:
                return getitem(y, sub(i, pos))
            if d is None:
                break
            pos = e
    if op == 'colstack':
        return concat([full(ONE, getitem(c, i)) for c in x.args])
    if op == 'rows2' and is_num(i):
        return x.args[int(i.args[0])]
    if op in ('arr', 'table') and is_num(i) and 0 <= i.args[0] < len(x.args):
        return x.args[int(i.args[0])]
    if op == 'colvec':
        return full(ONE, getitem(x.args[0], i))
    if op == 'reshape2':
        return slice_(x.args[0], mul(i, x.args[1]), mul(add(i, ONE), x.args[1]))
    if op == 'column':
        return getitem(getitem(x.args[0], i), x.args[1])
    if op == 'interleave':
        k = len(x.args)
        q = canon(div(i, num(k)))
        for r in range(k):
            q = canon(div(sub(i, num(r)), num(k)))
            if is_int(q):
                return getitem(x.args[r], q)
    if op in ('tsel', 'var') and is_time(x):
        if i is not ZERO:
            return add(getitem(x, ZERO), mul(i, num(1440), MIN))
    if op in ('doy', 'month'):
        return mk(op, getitem(x.args[0], i))
    if op == 'stores':
        pass
    return mk('getitem', x, i)


def is_time(t):
    """The daily time axis of the forcing or state."""
    return t.op == 'tsel' and t.args[0] is t.args[1] or t in TIME_AXES


TIME_AXES = set()


def decide_bounds(d):
    """d < 0?  (integers)"""
    lo, hi = bounds(d)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    # i - n with i an index below n
    for a in poly(d):
        pass
    p = poly(d)
    for m, c in p.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            u = UPPER.get(m[0][0])
            if u is not None and (d is not None):
                r = sub(d, sub(m[0][0], sub(u, ONE)))    # replace i by its maximum
                if r is not d:
                    lo2, hi2 = bounds(r)
                    if hi2 is not None and hi2 < 0:
                        return True
    return None


UPPER = {}     # index token -> length it stays below


def subst_bi(e, h, v):
    return subst(e, {mk('bi', h): v})


def take(x, idx):
    """x[idx] with an integer index array."""
    if not is_arr(x):
        return x
    if not is_arr(idx):
        return getitem(x, idx)
    if x.op in EW:
        return push(x, lambda a: take(a, idx))
    if idx.op == 'nz' and rank(x) == 1:
        return select(x, idx.args[0])
    if idx.op == 'full':
        return full(idx.args[0], getitem(x, idx.args[1]))
    return mk('take', x, idx)


def select(x, mask):
    if not is_arr(x):
        return x
    if x.op == 'full':
        return full(mk('count', mask), x.args[1])
    if x.op in EW:
        return push(x, lambda a: select(a, mask))
    return mk('select', x, mask)


def unselect(v, mask):
    """The full-length value whose selection by mask is v, or None."""
    if not is_arr(v):
        return v
    if v.op == 'select' and v.args[1] is mask:
        return v.args[0]
    if v.op == 'full':
        return v.args[1]
    if v.op in EW:
        args = []
        for a in v.args:
            if isinstance(a, T) and is_arr(a):
                a = unselect(a, mask)
                if a is None:
                    return None
            args.append(a)
        return rebuild(v.op, tuple(args))
    return None


def store_mask(x, mask, v):
    u = unselect(v, mask)
    if u is None:
        return mk('stores', x, mask, v)
    return ite(mask, u, x)


def store(x, i, v):
    """x with element (or row) i replaced."""
    if is_arr(i) and kind(i) == 'bool':
        return store_mask(x, i, v)
    if i.op == 'nz' and rank(x) == 1 and rank(i.args[0]) == 1:
        return store_mask(x, i.args[0], v)
    if is_arr(i):
        # fancy index: one store per element
        n = length(i)
        k = mk('i', fresh())
        UPPER[k] = n
        return scatter(x, n, k, getitem(i, k), getitem(v, k), TRUE)
    if is_num(i) and i.args[0] < 0:
        i = add(length(x), i)
    if x.op == 'store' and diffcmp(x.args[1], i) is True:
        return store(x.args[0], i, v)
    return mk('store', x, i, v)


def store_slice(x, a, b, v):
    n = length(x)
    if a is ZERO and equal(b, n):
        if not is_arr(v):
            return full(n, v)
        return v
    return mk('store', x, mk('sl', a, b), v)


_FRESH = [0]


def fresh():
    _FRESH[0] += 1
    return _FRESH[0]


def scatter(init, n, i, idx, v, g):
    """init after, for each index i below n with guard g, init[idx] = v."""
    if g is FALSE:
        return init
    if idx.op == 'sl':
        a, b = idx.args
        k = canon(sub(b, a))
        if g is TRUE and not mentions(k, i) and equal(a, mul(i, k)) and equal(length(init), mul(n, k)):
            h, v2 = bind(i, v)
            return concatL(n, h, v2, k)
        h, a2, b2, v2, g2 = bind(i, a, b, v, g)
        return mk('scatter', init, n, h, mk('sl', a2, b2), v2, g2)
    if g is TRUE and idx is i and equal(n, length(init)):
        return gen(n, i, v)
    if idx is i and equal(n, length(init)):
        return gen(n, i, ite(g, v, getitem(init, i)))
    if g is TRUE and equal(canon(sub(idx, i)), ZERO) and equal(n, length(init)):
        return gen(n, i, v)
    h, idx2, v2, g2 = bind(i, idx, v, g)
    return mk('scatter', init, n, h, idx2, v2, g2)


def ffill(x, how):
    if not maynan(x):
        return x
    return mk(how, x)


_NAN = {}


def maynan(t):
    """Can this value be missing, the inputs being complete?"""
    r = _NAN.get(t)
    if r is None:
        _NAN[t] = True
        r = _NAN[t] = _maynan(t)
    return r


def _maynan(t):
    op = t.op
    if op == 'nan':
        return True
    if op == 'interp':
        return t.args[0] != 'pchip' and t.args[4] is not TRUE
    if op == 'bfill' and t.args[0].op == 'ffill':
        return False
    if op == 'rolling':
        return True
    if op in ('sym', 'num', 'var', 'tsel', 'isel', 'csel'):
        return False
    if op == 'ite':
        return maynan(t.args[1]) or maynan(t.args[2])
    if op == 'rec':
        return any(isinstance(a, T) and maynan(a) for a in t.args)
    return any(isinstance(a, T) and maynan(a) for a in t.args)


def patched(t):
    """Is this a labelled array that is written piece by piece, under conditions?"""
    r = _PATCHED.get(t)
    if r is None:
        if t.op == 'ite':
            r = patched(t.args[1]) or patched(t.args[2])
        else:
            r = t.op == 'store' and t.args[1].op == 'labels'
        _PATCHED[t] = r
    return r


_PATCHED = {}


def defined(t):
    """A name for a large labelled value, so that what is computed from it stays small."""
    d = dims_of(t)
    return mk('var', mk('defined', t), const('|'.join(d))) if len(d) > 1 else t


def isel(t, dim, s):
    """Positional selection along a named dimension; s is an index, 'sl' or 'bsel'."""
    if not is_arr(t):
        return t
    op = t.op
    if dim != 'time' and (is_time(t) or op in ('doy', 'month', 'rounded', 'floored') and is_time(t.args[0])):
        return t
    if op == 'var':
        if dim not in dims_of(t):
            return t
        if dim == 'time' and s.op not in ('sl', 'bsel'):
            return getitem(t, s) if len(dims_of(t)) == 1 else mk('isel', t, dim, s)
        return mk('isel', t, dim, s)
    if op == 'isel':
        base, d2, s2 = t.args
        if d2 == dim:
            if s2.op == 'sl' and s.op == 'sl':
                a2, b2 = s2.args
                a, b = s.args
                if a is NONE and b is NONE:
                    return t
            elif s2.op == 'sl':
                a2 = s2.args[0]
                return isel(base, dim, s if a2 is NONE or a2 is ZERO else add(a2, s))
            else:
                return t
        if dim < d2:
            return mk('isel', isel(base, dim, s), d2, s2)
        return mk('isel', t, dim, s) if dim in dims_of(t) else t
    if op == 'ite' and patched(t) and defined(t) is not t:
        return isel(defined(t), dim, s)
    if op in EW:
        return push(t, lambda a: isel(a, dim, s))
    if op in ('rolling', 'concat', 'ffill', 'bfill', 'tslice'):
        if dim != 'time':
            return mk(op, *[isel(a, dim, s) if isinstance(a, T) and is_arr(a) else a for a in t.args])
    if op == 'reddim':
        return reddim(t.args[0], isel(t.args[1], dim, s), t.args[2]) if dim in dims_of(t) else t
    if op == 'tsel':
        if dim != 'time':
            return mk('tsel', isel(t.args[0], dim, s), *t.args[1:])
    if op == 'csel':
        base, d2, c = t.args
        if d2 == dim:
            return mk('csel', base, d2, isel(c, dim, s))
        return mk('csel', isel(base, dim, s), d2, c)
    if op == 'full':
        return t.args[1] if True else t
    if s.op == 'sl' and s.args[0] is NONE and s.args[1] is NONE:
        return t
    return mk('isel', t, dim, s)


def is_coord(t, dim):
    """Is this file variable the coordinate of its own dimension?"""
    return dims_of(t) == (dim,) and t in COORDS


COORDS = set()


def csel(t, dim, coord):
    """Selection by coordinate value(s)."""
    if not is_arr(t):
        return t
    if t.op in EW:
        return push(t, lambda a: csel(a, dim, coord))
    if dim not in dims_of(t):
        return t
    if t.op == 'var' and is_coord(t, dim):
        return coord
    if t.op == 'reddim':
        return reddim(t.args[0], csel(t.args[1], dim, coord), t.args[2])
    if t.op == 'csel' and t.args[1] > dim:
        return mk('csel', csel(t.args[0], dim, coord), t.args[1], t.args[2])
    if t.op == 'tsel' and dim != 'time':
        return mk('tsel', csel(t.args[0], dim, coord), *t.args[1:])
    return mk('csel', t, dim, coord)


def tsel(t, coord, a, b):
    """Selection of a period by label along time."""
    if not is_arr(t):
        return t
    if a is NONE and b is NONE:
        return t
    if t.op in EW:
        return push(t, lambda x: tsel(x, coord, a, b))
    if t.op == 'reddim' and 'time' not in t.args[2]:
        return reddim(t.args[0], tsel(t.args[1], coord, a, b), t.args[2])
    if t is coord or 'time' in dims_of(t):
        if coord.op == 'sym' and a is getitem(coord, ZERO) and b is getitem(coord, sub(length(coord), ONE)):
            return t            # from the first label to the last
        return mk('tsel', t, coord, a, b)
    return t


# --------------------------------------------------------------- hooks
def _h_sumL(n, h, e):
    return frompoly(tm._psum(mk('sumL', n, h, e)))


tm.LENGTH = length
tm.IS_ARR = is_arr
tm.HOOKS.update({
    'repeat': repeat, 'roll': roll, 'flat': flat, 'blocksum': blocksum, 'slice': slice_, 'getitem': getitem,
    'gen': gen_h, 'take': take, 'select': select, 'concatL': concatL, 'isel': isel, 'csel': csel, 'tsel': tsel,
    'sum': total, 'store': store, 'mod': mod,
    'ffill': lambda x: ffill(x, 'ffill'), 'bfill': lambda x: ffill(x, 'bfill'),
    'sumL': lambda n, h, e: _h_sumL(n, h, e),
})


def dimlen(t, d):
    """Length of a named dimension of a labelled value."""
    while t is not None and isinstance(d, str):
        if t.op == 'isel' and t.args[1] == d and t.args[2].op == 'sl':
            return mk('sllen', t.args[2], dimlen(t.args[0], d))
        if t.op == 'csel' and t.args[1] == d and is_arr(t.args[2]):
            return dimlen(t.args[2], d)
        if t.op == 'var' and t.args[0].op == 'defined':
            t = t.args[0].args[0]
        elif t.op == 'var' and t.args[0].op == 'filled':
            return next((p.args[1] for p in t.args[0].args[2:] if p.args[0] is const(d)), dimlen(None, d))
        elif t.op == 'reddim':
            t = t.args[1]
        else:
            t = next((a for a in t.args if isinstance(a, T) and d in dims_of(a)), None)
    return mk('dimlen', const(d) if not isinstance(d, T) else d)
