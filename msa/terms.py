"""Hash-consed value-graph nodes and their algebraic normal form."""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)
_TAB = {}


class T(object):
    __slots__ = ('op', 'args', 'uid', '_canon', '_kind', '_leaves', '_poly', 'at')

    def __repr__(self):
        return show(self)


CUR = [None]          # statement being interpreted: provenance of new nodes


def mk(op, *args):
    key = (op,) + args
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.uid = op, args, len(_TAB)
        t._canon = t._kind = t._leaves = t._poly = None
        t.at = CUR[0]
        _TAB[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return mk('inf', 1 if v > 0 else -1)
        v = Fraction(repr(v))
    return mk('num', Fraction(v))


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return mk('str', v)
    if isinstance(v, bytes):
        return mk('bytes', v.hex())
    if v is Ellipsis:
        return mk('ellipsis')
    if isinstance(v, complex):
        return mk('complex', repr(v))
    raise TypeError(v)


NAN = mk('nan')
NONE = mk('none')
TRUE = mk('true')
FALSE = mk('false')
ZERO = num(0)
ONE = num(1)
MIN = mk('sym', 'minute', 'td')     # one minute, as a time difference


def is_num(t):
    return isinstance(t, T) and t.op == 'num'


def is_str(t):
    return isinstance(t, T) and t.op == 'str'


def is_const(t):
    return isinstance(t, T) and t.op in ('num', 'str', 'none', 'true', 'false', 'nan', 'inf', 'bytes')


def pyval(t):
    if t.op == 'num':
        v = t.args[0]
        return int(v) if v.denominator == 1 else float(v)
    if t.op == 'str':
        return t.args[0]
    return {'none': None, 'true': True, 'false': False, 'nan': float('nan')}.get(t.op)


def boolT(b):
    return TRUE if b else FALSE


def sym(name, kind='num'):
    return mk('sym', name, kind)


# ------------------------------------------------------------- constructors
def add(*xs):
    out, c = [], Fraction(0)
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x.op == 'add':
            stack = list(x.args) + stack
        elif x.op == 'num':
            c += x.args[0]
        elif x.op == 'true':
            c += 1
        elif x.op == 'false':
            pass
        else:
            out.append(x)
    if not out:
        return num(c)
    if c:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    # merge exact cancellations  x + -1*x
    return _combine_add(out)


def _coef(x):
    if x.op == 'num':
        return x.args[0], None
    if x.op == 'mul' and x.args[0].op == 'num':
        rest = x.args[1:]
        return x.args[0].args[0], (rest[0] if len(rest) == 1 else mk('mul', *rest))
    return Fraction(1), x


def _combine_add(xs):
    coefs, order = {}, []
    c0 = Fraction(0)
    for x in xs:
        c, r = _coef(x)
        if r is None:
            c0 += c
            continue
        if r not in coefs:
            coefs[r] = Fraction(0)
            order.append(r)
        coefs[r] += c
    out = []
    for r in order:
        c = coefs[r]
        if c == 0:
            continue
        out.append(r if c == 1 else mul(num(c), r))
    if c0 or not out:
        out.append(num(c0))
    if len(out) == 1:
        return out[0]
    return mk('add', *sorted(out, key=lambda t: t.uid))


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def mul(*xs):
    out, c = [], Fraction(1)
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x.op == 'mul':
            stack = list(x.args) + stack
        elif x.op == 'num':
            c *= x.args[0]
        elif x.op == 'true':
            pass
        elif x.op == 'false':
            c = Fraction(0)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if not out:
        return num(c)
    if len(out) == 1 and c == 1:
        return out[0]
    # merge powers
    exps, order = {}, []
    for x in out:
        b, e = (x.args[0], x.args[1]) if x.op == 'pow' else (x, ONE)
        if b in exps:
            exps[b] = add(exps[b], e)
        else:
            exps[b] = e
            order.append(b)
    out = []
    for b in order:
        p = power(b, exps[b])
        if p.op == 'num':
            c *= p.args[0]
        else:
            out.append(p)
    if c == 0:
        return ZERO
    out.sort(key=lambda t: t.uid)
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def power(b, e):
    if e.op == 'num':
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return b
        if b.op == 'num' and ev.denominator == 1 and abs(ev) < 64:
            if b.args[0] == 0:
                return ZERO if ev > 0 else mk('pow', b, e)
            return num(b.args[0] ** int(ev))
        if b.op == 'pow' and b.args[1].op == 'num' and (
                ev.denominator == 1 or True):
            return power(b.args[0], mul(b.args[1], e))
        if b.op == 'mul' and ev.denominator == 1:
            return mul(*[power(x, e) for x in b.args])
    return mk('pow', b, e)


def div(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] / b.args[0])
    return mul(a, power(b, num(-1)))


def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return mk('mod', a, b)


def floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if is_int(a) and is_int(b):
        q = canon(div(a, b))
        if is_int(q):
            return q
    return mk('floor', div(a, b))


def fn(name, x):
    """Elementwise function of one argument."""
    if name == 'sqrt':
        return power(x, num(Fraction(1, 2)))
    if name == 'square':
        return power(x, num(2))
    if name == 'reciprocal':
        return power(x, num(-1))
    if name in ('int', 'floor', 'ceil', 'trunc', 'rint'):
        if name == 'trunc':
            name = 'int'
        if x.op == 'num':
            v = x.args[0]
            import math
            return num({'int': int, 'floor': math.floor, 'ceil': math.ceil, 'rint': round}[name](v))
        if is_int(x):
            return x
    if name == 'abs' and x.op == 'num':
        return num(abs(x.args[0]))
    if name == 'exp' and x is ZERO:
        return ONE
    return mk('f', name, x)


def is_int(t):
    k = t.op
    if k == 'num':
        return t.args[0].denominator == 1
    if k == 'sym':
        return t.args[1] == 'int'
    if k in ('len', 'i', 'bi', 'pi', 'nd', 'dimlen', 'sllen', 'size', 'count', 'true', 'false', 'day_of_year', 'month_of_year'):
        return True
    if k == 'f':
        return t.args[0] in ('int', 'floor', 'ceil', 'rint')
    if k in ('add', 'mul', 'min', 'max'):
        return all(is_int(a) for a in t.args)
    if k == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if k == 'pow':
        return is_int(t.args[0]) and is_num(t.args[1]) and is_int(t.args[1]) and t.args[1].args[0] >= 0
    if k in ('mod',):
        return all(is_int(a) for a in t.args)
    if k == 'numof':
        return t.args[0].op == 'sym' and 'int' in t.args[0].args[1]
    if k == 'getitem':
        return t.args[0].op == 'nz'
    return False


DIVIDES = {}        # atom -> integer it divides
_IS_INT0 = is_int


def is_int(t):
    if _IS_INT0(t):
        return True
    if t.op in ('mul', 'pow') and DIVIDES:
        # c * d^-1 * ints with d | c
        c, rest, dens = Fraction(1), [], []
        for a in (t.args if t.op == 'mul' else (t,)):
            if a.op == 'num':
                c *= a.args[0]
            elif a.op == 'pow' and a.args[0] in DIVIDES and a.args[1] is num(-1):
                dens.append(a.args[0])
            else:
                rest.append(a)
        if len(dens) == 1 and c.denominator == 1 and c.numerator % DIVIDES[dens[0]] == 0:
            return all(is_int(x) for x in rest)
    if t.op == 'add':
        return all(is_int(a) for a in t.args)
    if t.op == 'mul' and not any(a.op == 'pow' for a in t.args):
        return all(is_int(a) for a in t.args)
    return False


# -------------------------------------------------------------- conditions
NUMERIC_OPS = {'num', 'add', 'mul', 'pow', 'f', 'len', 'i', 'min', 'max', 'numof', 'sumL', 'nan', 'inf',
               'sum', 'mod', 'abs'}


def nonnumeric(t):
    return t.op in ('str', 'none', 'true', 'false', 'tuple', 'list', 'dict', 'fmt', 'func', 'ext', 'inst') or (
        t.op == 'sym' and t.args[1] in ('text', 'obj', 'path'))


def cmp_(op, a, b):
    if op in ('>', '>='):
        return cmp_({'>': '<', '>=': '<='}[op], b, a)
    if op in ('is', 'is not'):
        r = eq_ident(a, b)
        return r if op == 'is' else not_(r)
    if op == '!=':
        return not_(cmp_('==', a, b))
    if op == '==':
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            if a.op in ('true', 'false') and b.op == 'num' or b.op in ('true', 'false') and a.op == 'num':
                return boolT(bool_num(a) == bool_num(b))
            return FALSE
        if nonnumeric(a) or nonnumeric(b):
            if is_const(a) and b.op in ('list', 'tuple', 'dict', 'func', 'ext', 'inst', 'obj'):
                return FALSE
            if is_const(b) and a.op in ('list', 'tuple', 'dict', 'func', 'ext', 'inst', 'obj'):
                return FALSE
            if a.op == 'num' and b.op == 'sym' and b.args[1] in ('text', 'path'):
                return FALSE
            if b.op == 'num' and a.op == 'sym' and a.args[1] in ('text', 'path'):
                return FALSE
            x, y = sorted((a, b), key=lambda t: t.uid)
            return mk('eq', x, y)
        d = canon(sub(a, b))
        if d.op == 'num':
            return boolT(d.args[0] == 0)
        return mk('eq0', _scale(d, True))
    d = sub(a, b)
    d = canon(d)
    if d.op == 'num':
        v = d.args[0]
        return boolT(v < 0 if op == '<' else v <= 0)
    return mk('lt0' if op == '<' else 'le0', _scale(d, False))


def bool_num(t):
    return {'true': Fraction(1), 'false': Fraction(0)}.get(t.op, t.args[0] if t.args else None)


def _scale(d, sign):
    """Divide by the absolute (or signed) leading coefficient."""
    p = poly(d)
    lead = p[max(p, key=_mono_key)]
    c = lead if sign else abs(lead)
    if c == 1:
        return d
    return canon(mul(num(1 / c), d))


def eq_ident(a, b):
    if a is b:
        return TRUE
    nn = ('num', 'str', 'true', 'false', 'list', 'dict', 'tuple', 'func', 'ext', 'inst', 'fmt', 'obj', 'add', 'mul',
          'date', 'timestamp', 'todatetime', 'joinpath', 'abspath')
    for x, y in ((a, b), (b, a)):
        if x is NONE and (y.op in nn or y.op == 'sym' and y.args[1] != 'any' or
                          y.op == 'getitem' and IS_ARR is not None and IS_ARR(y.args[0])):
            return FALSE
    if is_const(a) and is_const(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            l, r = eq_ident(x.args[1], y), eq_ident(x.args[2], y)
            if is_const(l) and is_const(r):
                if l is r:
                    return l
                return x.args[0] if l is TRUE else not_(x.args[0])
    x, y = sorted((a, b), key=lambda t: t.uid)
    return mk('is', x, y)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op in ('lt0', 'le0') and is_int(c.args[0]):
        return mk('le0' if c.op == 'lt0' else 'lt0', canon(neg(c.args[0])))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    return mk('not', c)


def and_(*cs):
    out = []
    stack = list(cs)
    while stack:
        c = stack.pop(0)
        if c.op == 'and':
            stack = list(c.args) + stack
        elif c is FALSE:
            return FALSE
        elif c is not TRUE and c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.uid))


def or_(*cs):
    out = []
    stack = list(cs)
    while stack:
        c = stack.pop(0)
        if c.op == 'or':
            stack = list(c.args) + stack
        elif c is TRUE:
            return TRUE
        elif c is not FALSE and c not in out:
            out.append(c)
    for c in out:
        if not_(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda t: t.uid))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'and' and b.op == 'ite' and b.args[2] is a:
        pass
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE and kind(b) == 'bool':
        return or_(c, b)
    if b is FALSE and kind(a) == 'bool':
        return and_(c, a)
    if a is FALSE and kind(b) == 'bool':
        return and_(not_(c), b)
    if b is TRUE and kind(a) == 'bool':
        return or_(not_(c), a)
    if c.op in ('lt0', 'le0') and not nonnumeric(a) and not nonnumeric(b) \
            and NAN not in (a, b):
        # a if a < b else b  -> min ;  a if b < a else b -> max
        d = canon(sub(a, b))
        if d is c.args[0] or _scale_safe(d) is c.args[0]:
            return min_(a, b)
        d = canon(neg(d))
        if d is c.args[0] or _scale_safe(d) is c.args[0]:
            return max_(a, b)
    return mk('ite', c, a, b)


def _scale_safe(d):
    if d.op == 'num':
        return d
    return _scale(d, False)


def min_(*xs):
    return _mm('min', xs)


def max_(*xs):
    return _mm('max', xs)


def _mm(op, xs):
    out = []
    cst = None
    f = min if op == 'min' else max
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y.op == 'num':
                cst = y.args[0] if cst is None else f(cst, y.args[0])
            elif y not in out:
                out.append(y)
    if cst is not None:
        out.append(num(cst))
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda t: t.uid))


# -------------------------------------------------------------------- kinds
BOOL_OPS = {'true', 'false', 'eq', 'eq0', 'lt0', 'le0', 'not', 'and', 'or', 'is', 'contains', 'has', 'truth',
            'any', 'all', 'exc', 'isinstance', 'isfile'}


def kind(t):
    k = t._kind
    if k is None:
        k = t._kind = _kind(t)
    return k


def _kind(t):
    op = t.op
    if op in BOOL_OPS:
        return 'bool'
    if op == 'sym':
        return t.args[1]
    if IS_ARR(t):
        if op == 'ite' and kind(t.args[1]) == 'bool' == kind(t.args[2]):
            return 'bool'
        return 'arr'
    if op in ('num', 'len', 'i', 'numof', 'sum', 'sumL', 'nan', 'inf'):
        return 'num'
    if op in ('str', 'fmt'):
        return 'text'
    if op == 'none':
        return 'none'
    if op in ('tuple', 'list', 'dict'):
        return op
    if op in ('arr', 'col', 'repeat', 'roll', 'blocksum', 'zeros', 'full', 'scatter', 'store', 'ffill', 'bfill',
              'var', 'isel', 'sel', 'concat', 'rolling', 'arange', 'linspace', 'date_range', 'day_of_year',
              'reshape', 'diff', 'interleave', 'flat', 'append', 'insert', 'interp', 'cols', 'trim'):
        return 'arr'
    if op in ('add', 'mul', 'pow', 'f', 'min', 'max', 'mod'):
        ks = [kind(a) for a in t.args if isinstance(a, T)]
        for k in ('arr', 'date', 'td'):
            if k in ks:
                return k
        if any(k in ('?', 'any', 'obj') for k in ks):
            return '?'
        return 'num'
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        if kind(t.args[0]) == 'arr':
            return 'arr'
        if a == b:
            return a
        if 'arr' in (a, b):
            return 'arr'
        return '?'
    if op == 'getitem':
        b = t.args[0]
        if kind(b) == 'arr' and t.args[1].op in ('num', 'i', 'add', 'mul'):
            return 'num'
        return '?'
    return '?'


# ------------------------------------------------------- polynomials, canon
def _mono_key(m):
    return (sum(e for _, e in m), tuple((a.uid, e) for a, e in m))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda p: p[0].uid))


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        n = r.get(m, 0) + c * v
        if n == 0:
            r.pop(m, None)
        else:
            r[m] = n
    return r


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 20000:
        raise OverflowError('polynomial too large')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
    return r


def poly(t):
    """Polynomial (possibly with negative/fractional exponents) over canonical atoms."""
    if t._poly is not None:
        return t._poly
    op = t.op
    if op == 'num':
        r = {(): t.args[0]} if t.args[0] else {}
    elif op == 'add':
        r = {}
        for a in t.args:
            r = padd(r, poly(a))
    elif op == 'mul':
        r = {(): Fraction(1)}
        for a in t.args:
            r = pmul(r, poly(a))
    elif op == 'pow' and t.args[1].op == 'num':
        r = _ppow(t.args[0], t.args[1].args[0])
    elif op == 'true':
        r = {(): Fraction(1)}
    elif op == 'false':
        r = {}
    elif op in ('sumL', 'sum'):
        r = _psum(t)
    elif op == 'neg':
        r = poly(neg(t.args[0]))
    else:
        a = canon_atom(t)
        if a.op in ('num', 'add', 'mul', 'sumL', 'sum') and a is not t:
            r = poly(a)
        else:
            r = {((a, Fraction(1)),): Fraction(1)}
    t._poly = r
    return r


def _iroot(v, n):
    if v < 0:
        return None
    r = round(float(v) ** (1.0 / n))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** n == v:
            return c
    return None


def _ppow(b, e):
    p = poly(b)
    if not p:
        return {} if e > 0 else {((mk('pow', ZERO, num(e)), Fraction(1)),): Fraction(1)}
    if e.denominator == 1 and 0 < e <= 8:
        if not (len(p) > 6 and e > 4):
            r = {(): Fraction(1)}
            for _ in range(int(e)):
                r = pmul(r, p)
            return r
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            cc = c ** int(e)
        elif c == 1:
            cc = Fraction(1)
        else:
            cc = None
            if c > 0:
                n, d = _iroot(c.numerator, e.denominator), _iroot(c.denominator, e.denominator)
                if n is not None and d is not None:
                    cc = Fraction(n, d) ** e.numerator
        if cc is not None:
            return {tuple((a, x * e) for a, x in m): cc}
        if m:
            # c^e * m^e with c^e an irrational constant atom
            r = {tuple((a, x * e) for a, x in m): Fraction(1)}
            return pmul(r, {((mk('pow', num(c), num(e)), Fraction(1)),): Fraction(1)}) if c > 0 else \
                {((mk('pow', frompoly(p), num(e)), Fraction(1)),): Fraction(1)}
        return {((mk('pow', num(c), num(e)), Fraction(1)),): Fraction(1)}
    # several terms: factor out the leading coefficient
    lead = p[max(p, key=_mono_key)]
    c = Fraction(1)
    if e.denominator == 1:
        c = lead ** int(e)
        p = {m: v / lead for m, v in p.items()}
    base = frompoly(p)
    return {((base, Fraction(e)),): c}


BINDERS = {'genseg': 1, 'any': 1, 'first': 1, 'minL': 1, 'maxL': 1, 'sumL': 1, 'lookup': 1, 'gen': 1,
           'concatL': 1, 'scatter': 2, 'anyL': 1, 'allL': 1, 'prodL': 1, 'meanL': 1}


def bis(t):
    """(heights free in t, largest height bound in t)."""
    r = _BIS.get(t)
    if r is None:
        if t.op == 'bi':
            r = (frozenset([t.args[0]]), 0)
        else:
            free, m = frozenset(), 0
            pos = BINDERS.get(t.op)
            for k, a in enumerate(t.args):
                if isinstance(a, T):
                    f, x = bis(a)
                    if pos is not None and k > pos:
                        f = f - {t.args[pos]}
                    free, m = free | f, max(m, x)
            if pos is not None:
                m = max(m, t.args[pos])
            r = (free, m)
        _BIS[t] = r
    return r


_BIS = {}


def bind(i, *es):
    """Bind the loop index i in the terms es: (height, es')."""
    fs, h = set(), 0
    for e in es:
        f, m = bis(e)
        fs |= f
        h = max(h, m)
    if i.op == 'bi':
        fs.discard(i.args[0])
    h += 1
    while h in fs:
        h += 1
    b = mk('bi', h)
    return (h,) + tuple(subst(e, {i: b}) for e in es)


def sum_over(n, i, e):
    h, e = bind(i, e)
    return mk('sumL', n, h, e)


def _psum(t):
    """Pull scalars (loop invariants) out of a sum."""
    if t.op == 'sumL':
        n, h, e = t.args
        b = mk('bi', h)
        inv = lambda a: not mentions(a, b)
    else:
        n, e = None, t.args[0]
        inv = lambda a: not IS_ARR(a)
    p = poly(e)
    r = {}
    for m, c in p.items():
        out = tuple((a, x) for a, x in m if inv(a))
        inn = tuple((a, x) for a, x in m if not inv(a))
        body = frompoly({inn: Fraction(1)})
        if n is not None:
            if not inn:
                q = pmul({out: c}, poly(n))
            else:
                atom = None
                if body.op == 'ite' and not mentions(body.args[0], b):
                    # hoist invariant conditions
                    cnd, x, y = body.args
                    atom = ite(cnd, frompoly(_psum(mk('sumL', n, h, x))), frompoly(_psum(mk('sumL', n, h, y))))
                    q = pmul({out: c}, poly(atom))
                else:
                    h2, body2 = bind(b, body)
                    atom = mk('sumL', n, h2, body2)
                    q = {_mono_mul(out, ((atom, Fraction(1)),)): c}
        else:
            if not inn:
                q = pmul({out: c}, poly(LENGTH(e)))
            else:
                q = {_mono_mul(out, ((mk('sum', body), Fraction(1)),)): c}
        r = padd(r, q)
    return r


LENGTH = lambda t: mk('len', t)     # replaced by ops.py
IS_ARR = lambda t: kind(t) == 'arr'


def frompoly(p):
    if not p:
        return ZERO
    ts = []
    for m in sorted(p, key=_mono_key):
        c = p[m]
        fs = [a if e == 1 else mk('pow', a, num(e)) for a, e in m]
        if c != 1 or not fs:
            fs.insert(0, num(c))
        ts.append(fs[0] if len(fs) == 1 else mk('mul', *fs))
    return ts[0] if len(ts) == 1 else mk('add', *ts)


def canon(t):
    if t._canon is not None:
        return t._canon
    op = t.op
    if op in ('num', 'str', 'none', 'true', 'false', 'nan', 'sym', 'inf'):
        r = t
    elif op in ('add', 'mul', 'pow', 'sumL', 'sum'):
        try:
            r = frompoly(poly(t))
        except OverflowError:
            r = t
    else:
        r = canon_atom(t)
        if r.op == 'not' and r.args[0].op in ('lt0', 'le0'):
            c = r.args[0]
            r = mk('le0' if c.op == 'lt0' else 'lt0', canon(neg(c.args[0])))
    t._canon = r
    r._canon = r
    return r


def canon_atom(t):
    op = t.op
    if op in ('num', 'str', 'none', 'true', 'false', 'nan', 'sym', 'inf'):
        return t
    args = tuple(canon(a) if isinstance(a, T) else a for a in t.args)
    return rebuild(op, args)


def rebuild(op, args):
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pow':
        return power(*args)
    if op == 'f':
        return fn(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'min':
        return min_(*args)
    if op == 'max':
        return max_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(*args)
    if op in ('lt0', 'le0'):
        a = canon(args[0])
        if a.op == 'num':
            v = a.args[0]
            return boolT(v < 0 if op == 'lt0' else v <= 0)
        return mk(op, _scale(a, False))
    if op == 'eq0':
        a = canon(args[0])
        if a.op == 'num':
            return boolT(a.args[0] == 0)
        return mk(op, _scale(a, True))
    if op == 'eq' and (is_const(args[0]) and is_const(args[1]) or args[0] is args[1]):
        return boolT(args[0] is args[1])
    if op == 'mod':
        return mod(*args)
    h = HOOKS.get(op)
    if h is not None:
        return h(*args)
    return mk(op, *args)


HOOKS = {}      # op -> smart constructor, filled in by ops.py


# ------------------------------------------------------------ traversal
def subterms(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def mentions(t, x):
    for s in subterms(t):
        if s is x:
            return True
    return False


def leaves(t):
    if t._leaves is None:
        t._leaves = frozenset(s for s in subterms(t) if s.op in ('sym', 'file', 'mu'))
    return t._leaves


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    if not t.args or not any(isinstance(a, T) for a in t.args):
        memo[t] = t
        return t
    args = tuple(subst(a, mapping, memo) if isinstance(a, T) else a for a in t.args)
    if args == t.args:
        r = t
    else:
        sv, CUR[0] = CUR[0], t.at or CUR[0]
        r = rebuild(t.op, args)
        CUR[0] = sv
    memo[t] = r
    return r


# ------------------------------------------------------------- equality
class Reg(object):
    """Atoms up to (recursive) equality."""

    def __init__(self, depth=0):
        self.by_op = {}
        self.map = {}
        self.depth = depth

    def atom(self, t):
        r = self.map.get(t)
        if r is not None:
            return r
        cand = self.by_op.setdefault((t.op, len(t.args)), [])
        for c in cand:
            if _struct_eq(c, t, self.depth + 1):
                self.map[t] = c
                return c
        cand.append(t)
        self.map[t] = t
        return t


def _struct_eq(a, b, depth):
    if a is b:
        return True
    if a.op != b.op or len(a.args) != len(b.args) or depth > 60:
        return False
    if a.op in ('num', 'str', 'sym', 'nan'):
        return False
    args_a, args_b = a.args, b.args
    for x, y in zip(args_a, args_b):
        if isinstance(x, T) != isinstance(y, T):
            return False
        if isinstance(x, T):
            if not equal(x, y, depth):
                if a.op in ('min', 'max', 'and', 'or') and len(args_a) <= 4:
                    return _perm_eq(a, b, depth)
                return False
        elif x != y:
            return False
    return True


def _perm_eq(a, b, depth):
    rest = list(b.args)
    for x in a.args:
        for y in rest:
            if equal(x, y, depth):
                rest.remove(y)
                break
        else:
            return False
    return True


def _rat(t, reg):
    """(numerator, denominator) polynomials over registered atoms."""
    p = poly(t)
    one = {(): Fraction(1)}
    N, D = {}, dict(one)
    for m, c in p.items():
        n, d = {(): c}, dict(one)
        for a, e in m:
            if a.op in ('add',) and e.denominator == 1:
                an, ad = _rat(a, reg)
                k = abs(int(e))
                if e < 0:
                    an, ad = ad, an
                for _ in range(k):
                    n, d = pmul(n, an), pmul(d, ad)
            else:
                r = reg.atom(a)
                if r.op == 'add' or e > 0 or e.denominator != 1:
                    n = pmul(n, {((r, e),): Fraction(1)})
                else:
                    d = pmul(d, {((r, -e),): Fraction(1)})
        if d == D:
            N = padd(N, n)
        else:
            N = padd(pmul(N, d), pmul(n, D))
            D = pmul(D, d)
    return N, D


_EQ = {}


def equal(a, b, depth=0):
    """Equality of two value-graph nodes in the algebraic normal form."""
    if a is b:
        return True
    a, b = canon(a), canon(b)
    if a is b:
        return True
    key = (a, b) if a.uid < b.uid else (b, a)
    r = _EQ.get(key)
    if r is None:
        _EQ[key] = False          # cut cycles
        r = _EQ[key] = _equal(a, b, depth)
    return r


def _close(p, q):
    """p == q up to rounding of decimal constants."""
    for m in set(p) | set(q):
        x, y = p.get(m, Fraction(0)), q.get(m, Fraction(0))
        if x != y:
            s = max(abs(x), abs(y))
            if abs(x - y) > s * Fraction(1, 10 ** 12):
                return False
    return True


def _equal(a, b, depth):
    if depth > 60:
        return False
    c = split_cond(a) or split_cond(b)
    if c is not None:
        for v in (TRUE, FALSE):
            m = assume_map(c, v)
            if not equal(subst(a, m), subst(b, m), depth + 1):
                return False
        return True
    arith = ('add', 'mul', 'pow', 'num')
    if a.op in arith or b.op in arith:
        reg = Reg(depth)
        try:
            n1, d1 = _rat(a, reg)
            n2, d2 = _rat(b, reg)
            return _close(pmul(n1, d2), pmul(n2, d1))
        except OverflowError:
            return False
    return _struct_eq(a, b, depth)


def assume_map(c, v):
    m = {c: v}
    n = not_(c)
    if n.op not in ('true', 'false'):
        m[n] = not_(v)
    return m


def split_cond(t):
    """An ite condition occurring under scalar arithmetic only."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            return x.args[0]
        if x.op in ('add', 'mul', 'pow', 'f', 'min', 'max'):
            stack.extend(y for y in x.args if isinstance(y, T))
    return None


# --------------------------------------------------------------- printing
def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if op == 'num':
        v = a[0]
        return str(v.numerator) if v.denominator == 1 else ('%.10g' % float(v))
    if op == 'str':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op in ('none', 'true', 'false', 'nan'):
        return {'none': 'None', 'true': 'True', 'false': 'False', 'nan': 'nan'}[op]
    if depth <= 0:
        return '..'
    s = [show(x, depth - 1) if isinstance(x, T) else str(x) for x in a]
    if op == 'add':
        return '(' + ' + '.join(s) + ')'
    if op == 'mul':
        return '*'.join(s)
    if op == 'pow':
        return '%s**%s' % (s[0], s[1])
    if op == 'f':
        return '%s(%s)' % (a[0], s[1])
    if op == 'lt0':
        return '(%s < 0)' % s[0]
    if op == 'le0':
        return '(%s <= 0)' % s[0]
    if op == 'eq0':
        return '(%s == 0)' % s[0]
    return '%s(%s)' % (op, ', '.join(s))
