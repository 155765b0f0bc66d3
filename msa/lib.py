"""Transfer functions of the Python language and its standard library."""
import math as _math
import json as _json

from .terms import *
from . import terms as tm
from . import ops
import builtins
from .ops import is_arr, length
from .values import *

BUILTIN_EXC = {'Exception', 'BaseException', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'RuntimeError',
               'OSError', 'IOError', 'FileNotFoundError', 'FileExistsError', 'AttributeError', 'AssertionError',
               'NotImplementedError', 'ZeroDivisionError', 'ImportError', 'ModuleNotFoundError', 'StopIteration',
               'UnicodeDecodeError', 'OverflowError', 'ArithmeticError', 'LookupError', 'PermissionError',
               'NameError', 'SystemExit', 'KeyboardInterrupt', 'Warning', 'UserWarning', 'DeprecationWarning',
               'FutureWarning', 'RuntimeWarning', 'EOFError', 'MemoryError', 'NotADirectoryError', 'IsADirectoryError'}
BUILTINS = {'len', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'range', 'enumerate', 'zip', 'map',
            'filter', 'sorted', 'reversed', 'min', 'max', 'sum', 'abs', 'round', 'isinstance', 'getattr', 'setattr',
            'hasattr', 'print', 'slice', 'object', 'type', 'any', 'all', 'open', 'iter', 'next', 'callable', 'repr',
            'property', 'staticmethod', 'classmethod', 'super', 'bytes', 'frozenset', 'divmod', 'pow', 'id', 'vars',
            'format', 'hash', 'ord', 'chr', 'issubclass', 'bytearray', 'memoryview', 'globals', 'locals', 'exit',
            'complex', 'input', 'dir', 'delattr', 'quit', '__import__'}
for _n in dir(builtins):
    _c = getattr(builtins, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        BUILTIN_EXC.add(_n)
TEXT = ('text', 'inttext', 'numtext', 'path', 'optext', 'datetext', 'booltext')


def builtin(I, name):
    if name in BUILTIN_EXC or name in BUILTINS:
        return Ext('builtins.' + name)
    if name == 'NotImplemented':
        return sym('NotImplemented', 'obj')
    if name == 'Ellipsis':
        return mk('ellipsis')
    return None


CONSTS = {'numpy.pi': num(_math.pi), 'numpy.nan': NAN, 'numpy.NaN': NAN, 'numpy.NAN': NAN, 'numpy.inf': mk('inf', 1),
          'numpy.e': num(_math.e), 'math.pi': num(_math.pi), 'math.e': num(_math.e), 'math.nan': NAN,
          'math.inf': mk('inf', 1), 'math.tau': num(2 * _math.pi), 'logging.DEBUG': num(10), 'logging.INFO': num(20),
          'logging.WARNING': num(30), 'logging.ERROR': num(40), 'logging.CRITICAL': num(50), 'logging.WARN': num(30),
          'logging.NOTSET': num(0), 'os.sep': const('/'), 'os.linesep': const('\n'), 'numpy.newaxis': NONE,
          'pandas.NaT': NAN, 'pandas.NA': NAN, 'os.curdir': const('.'), 'numpy.Inf': mk('inf', 1)}


def ext_attr(I, path, name):
    p = path + '.' + name
    if p in CONSTS:
        return CONSTS[p]
    if p == 'sys.argv':
        return I.h.argv(I) if I.h is not None else I.list_()
    if path.startswith('metsim'):
        if name == 'get_versions':
            return Ext('metsim._version.get_versions')
    return Ext(p)


def is_text(v):
    if not isinstance(v, T):
        return False
    if v.op in ('str', 'fmt', 'upper', 'lower', 'strip', 'basename', 'joinpath', 'abspath', 'repr', 'replace',
                'splititem', 'strjoin', 'strcall'):
        return True
    if v.op == 'sym':
        return v.args[1] in TEXT
    if v.op == 'ite':
        return is_text(v.args[1]) and is_text(v.args[2])
    return False


def is_sequence(I, v):
    return isinstance(v, Tup) or I.is_obj(v, ListO)


# ------------------------------------------------------------------ numbers
def numof(I, v, how):
    """float(v) / int(v)"""
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: numof(I, v.a, how), lambda: numof(I, v.b, how))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Arr):
            v = I.tof(v)
            if is_arr(v) and length(v) is ONE:
                v = ops.getitem(v, ZERO)
        else:
            I.raise_('TypeError', const('number'))
    if not isinstance(v, T):
        I.raise_('TypeError', const('number'))
    if v.op == 'str':
        try:
            x = int(v.args[0]) if how == 'int' else float(v.args[0])
        except ValueError:
            I.raise_('ValueError', const('number'))
        return num(x)
    if v.op == 'none' or v.op in ('tuple', 'list', 'dict'):
        I.raise_('TypeError', const('number'))
    if v.op == 'ite':
        return I.choose(v.args[0], lambda: numof(I, v.args[1], how), lambda: numof(I, v.args[2], how))
    if is_text(v):
        if v.op == 'sym' and v.args[1] in ('text', 'path', 'optext', 'datetext', 'booltext'):
            I.event('convert', value=v, how=how)
        elif v.op == 'sym' and v.args[1] == 'numtext' and how == 'int':
            I.event('typeerror', what='int() of the text %s' % v.args[0])
            I.raise_('ValueError', const('number'))
        if v.op == 'sym' and v.args[1] in ('numtext', 'inttext'):
            return sym(v.args[0], 'num' if v.args[1] == 'numtext' else 'int')
        return mk('numof', v)
    if v.op == 'true' or v.op == 'false':
        return ONE if v is TRUE else ZERO
    if kind(v) == 'bool':
        return ite(v, ONE, ZERO)
    if how == 'int':
        return fn('int', v)
    return v


def arith(I, v):
    """Operand of an arithmetic operation."""
    if isinstance(v, Ref):
        if isinstance(I.get(v), Arr):
            v = I.tof(v)
        else:
            return None
    if isinstance(v, Phi):
        a, b = arith(I, v.a), arith(I, v.b)
        return ite(v.c, a, b) if a is not None and b is not None else None
    if not isinstance(v, T):
        return None
    if is_text(v):
        I.event('typeerror', what='arithmetic with text %r' % (v,), value=v)
        I.raise_('TypeError', const('text'))
    if v is NONE:
        I.raise_('TypeError', const('None'))
    if kind(v) == 'bool' and v not in (TRUE, FALSE):
        return ite(v, ONE, ZERO)
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    return v


def result_kind(I, *vs):
    """(kind, prototype object) of an elementwise result."""
    best, proto = None, None
    order = {'da': 3, 'ser': 2, 'idx': 1, 'nd': 0, None: -1}
    for v in vs:
        if isinstance(v, Ref) and isinstance(I.get(v), Arr):
            if proto is None or order.get(v.k, 0) > order.get(best, 0):
                best, proto = v.k or 'nd', I.get(v)
    return best, proto


def wrap(I, t, *operands):
    """Elementwise result of operands as a value."""
    k, proto = result_kind(I, *operands)
    if k is None:
        if is_arr(t):
            return I.arr(t)
        return t
    if k != 'da' and not is_arr(t):
        return t
    o = Arr(t)
    if k in ('ser', 'da'):
        o.index, o.dims = proto.index, proto.dims
        o.coords = dict(proto.coords) if proto.coords else proto.coords
        for v in operands:
            if isinstance(v, Ref) and v.k == 'da' and I.get(v).coords:
                for d, c in I.get(v).coords.items():
                    if o.coords is None:
                        o.coords = {}
                    if d not in o.coords:
                        o.coords[d] = c
                    elif o.coords[d] is not c and not equal(o.coords[d], c):
                        I.event('align', dim=d, a=o.coords[d], b=c)
    return I.new(o, k)


def ew2(I, f, a, b):
    x, y = arith(I, a), arith(I, b)
    if x is None or y is None:
        return None
    if isinstance(a, Ref) and isinstance(b, Ref) and a.k == 'nd' and b.k == 'nd':
        same_length(I, x, y, 'operands')
    return wrap(I, f(x, y), a, b)


def same_length(I, x, y, what):
    """Plain arrays are combined element by element."""
    if is_arr(x) and is_arr(y) and ops.rank(x) == 1 and ops.rank(y) == 1 and len(ops.dims_of(x)) < 2 and len(ops.dims_of(y)) < 2:
        p, q = ops.length(x), ops.length(y)
        if p is not ONE and q is not ONE and not equal(p, q):
            I.event('shape', what=what, a=p, b=q)


OPS = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': power}


def floordiv(a, b):
    r = tm.floordiv(a, b)
    if r.op == 'floor':
        return fn('floor', r.args[0])
    return r


OPS['FloorDiv'] = floordiv
OPS['Mod'] = mod


def binop(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    for x, left in ((a, True), (b, False)):
        if isinstance(x, Phi):
            f = (lambda y: binop(I, op, y, b)) if left else (lambda y: binop(I, op, a, y))
            return I.choose(x.c, lambda: f(x.a), lambda: f(x.b))
    # text
    if op == 'Add':
        if is_text(a) and is_text(b):
            return fmt_join([a, b])
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if I.is_obj(a, ListO) and I.is_obj(b, ListO):
            r = I.list_()
            I.mut(r).segs = list(I.get(a).segs) + list(I.get(b).segs)
            return r
        if is_sequence(I, a) and is_sequence(I, b) or is_text(a) != is_text(b) and (is_text(a) or is_text(b)) and not (
                isinstance(a, Ref) or isinstance(b, Ref)):
            I.event('typeerror', what='sum of %r and %r' % (a, b))
            I.raise_('TypeError', const('sum'))
    if op == 'Mod' and is_text(a):
        return percent(I, a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, T) and is_num(y):
                if isinstance(x, Tup):
                    return Tup(x.items * pyval(y))
                if I.is_obj(x, ListO):
                    r = I.list_()
                    I.mut(r).segs = list(I.get(x).segs) * max(0, pyval(y))
                    return r
                if is_text(x) and x.op == 'str':
                    return const(x.args[0] * pyval(y))
            elif I.is_obj(x, ListO) and isinstance(y, T):
                items = seq_items(I, x)
                if items and len(items) == 1:
                    r = I.list_()
                    k = mk('i', ops.fresh())
                    I.mut(r).segs = [('gen', y, k, TRUE, items[0])]
                    return r
    if op == 'BitOr' and I.is_obj(a, DictO) and I.is_obj(b, DictO):
        r = I.dict_()
        dict_update(I, r, a)
        dict_update(I, r, b)
        return r
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if isinstance(a, Ref) and isinstance(I.get(a), Inst) or I.is_obj(a, ListO):
            return setop(I, op, a, b)
        x, y = I.term(a), I.term(b)
        if op == 'BitAnd':
            r = and_(tm_bool(x), tm_bool(y))
        elif op == 'BitOr':
            r = or_(tm_bool(x), tm_bool(y))
        else:
            r = or_(and_(x, not_(y)), and_(not_(x), y))
        return wrap(I, r, a, b)
    if op == 'Sub' and (I.is_obj(a, ListO) or I.is_obj(b, ListO)):
        return setop(I, op, a, b)
    if isinstance(a, Ref) and isinstance(I.get(a), Inst) or isinstance(b, Ref) and isinstance(I.get(b), Inst):
        m = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
        if isinstance(a, Ref) and isinstance(I.get(a), Inst) and m and I.find_attr(I.get(a).cls, m):
            return I.call(Bound(a, I.find_attr(I.get(a).cls, m)), [b], {})
    if op in OPS:
        from . import libpd
        r = libpd.frame_binop(I, op, a, b)
        if r is not None:
            return r
        if op == 'Div':
            t = arith(I, b)
            if t is not None:
                I.event('div', den=t)
        r = ew2(I, OPS[op], a, b)
        if r is not None:
            return r
    if op == 'MatMult':
        return wrap(I, mk('fext', 'matmul', I.term(a), I.term(b)), a, b)
    x, y = I.term(a), I.term(b)
    I.unknown('operator %s of %s and %s' % (op, x.op, y.op))
    return mk('fext', op, x, y)


def tm_bool(t):
    if is_num(t):
        return boolT(t.args[0] != 0)
    return t


def setop(I, op, a, b):
    xs, ys = seq_items(I, a), seq_items(I, b)
    if xs is None or ys is None:
        # set of dataset dimensions etc.
        I.unknown('set operation')
        return I.list_()
    if op == 'Sub':
        out = [x for x in xs if x not in ys]
    elif op == 'BitAnd':
        out = [x for x in xs if x in ys]
    elif op == 'BitOr':
        out = xs + [y for y in ys if y not in xs]
    else:
        out = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
    return I.list_(out, 'set')


def unary(I, op, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: unary(I, op, v.a), lambda: unary(I, op, v.b))
    if op == 'USub':
        if isinstance(v, T) and v.op == 'inf':
            return mk('inf', -v.args[0])
        x = arith(I, v)
        if x is not None:
            return wrap(I, neg(x), v)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        x = I.term(v)
        return wrap(I, not_(x), v)
    I.unknown('unary ' + op)
    return mk('fext', op, I.term(v))


CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not'}


def compare(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if op in ('In', 'NotIn'):
        c = contains(I, b, a)
        return c if op == 'In' else not_(c)
    for x, left in ((a, True), (b, False)):
        if isinstance(x, Phi):
            f = (lambda y: compare(I, op, y, b)) if left else (lambda y: compare(I, op, a, y))
            return I.choose(x.c, lambda: f(x.a), lambda: f(x.b))
    if op in ('Is', 'IsNot'):
        r = identical(I, a, b)
        return r if op == 'Is' else not_(r)
    if op in ('Eq', 'NotEq'):
        r = equal_values(I, a, b)
        if isinstance(r, T) and not is_arr(r):
            return r if op == 'Eq' else not_(r)
        if isinstance(r, T):
            return wrap(I, r if op == 'Eq' else not_(r), a, b)
        return r if op == 'Eq' else wrap(I, not_(I.tof(r)), a, b)
    if isinstance(a, Tup) or isinstance(b, Tup):
        return mk('lt', I.term(a), I.term(b))
    if is_text(a) and is_text(b):
        if a.op == 'str' and b.op == 'str':
            x, y = a.args[0], b.args[0]
            return boolT({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        return mk('textcmp', op, a, b)
    if I.is_obj(a, ListO) or I.is_obj(b, ListO):
        xs, ys = seq_items(I, a), seq_items(I, b)
        if xs is not None and ys is not None and op in ('LtE', 'GtE'):
            s, l = (xs, ys) if op == 'LtE' else (ys, xs)
            return boolT(all(x in l for x in s))
        return mk('textcmp', op, I.term(a), I.term(b))
    x, y = arith(I, a), arith(I, b)
    if x is None or y is None:
        I.unknown('comparison of %r and %r' % (a, b))
        return mk('truth', mk('fext', op, I.term(a), I.term(b)))
    if x.op == 'inf' or y.op == 'inf':
        s = (y.args[0] if y.op == 'inf' else -x.args[0])
        return boolT((op in ('Lt', 'LtE')) == (s > 0))
    return wrap(I, cmp_(CMP[op], x, y), a, b)


def identical(I, a, b):
    if isinstance(a, T) and isinstance(b, T):
        return eq_ident(a, b)
    if isinstance(a, T) and a is NONE or isinstance(b, T) and b is NONE:
        return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref):
        return boolT(a.a == b.a)
    if type(a) is type(b):
        return boolT(a == b)
    return FALSE


def equal_values(I, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        return and_(*[I.truth(equal_values(I, x, y)) for x, y in zip(a.items, b.items)])
    ca, cb = (I.is_obj(a, (ListO, DictO)), I.is_obj(b, (ListO, DictO)))
    if ca or cb:
        if ca and cb:
            oa, ob = I.get(a), I.get(b)
            if type(oa) is not type(ob):
                return FALSE
            if a == b:
                return TRUE
            x, y = I.term(a), I.term(b)
            if x is y:
                return TRUE
            if isinstance(oa, ListO) and all(s[0] == 'v' for s in oa.segs + ob.segs):
                if len(oa.segs) != len(ob.segs):
                    return FALSE
                return and_(*[I.truth(equal_values(I, s[1], r[1])) for s, r in zip(oa.segs, ob.segs)])
            la, lb = len_(I, a), len_(I, b)
            if is_num(la) and is_num(lb) and la is not lb:
                return FALSE
            p, q = sorted((x, y), key=lambda t: t.uid)
            return mk('eq', p, q)
        o = b if ca else a
        if isinstance(o, T) and not is_arr(o) and o.op in ('none', 'num', 'str', 'true', 'false', 'add', 'mul'):
            return FALSE
        if isinstance(o, Ref) and isinstance(I.get(o), Arr):
            return mk('eq', I.term(a), I.term(b))
        if isinstance(o, Tup):
            return FALSE
        return mk('eq', I.term(a), I.term(b))
    if isinstance(a, Ref) and isinstance(I.get(a), Arr) or isinstance(b, Ref) and isinstance(I.get(b), Arr):
        if isinstance(a, Tup) or isinstance(b, Tup):
            return mk('eq', I.term(a), I.term(b))
        x, y = I.term(a), I.term(b)
        if x is NONE or y is NONE:
            return FALSE
        if kind(x) == 'bool' and y in (TRUE, FALSE, ZERO, ONE):
            return wrap(I, x if y in (TRUE, ONE) else not_(x), a, b)
        return wrap(I, cmp_('==', x, y), a, b)
    if isinstance(a, T) and isinstance(b, T):
        ta, tb = is_text(a), is_text(b)
        if ta != tb and (a if tb else b).op in ('num', 'none', 'true', 'false', 'add', 'mul', 'numof', 'len'):
            return FALSE
        if ta and tb and a is not b:
            r = text_eq(I, a, b)
            if r is not None:
                return r
            x, y = sorted((a, b), key=lambda t: t.uid)
            return TRUE if x is y else mk('eq', x, y)
        if ta != tb:
            x, y = sorted((a, b), key=lambda t: t.uid)
            return mk('eq', x, y)
        if kind(a) == 'bool' and is_num(b) and a not in (TRUE, FALSE):
            return a if b is ONE else not_(a) if b is ZERO else FALSE
        if kind(b) == 'bool' and is_num(a) and b not in (TRUE, FALSE):
            return b if a is ONE else not_(b) if a is ZERO else FALSE
        return cmp_('==', a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return boolT(a.a == b.a) if a.a == b.a else mk('eq', I.term(a), I.term(b))
    if isinstance(a, T) and a is NONE or isinstance(b, T) and b is NONE:
        return FALSE
    if type(a) is type(b):
        return boolT(a == b)
    return FALSE


def text_eq(I, a, b):
    if a.op == 'str' and b.op == 'str':
        return boolT(a is b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            return ite(x.args[0], I.truth(equal_values(I, x.args[1], y)), I.truth(equal_values(I, x.args[2], y)))
        if y.op == 'str' and x.op == 'sym' and x.args[1] in ('inttext', 'numtext', 'path', 'datetext'):
            s = y.args[0]
            if x.args[1] in ('inttext', 'numtext'):
                try:
                    float(s)
                except ValueError:
                    return FALSE
            if x.args[1] == 'path' and s == '':
                return FALSE
        if y.op == 'str' and x.op in ('joinpath', 'fmt', 'abspath') and y.args[0] == '':
            return FALSE
        if y.op == 'str' and x.op in ('upper', 'lower'):
            s = y.args[0]
            if s != (s.upper() if x.op == 'upper' else s.lower()):
                return FALSE
            if x.args[0].op == 'sym':
                return mk('eqci', x.args[0], const(s.lower()))
    return None


def contains(I, c, x):
    """x in c"""
    c, x = I.resolve(c), I.resolve(x)
    if isinstance(c, Phi):
        return I.choose(c.c, lambda: contains(I, c.a, x), lambda: contains(I, c.b, x))
    if isinstance(x, Phi):
        return I.choose(x.c, lambda: contains(I, c, x.a), lambda: contains(I, c, x.b))
    if isinstance(c, T) and is_text(c):
        if c.op == 'str' and isinstance(x, T) and x.op == 'str':
            return boolT(x.args[0] in c.args[0])
        if c.op == 'fmt' and isinstance(x, T) and x.op == 'str':
            if any(p.op == 'str' and x.args[0] in p.args[0] for p in c.args):
                return TRUE
        if isinstance(x, T) and not is_text(x) and is_const(x):
            I.raise_('TypeError', const('in'))
        return mk('contains', c, I.term(x))
    if isinstance(c, Tup) or I.is_obj(c, ListO):
        segs = [('v', y) for y in c.items] if isinstance(c, Tup) else I.get(c).segs
        out = []
        for s in segs:
            if s[0] == 'v':
                out.append(I.truth(equal_values(I, s[1], x)))
            elif s[0] == 'g':
                out.append(and_(s[1], I.truth(equal_values(I, s[2], x))))
            else:
                out.append(mk('contains', I.term(c), I.term(x)))
        return or_(*out)
    if I.is_obj(c, Opaque) and isinstance(I.get(c).attrs.get('dict'), Ref):
        c = I.get(c).attrs['dict']
    if I.is_obj(c, DictO):
        return dict_has(I, c, x)
    if I.is_obj(c, Frame):
        from . import libpd
        return libpd.frame_has(I, c, libpd.name_of(I, x))
    if I.is_obj(c, Dset):
        from . import libpd
        return libpd.ds_has(I, c, x)
    if I.is_obj(c, Inst):
        f = I.find_attr(I.get(c).cls, '__contains__')
        if f is not None:
            return I.truth(I.call(Bound(c, f), [x], {}))
    if I.is_obj(c, Opaque):
        o = I.get(c)
        if 'in' in o.attrs:
            return o.attrs['in'](I, x)
        return mk('contains', o.t, I.term(x))
    if I.is_obj(c, NcFile):
        return mk('contains', I.term(c), I.term(x))
    if isinstance(c, Ref) and isinstance(I.get(c), Arr):
        return mk('contains', I.tof(c), I.term(x))
    if c is NONE:
        I.raise_('TypeError', const('in None'))
    return mk('contains', I.term(c), I.term(x))


def phi_present(v):
    """Condition under which a possibly undefined value is defined."""
    if v is UNDEF:
        return FALSE
    if isinstance(v, Phi):
        return ite(v.c, phi_present(v.a), phi_present(v.b))
    return TRUE


# --------------------------------------------------------------------- text
def fmt_join(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == 'fmt' else (p,)):
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif q.op == 'str' and q.args[0] == '':
                continue
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and is_text(out[0]):
        return out[0]
    return mk('fmt', *out)


def fmt_value(I, v, spec):
    v = I.resolve(v) if not isinstance(v, T) else v
    sp = spec.args[0] if isinstance(spec, T) and spec.op == 'str' else ('' if spec is NONE else None)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: fmt_value(I, v.a, spec), lambda: fmt_value(I, v.b, spec))
    t = I.term(v)
    if sp is None:
        return mk('fv', t, spec)
    if is_const(t):
        try:
            if not (t.op == 'num' and t.args[0].denominator != 1 and sp == ''):
                return const(format(pyval(t), sp))
        except (ValueError, TypeError):
            I.raise_('ValueError', const('format'))
        return const(repr(pyval(t)))
    if sp == '' and is_text(t):
        return t
    if sp.startswith('%') or '%' in sp:
        return strftime(t, sp)
    if sp == '':
        return mk('fv', t, const(''))
    return mk('fv', t, const(sp))


STRF = {'%Y': ('year', '04d'), '%m': ('month', '02d'), '%d': ('day', '02d'), '%H': ('hour', '02d'),
        '%M': ('minute', '02d'), '%S': ('second', '02d')}


def strftime(t, sp):
    parts, k = [], 0
    while k < len(sp):
        f = sp[k:k + 2]
        if f in STRF:
            a, b = STRF[f]
            parts.append(mk('fv', mk('datefield', a, t), const(b)))
            k += 2
        elif sp[k] == '%':
            parts.append(mk('fv', t, const(f)))
            k += 2
        else:
            parts.append(const(sp[k]))
            k += 1
    return fmt_join(parts)


def str_format(I, s, args, kw):
    """'...'.format(...)"""
    import string
    parts, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        name, rest = field, ''
        for k, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:k], field[k:]
                break
        if name == '':
            name, auto = str(auto), auto + 1
        if name.isdigit():
            if int(name) >= len(args):
                I.raise_('IndexError', const('format'))
            v = args[int(name)]
        else:
            if name not in kw:
                I.raise_('KeyError', const(name))
            v = kw[name]
        while rest:
            if rest[0] == '.':
                k = 1
                while k < len(rest) and rest[k] not in '.[':
                    k += 1
                v = I.getattr(v, rest[1:k])
                rest = rest[k:]
            else:
                k = rest.index(']')
                x = rest[1:k]
                v = getitem(I, v, const(int(x) if x.isdigit() else x))
                rest = rest[k + 1:]
        parts.append(fmt_value(I, v, const(spec or '')))
    return fmt_join(parts)


def percent(I, a, b):
    if a.op != 'str':
        return mk('strcall', '%', a, I.term(b))
    args = list(b.items) if isinstance(b, Tup) else [b]
    import re
    parts, pos, k = [], 0, 0
    s = a.args[0]
    for m in re.finditer(r'%([-0-9.]*)([sdfgrie%])', s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            parts.append(const('%'))
            continue
        if k >= len(args):
            I.raise_('TypeError', const('format'))
        sp = m.group(1) + (m.group(2) if m.group(2) not in 'sri' else 'd' if m.group(2) == 'i' else '')
        if sp == 'd':
            sp = ''
        parts.append(fmt_value(I, args[k], const(sp)))
        k += 1
    parts.append(const(s[pos:]))
    return fmt_join(parts)


def case(I, t, how):
    if t.op == 'str':
        return const(t.args[0].upper() if how == 'upper' else t.args[0].lower())
    if t.op in ('upper', 'lower'):
        t = t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], case(I, t.args[1], how), case(I, t.args[2], how))
    if t.op == 'strip':
        return mk('strip', case(I, t.args[0], how))
    return mk(how, t)


def text_method(I, t, name, args, kw, node):
    a = [I.term(x) for x in args]
    if t.op == 'ite' and name not in ('join',):
        return I.choose(t.args[0], lambda: text_method(I, t.args[1], name, args, kw, node),
                        lambda: text_method(I, t.args[2], name, args, kw, node))
    if name == 'format':
        if t.op == 'str':
            return str_format(I, t.args[0], args, kw)
        return mk('strcall', 'format', t, *a)
    if t.op == 'str' and all(x.op in ('str', 'num', 'none') for x in a) and name not in ('join', 'encode') and not kw:
        try:
            r = getattr(t.args[0], name)(*[pyval(x) for x in a])
        except AttributeError:
            I.raise_('AttributeError', const(name))
        except (ValueError, IndexError) as e:
            I.raise_(type(e).__name__, const(str(e)))
        return from_py(I, r)
    if name in ('upper', 'lower', 'casefold', 'title', 'capitalize', 'swapcase'):
        if name == 'casefold':
            name = 'lower'
        if name in ('upper', 'lower'):
            return case(I, t, name)
        return mk('strcall', name, t)
    if name in ('strip', 'lstrip', 'rstrip'):
        if t.op == 'sym' and t.args[1] in ('inttext', 'numtext'):
            return t
        if t.op == 'strip' and name == 'strip':
            return t
        return mk('strip', t) if name == 'strip' and not a else mk('strcall', name, t, *a)
    if name == 'join':
        items = seq_items(I, args[0])
        if items is not None:
            parts = []
            for k, x in enumerate(items):
                x = I.resolve(x)
                tx = I.term(x)
                if not is_text(tx) and (is_const(tx) or not isinstance(x, T)):
                    I.raise_('TypeError', const('join'))
                if k:
                    parts.append(t)
                parts.append(tx)
            return fmt_join(parts) if parts else const('')
        return mk('strjoin', t, a[0])
    if name in ('split', 'rsplit'):
        sep = a[0] if a else kw.get('sep', NONE)
        if t.op == 'fmt' and is_str(sep):
            return split_fmt(I, t, sep.args[0])
        return I.new(Opaque('splitlist', mk('split', t, sep, *a[1:])))
    if name == 'startswith' or name == 'endswith':
        if t.op == 'fmt' and is_str(a[0]):
            p = t.args[0] if name == 'startswith' else t.args[-1]
            if p.op == 'str' and len(p.args[0]) >= len(a[0].args[0]):
                return boolT(getattr(p.args[0], name)(a[0].args[0]))
        return mk('contains', mk(name, t), a[0])
    if name == 'replace':
        return mk('replace', t, *a)
    if name in ('isdigit', 'isalpha', 'isnumeric', 'isupper', 'islower', 'isspace', 'isdecimal'):
        if t.op == 'sym' and t.args[1] == 'inttext' and name in ('isdigit', 'isnumeric', 'isdecimal'):
            return TRUE
        return mk('truth', mk('strcall', name, t))
    if name == 'encode':
        return mk('strcall', 'encode', t)
    if name == 'strftime':
        return mk('strcall', name, t, *a)
    if name in ('find', 'index', 'count', 'rfind', 'rindex'):
        return mk('strcall', name, t, *a)
    if name in ('partition', 'rpartition'):
        return Tup([mk('strcall', name + str(k), t, *a) for k in range(3)])
    if name in ('zfill', 'ljust', 'rjust', 'center', 'removesuffix', 'removeprefix', 'splitlines', 'expandtabs'):
        return mk('strcall', name, t, *a)
    if name in ('year', 'month', 'day'):
        return mk('datefield', name, t)
    I.unknown('text method ' + name)
    return mk('strcall', name, t, *a)


def split_fmt(I, t, sep):
    out = [[]]
    for p in t.args:
        if p.op == 'str':
            bits = p.args[0].split(sep)
            out[-1].append(const(bits[0]))
            for b in bits[1:]:
                out.append([const(b)])
        else:
            out[-1].append(p)
    return I.list_([fmt_join(x) for x in out])


def from_py(I, r):
    if isinstance(r, (list,)):
        return I.list_([from_py(I, x) for x in r])
    if isinstance(r, tuple):
        return Tup([from_py(I, x) for x in r])
    if isinstance(r, dict):
        return I.dict_({const(k): from_py(I, x) for k, x in r.items()})
    return const(r)


# --------------------------------------------------------------- containers
def key_of(I, k):
    """Dictionary key of a value."""
    k = I.resolve(k)
    if isinstance(k, T):
        return canon(k) if k.op in ('add', 'mul') else k
    if isinstance(k, Tup):
        return I.term(k)
    if isinstance(k, Ref) and isinstance(I.get(k), Arr):
        return I.tof(k)
    return k


def key_eq(I, a, b):
    if a is b or a == b and not isinstance(a, T):
        return TRUE
    if isinstance(a, T) and isinstance(b, T):
        if is_const(a) and is_const(b):
            return FALSE
        if a.op == 'fmt' and b.op == 'fmt' and equal(a, b):
            return TRUE
        return I.truth(equal_values(I, a, b))
    return FALSE


def dict_set(I, r, k, v, fresh=False):
    k = I.resolve(k)
    if isinstance(k, Phi):
        s = k
        return I.branch(s.c, lambda: dict_set(I, r, s.a, v), lambda: dict_set(I, r, s.b, v))
    k = key_of(I, k)
    if isinstance(k, T) and k.op == 'ite' and not is_arr(k):
        return I.branch(k.args[0], lambda: dict_set(I, r, k.args[1], v), lambda: dict_set(I, r, k.args[2], v))
    o = I.get(r)
    in_loop = bool(I.loops)
    symbolic = isinstance(k, T) and not is_const(k) and any(
        s.op in ('i', 'pi', 'nd', 'getitem', 'gkey', 'mu') for s in subterms(k))
    if not symbolic:
        m = I.mut(r, 'dictionary entry')
        if k in m.items:
            m.items[k] = v
        else:
            m.items[k] = v
        m.guards.pop(k, None)
        return
    m = I.mut(r, 'dictionary entry')
    m.more = m.more + [('set', k, v)]


def dict_entries(I, r):
    """[(guard, key, value or generator)] in order."""
    o = I.get(r)
    out = [('v', o.guards.get(k, TRUE), k, v) for k, v in o.items.items()]
    for m in o.more:
        out.append(more_entry(m, TRUE))
    return out


def more_entry(m, g):
    if m[0] == 'if':
        return more_entry(m[2], and_(g, m[1]))
    if m[0] == 'set':
        return ('v', g, m[1], m[2])
    if m[0] == 'gen':
        return ('gen', m[1], m[2], and_(g, m[3]), m[4], m[5])
    return ('mark',)


def gen_match(I, pat, i, n, key):
    """Index for which the key pattern over i gives the key, or None."""
    if not isinstance(key, T) or not isinstance(pat, T):
        return None
    cands = [s for s in subterms(key) if s.op in ('i', 'pi', 'num', 'getitem')]
    for c in cands:
        if equal(subst(pat, {i: c}), key):
            return c
    return None


def dict_lookup(I, r, key):
    """(presence condition, value)"""
    o = I.get(r)
    k = key_of(I, key)
    pres, val = FALSE, UNDEF
    if k in o.items:
        pres, val = o.guards.get(k, TRUE), o.items[k]
    elif isinstance(k, T) and not is_const(k):
        for kk, vv in o.items.items():
            e = key_eq(I, kk, k)
            if e is FALSE:
                continue
            g = and_(e, o.guards.get(kk, TRUE))
            if I.decide(g) is True:
                pres, val = TRUE, vv
                break
            if I.decide(g) is False:
                continue
            val = vv if val is UNDEF else I.join_vals(g, vv, val)
            pres = or_(pres, g)
    for m in o.more:
        e = more_entry(m, TRUE)
        if e[0] == 'v':
            c = and_(e[1], key_eq(I, e[2], k))
            d = I.decide(c)
            if d is True:
                pres, val = TRUE, e[3]
            elif d is None:
                val = e[3] if val is UNDEF else I.join_vals(c, e[3], val)
                pres = or_(pres, c)
        elif e[0] == 'gen':
            x = gen_match(I, e[4], e[2], e[1], k)
            if x is not None:
                v = I.vsubst(e[5], {e[2]: x})
                g = subst(e[3], {e[2]: x})
                if g is TRUE:
                    pres, val = TRUE, v
                else:
                    val = v if val is UNDEF else I.join_vals(g, v, val)
                    pres = or_(pres, g)
            elif isinstance(k, T):
                if isinstance(e[4], T) and certainly_differs(e[4], k):
                    continue
                h, p, g = bind(e[2], I.term(e[4]), e[3])
                c = mk('any', e[1], h, and_(g, mk('eq', p, k)))
                hv, pv = bind(e[2], I.term(e[5])) if not isinstance(e[5], Ref) else (0, NONE)
                v = mk('lookup', e[1], h, p, pv, k)
                val = v if val is UNDEF else I.join_vals(c, v, val)
                pres = or_(pres, c)
    if o.opaque is not None:
        c = mk('has', o.opaque, I.term(key))
        v = mk('item', o.opaque, I.term(key))
        if pres is FALSE:
            return c, v
        return or_(pres, c), I.join_vals(pres, val, v)
    return pres, val


def certainly_differs(a, b):
    if a.op == 'fmt' and b.op == 'str' or b.op == 'fmt' and a.op == 'str':
        f, s = (a, b) if a.op == 'fmt' else (b, a)
        return any(p.op == 'str' and p.args[0] not in s.args[0] for p in f.args)
    return False


def dict_has(I, r, key):
    p, v = dict_lookup(I, r, key)
    if I.decide(p) is not None:
        return boolT(I.decide(p))
    return p


def dict_get(I, r, key, default=None):
    """default None: raise KeyError."""
    p, v = dict_lookup(I, r, key)
    d = I.decide(p)
    if d is True:
        return I.resolve(v)
    if d is False:
        if default is None:
            I.event('keyerror', key=I.term(key), label=I.get(r).label)
            I.raise_('KeyError', I.term(key))
        return default
    if default is None:
        s0 = I.st
        I.st = s0.fork(not_(p))
        I.event('keyerror', key=I.term(key), label=I.get(r).label)
        try:
            I.raise_('KeyError', I.term(key))
        except I.Dead:
            pass
        I.st = s0.fork(p)
        return I.resolve(v)
    return I.join_vals(p, v, default)


def dict_update(I, r, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.branch(v.c, lambda: dict_update(I, r, v.a), lambda: dict_update(I, r, v.b))
    if I.is_obj(v, DictO):
        for e in dict_entries(I, v):
            if e[0] == 'v':
                if e[1] is TRUE:
                    dict_set(I, r, e[2], e[3])
                else:
                    I.branch(e[1], lambda e=e: dict_set(I, r, e[2], e[3]), lambda: None)
            elif e[0] == 'gen':
                o = I.mut(r, 'dictionary entry')
                o.more = o.more + [('gen', e[1], e[2], e[3], e[4], e[5])]
        op = I.get(v).opaque
        if op is not None:
            I.mut(r).opaque = op
        return
    if I.is_obj(v, (Opaque, Dset, Inst)) or isinstance(v, T) and not is_const(v):
        o = I.mut(r, 'dictionary entries')
        from . import libpd
        if I.is_obj(v, Opaque) and I.get(v).cls == 'coords':
            for k, a in libpd.coords_items(I, v):
                o = I.mut(r)
                o.items[const(k)] = a
            return
        if I.is_obj(v, Opaque) and 'dict' in I.get(v).attrs:
            return dict_update(I, r, I.get(v).attrs['dict'])
        o.opaque = I.term(v)
        return
    items = seq_items(I, v)
    if items is not None:
        for x in items:
            kv = seq_items(I, I.resolve(x), 2)
            dict_set(I, r, kv[0], kv[1])
        return
    segs = segments(I, v)

    def bindv(x):
        kv = seq_items(I, I.resolve(x), 2)
        dict_set(I, r, kv[0], kv[1])
    I.for_loop(segs, bindv, lambda: None)


def kwargs_of(I, v):
    if I.is_obj(v, DictO):
        out = {}
        for e in dict_entries(I, v):
            if e[0] != 'v' or not is_str(e[2]):
                raise I.Unmodelled('keyword arguments', I.where())
            if e[1] is not TRUE and I.decide(e[1]) is not True:
                if I.decide(e[1]) is False:
                    continue
                raise I.Unmodelled('conditional keyword arguments', I.where())
            out[e[2].args[0]] = e[3]
        return out
    if I.is_obj(v, Opaque) and 'dict' in I.get(v).attrs:
        return kwargs_of(I, I.get(v).attrs['dict'])
    raise I.Unmodelled('keyword arguments', I.where())


def seg_count(I, s):
    if s[0] == 'v':
        return ONE
    if s[0] == 'g':
        return ite(s[1], ONE, ZERO)
    if s[0] == 'gen':
        if s[3] is TRUE:
            return s[1]
        return canon(sum_over(s[1], s[2], ite(s[3], ONE, ZERO)))
    return mk('len', mk('segs', str(s)))


def len_(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: len_(I, v.a), lambda: len_(I, v.b))
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, T):
        if v.op == 'str':
            return num(len(v.args[0]))
        if v.op in ('none', 'num', 'true', 'false'):
            I.raise_('TypeError', const('len'))
        if is_arr(v):
            return length(v)
        return mk('len', v)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            return add(*[seg_count(I, s) for s in o.segs]) if o.segs else ZERO
        if isinstance(o, DictO):
            n = ZERO
            for e in dict_entries(I, v):
                if e[0] == 'v':
                    n = add(n, ite(e[1], ONE, ZERO))
                elif e[0] == 'gen':
                    n = add(n, e[1])
            if o.opaque is not None:
                n = add(n, mk('len', o.opaque))
            return n
        if isinstance(o, Arr):
            t = I.tof(v)
            if not is_arr(t):
                if o.dims == () or v.k == 'da':
                    I.raise_('TypeError', const('len of scalar'))
                return ONE
            return length(t)
        if isinstance(o, Frame):
            return length(I.tof(o.index))
        if isinstance(o, Dset):
            from . import libpd
            return num(len(libpd.ds_names(I, v)))
        if isinstance(o, Opaque):
            if 'len' in o.attrs:
                return o.attrs['len']
            return mk('len', o.t)
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__len__')
            if f is not None:
                return I.call(Bound(v, f), [], {})
        return mk('len', I.term(v))
    return mk('len', I.term(v))


def seq_items(I, v, n=None):
    """Items of a sequence as a Python list, or None if not enumerable."""
    v = I.resolve(v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Phi):
        a, b = v.a, v.b
        xs, ys = seq_items(I, a, n), seq_items(I, b, n)
        if xs is not None and ys is not None and len(xs) == len(ys):
            return [I.join_vals(v.c, x, y) for x, y in zip(xs, ys)]
        return None
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            if all(s[0] == 'v' for s in o.segs):
                return [s[1] for s in o.segs]
            gs = [I.decide(s[1]) if s[0] == 'g' else True if s[0] == 'v' else None for s in o.segs]
            if all(g is not None for g in gs):
                return [s[-1] for s, g in zip(o.segs, gs) if g]
            if n is not None:
                return [getitem(I, v, num(k)) for k in range(n)]
            return None
        if isinstance(o, DictO):
            es = dict_entries(I, v)
            if all(e[0] == 'v' and (e[1] is TRUE or I.decide(e[1]) is True) for e in es) and o.opaque is None:
                return [e[2] for e in es]
            return None
        if isinstance(o, Arr):
            t = I.tof(v)
            if n is not None:
                return [I.arr_elem(v, num(k)) for k in range(n)]
            if is_arr(t) and is_num(length(t)) and length(t).args[0] <= 64:
                return [I.arr_elem(v, num(k)) for k in range(int(length(t).args[0]))]
            return None
        if isinstance(o, Frame):
            return [const(k) if isinstance(k, str) else k for k in o.cols]
        if isinstance(o, Dset):
            from . import libpd
            return [const(k) for k in libpd.ds_names(I, v)]
        if isinstance(o, Opaque):
            if 'items' in o.attrs:
                return list(o.attrs['items'])
            if n is not None:
                ln = o.attrs.get('len')
                if ln is None:
                    I.may('ValueError', mk('eq', mk('len', o.t), num(n)))
                return [getitem(I, v, num(k)) for k in range(n)]
            return None
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__iter__')
            if f is not None:
                return seq_items(I, I.call(Bound(v, f), [], {}), n)
        return None
    if isinstance(v, T):
        if v.op == 'str':
            return [const(c) for c in v.args[0]]
        if v.op in ('tuple', 'list') and not any(a.op in ('guarded', 'genseg') for a in v.args):
            return list(v.args)
        if n is not None and not is_const(v):
            return [ops.getitem(v, num(k)) if is_arr(v) else mk('item', v, num(k)) for k in range(n)]
        if is_arr(v) and is_num(length(v)) and length(v).args[0] <= 64:
            return [ops.getitem(v, num(k)) for k in range(int(length(v).args[0]))]
        if is_const(v) and v.op != 'str':
            I.raise_('TypeError', const('not iterable'))
    return None


def segments(I, v):
    """Iteration of a value: ('v',x) | ('g',cond,x) | ('gen', n, make, guard)"""
    v = I.resolve(v)
    if isinstance(v, Phi):
        a = I.with_pc(v.c, lambda: segments(I, v.a))
        b = I.with_pc(not_(v.c), lambda: segments(I, v.b))
        if all(s[0] in 'vg' for s in a + b):
            if len(a) == len(b) and all(x[0] == y[0] == 'v' for x, y in zip(a, b)):
                return [('v', I.join_vals(v.c, x[1], y[1])) for x, y in zip(a, b)]
            g = lambda c, s: ('g', c, s[1]) if s[0] == 'v' else ('g', and_(c, s[1]), s[2])
            return [g(v.c, s) for s in a] + [g(not_(v.c), s) for s in b]
        out = []
        for c, ss in ((v.c, a), (not_(v.c), b)):
            for s in ss:
                if s[0] == 'v':
                    out.append(('g', c, s[1]))
                elif s[0] == 'g':
                    out.append(('g', and_(c, s[1]), s[2]))
                else:
                    gd = s[3]
                    out.append(('gen', s[1], s[2], (lambda i, gd=gd, c=c: and_(c, gd(i) if gd else TRUE))))
        return out
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            out = []
            for s in o.segs:
                if s[0] == 'v':
                    out.append(s)
                elif s[0] == 'g':
                    d = I.decide(s[1])
                    if d is True:
                        out.append(('v', s[2]))
                    elif d is None:
                        out.append(s)
                elif s[0] == 'gen':
                    out.append(gen_seg(I, s))
                elif s[0] == 'gen2':
                    out.append(flat_gen2(I, s))
            return out
        if isinstance(o, DictO):
            out = []
            for e in dict_entries(I, v):
                if e[0] == 'v':
                    d = I.decide(e[1])
                    if d is True:
                        out.append(('v', e[2]))
                    elif d is None:
                        out.append(('g', e[1], e[2]))
                elif e[0] == 'gen':
                    out.append(gen_seg(I, ('gen', e[1], e[2], e[3], e[4])))
            if o.opaque is not None:
                out.append(('gen', mk('len', o.opaque), lambda i: mk('gkey', o.opaque, i), None))
            return out
        if isinstance(o, Opaque) and 'segments' in o.attrs:
            return o.attrs['segments']
    items = seq_items(I, v)
    if items is not None:
        return [('v', x) for x in items]
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Arr):
            t = I.tof(v)
            n = length(t)
            return [('gen', n, (lambda i: I.arr_elem(v, i)), None)]
        return [('gen', len_(I, v), (lambda i: getitem(I, v, i)), None)]
    t = I.term(v)
    if t.op == 'num' or t is NONE:
        I.raise_('TypeError', const('not iterable'))
    return [('gen', len_(I, t), (lambda i: ops.getitem(t, i) if is_arr(t) else mk('item', t, i)), None)]


def gen_seg(I, s):
    _, n, i, g, x = s
    return ('gen', n, (lambda j: I.vsubst(x, {i: j})), None if g is TRUE else (lambda j: subst(g, {i: j})))


def flat_gen2(I, s):
    """('gen2', (n, i), inner): two nested generators as one."""
    _, (n, i), inner = s
    if inner[0] == 'gen2':
        raise I.Unmodelled('three nested generators', I.where())
    _, m, j, g, x = inner

    def split(p):
        a, b = mk('pi', p, 0, n, m), mk('pi', p, 1, m, ONE)
        ops.UPPER[a], ops.UPPER[b] = n, m
        return {i: a, j: b}
    return ('gen', mul(n, m), (lambda p: I.vsubst(x, split(p))), None if g is TRUE else (lambda p: subst(g, split(p))))


def as_gen(I, v):
    """(n, make) for an iterable with one certain item per index, or None."""
    items = seq_items(I, v)
    if items is not None:
        return None
    segs = segments(I, v)
    if len(segs) == 1 and segs[0][0] == 'gen' and segs[0][3] is None:
        return segs[0][1], segs[0][2]
    return None


def make_list(I, segs, kind_='list'):
    """List from iteration segments."""
    r = I.list_((), kind_)
    out = []
    for s in segs:
        if s[0] in ('v', 'g'):
            out.append(s)
        else:
            i = mk('i', ops.fresh())
            ops.UPPER[i] = s[1]
            out.append(('gen', s[1], i, s[3](i) if s[3] else TRUE, s[2](i)))
    I.mut(r).segs = out
    return r


def norm_index(i, n):
    if is_num(i) and i.args[0] < 0:
        return add(n, i)
    if i.op == 'mul' and i.args[0].op == 'num' and i.args[0].args[0] < 0 and len(i.args) == 2 and is_num(i.args[1]):
        return add(n, i)
    return i


def list_getitem(I, v, i):
    o = I.get(v)
    if isinstance(i, Slc):
        items = seq_items(I, v)
        f = lambda x: None if x is NONE else pyval(x)
        if items is not None and all(x is NONE or is_num(x) for x in (i.a, i.b, i.c)):
            return I.list_(items[f(i.a):f(i.b):f(i.c)], o.kind)
        segs = o.segs
        if i.c is NONE and i.a is NONE and i.b is NONE:
            return I.list_copy(v)
        if len(segs) == 1 and segs[0][0] == 'gen' and segs[0][3] is TRUE and i.c is NONE:
            _, n, j, g, x = segs[0]
            a = ZERO if i.a is NONE else norm_index(i.a, n)
            b = n if i.b is NONE else norm_index(i.b, n)
            k = mk('i', ops.fresh())
            ops.UPPER[k] = sub(b, a)
            r = I.list_((), o.kind)
            I.mut(r).segs = [('gen', sub(b, a), k, TRUE, I.vsubst(x, {j: add(k, a)}))]
            return r
        return I.new(Opaque('slice', mk('slicelist', I.term(v), i.a, i.b, i.c)))
    i = I.scalar(i)
    if is_text(i):
        I.raise_('TypeError', const('index'))
    segs = o.segs
    if is_num(i):
        k = pyval(i)
        if k >= 0:
            pos = 0
            for s in segs:
                if s[0] == 'v':
                    if pos == k:
                        return I.resolve(s[1])
                    pos += 1
                elif s[0] == 'gen' and s[3] is TRUE:
                    return I.vsubst(s[4], {s[2]: num(k - pos)})
                else:
                    break
            else:
                I.raise_('IndexError', i)
        else:
            pos = -1
            for s in reversed(segs):
                if s[0] == 'v':
                    if pos == k:
                        return I.resolve(s[1])
                    pos -= 1
                elif s[0] == 'gen' and s[3] is TRUE:
                    return I.vsubst(s[4], {s[2]: add(s[1], num(k - pos - 1))})
                else:
                    break
            else:
                I.raise_('IndexError', i)
        items = seq_items(I, v)
        if items is not None:
            if -len(items) <= k < len(items):
                return I.resolve(items[k])
            I.raise_('IndexError', i)
    elif all(s[0] == 'v' for s in segs):
        items = [s[1] for s in segs]
        if not items:
            I.raise_('IndexError', i)
        if all(isinstance(x, T) for x in items) and len(items) > 4:
            return mk('getitem', mk('table', *items), i)
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = I.join_vals(cmp_('==', i, num(k)), items[k], r)
        return I.resolve(r)
    elif len(segs) == 1 and segs[0][0] == 'gen' and segs[0][3] is TRUE:
        return I.vsubst(segs[0][4], {segs[0][2]: i})
    return mk('item', I.term(v), i)


# ---------------------------------------------------------- item access
def getitem(I, v, idx):
    v = I.resolve(v)
    idx = I.resolve(idx)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: getitem(I, v.a, idx), lambda: getitem(I, v.b, idx))
    if isinstance(idx, Phi):
        return I.choose(idx.c, lambda: getitem(I, v, idx.a), lambda: getitem(I, v, idx.b))
    if isinstance(v, Tup):
        if isinstance(idx, Slc):
            f = lambda x: None if x is NONE else pyval(x)
            if all(x is NONE or is_num(x) for x in (idx.a, idx.b, idx.c)):
                return Tup(v.items[f(idx.a):f(idx.b):f(idx.c)])
            return mk('slicelist', I.term(v), idx.a, idx.b, idx.c)
        i = I.scalar(idx)
        if is_num(i):
            k = pyval(i)
            if not isinstance(k, int) or not -len(v.items) <= k < len(v.items):
                I.raise_('IndexError', i)
            return I.resolve(v.items[k])
        return list_getitem(I, I.list_(v.items), idx)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, DictO):
            if o.label == 'defaultdict':
                d = dict_get(I, v, idx, UNDEF)
                return d
            return dict_get(I, v, idx)
        if isinstance(o, ListO):
            return list_getitem(I, v, idx)
        if isinstance(o, Arr):
            from . import libnp
            return libnp.arr_getitem(I, v, idx)
        if isinstance(o, (Frame, Dset)):
            from . import libpd
            return libpd.getitem(I, v, idx)
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__getitem__')
            if f is not None:
                return I.call(Bound(v, f), [idx], {})
            I.raise_('TypeError', const('not subscriptable'))
        if isinstance(o, Opaque):
            if 'getitem' in o.attrs:
                return o.attrs['getitem'](I, v, idx)
            if 'dict' in o.attrs:
                return getitem(I, o.attrs['dict'], idx)
            if 'items' in o.attrs:
                return getitem(I, Tup(o.attrs['items']), idx)
            if isinstance(idx, Slc):
                ln = NONE
                n = Opaque(o.cls, mk('slicelist', o.t, idx.a, idx.b, idx.c))
                if is_num(idx.a) and idx.a.args[0] < 0 and idx.b is NONE:
                    pass
                return I.new(n)
            return mk('item', o.t, I.term(idx))
        if isinstance(o, (NcFile, NcVar)):
            from . import libio
            return libio.nc_getitem(I, v, idx)
    if isinstance(v, T):
        if v.op == 'str':
            if isinstance(idx, Slc):
                f = lambda x: None if x is NONE else pyval(x)
                if all(x is NONE or is_num(x) for x in (idx.a, idx.b, idx.c)):
                    return const(v.args[0][f(idx.a):f(idx.b):f(idx.c)])
            elif is_num(I.scalar(idx)):
                try:
                    return const(v.args[0][pyval(I.scalar(idx))])
                except IndexError:
                    I.raise_('IndexError', NONE)
        if v.op == 'dict' or v.op in ('tuple', 'list'):
            its = list(v.args)
            i = I.scalar(idx)
            if v.op != 'dict' and is_num(i) and not any(a.op in ('guarded', 'genseg') for a in its):
                k = pyval(i)
                if -len(its) <= k < len(its):
                    return its[k]
        if v is NONE or v.op in ('num', 'true', 'false'):
            I.raise_('TypeError', const('not subscriptable'))
        if is_text(v):
            if isinstance(idx, Slc):
                return mk('strcall', 'slice', v, idx.a, idx.b, idx.c)
            return mk('strcall', 'item', v, I.scalar(idx))
        if is_arr(v):
            from . import libnp
            return libnp.arr_getitem(I, I.arr(v), idx)
        if isinstance(idx, Slc):
            return mk('slicelist', v, idx.a, idx.b, idx.c)
        if v.op == 'sym' and v.args[1] in ('int', 'num', 'date', 'inttext', 'numtext') or v.op in (
                'add', 'mul', 'numof'):
            if I.term(idx) in (ZERO, num(-1)):
                return v
            I.raise_('TypeError', const('not subscriptable'))
        return mk('item', v, I.term(idx))
    if isinstance(v, (Cls, Func, Ext)):
        return v          # typing subscripts
    raise I.Unmodelled('item of %r' % (v,), I.where())


def setitem(I, v, idx, x):
    v = I.resolve(v)
    idx = I.resolve(idx)
    if isinstance(v, Phi):
        return I.branch(v.c, lambda: setitem(I, v.a, idx, x), lambda: setitem(I, v.b, idx, x))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, DictO):
            return dict_set(I, v, idx, x)
        if isinstance(o, ListO):
            items = seq_items(I, v)
            if isinstance(idx, Slc):
                if idx.a is NONE and idx.b is NONE:
                    I.mut(v).segs = I.get(make_list(I, segments(I, x))).segs
                    return
                raise I.Unmodelled('slice assignment to a list', I.where())
            i = I.scalar(idx)
            if items is not None and is_num(i):
                k = pyval(i)
                if not -len(items) <= k < len(items):
                    I.raise_('IndexError', i)
                items[k] = x
                I.mut(v, 'list item').segs = [('v', y) for y in items]
                return
            if items is not None:
                items = [I.join_vals(cmp_('==', i, num(k)), x, y) for k, y in enumerate(items)]
                I.mut(v, 'list item').segs = [('v', y) for y in items]
                return
            segs = list(o.segs)
            if is_num(i) and i.args[0] in (0, -1) and segs:
                k = pyval(i)
                s = segs[k]
                if s[0] == 'v':
                    segs[k] = ('v', x)
                    I.mut(v).segs = segs
                    return
                if s[0] == 'gen' and s[3] is TRUE and isinstance(x, T):
                    at = ZERO if k == 0 else sub(s[1], ONE)
                    segs[k] = ('gen', s[1], s[2], TRUE, I.join_vals(cmp_('==', s[2], at), x, s[4]))
                    I.mut(v).segs = segs
                    return
            raise I.Unmodelled('item assignment to a list', I.where())
        if isinstance(o, Arr):
            from . import libnp
            return libnp.arr_setitem(I, v, idx, x)
        if isinstance(o, (Frame, Dset)):
            from . import libpd
            return libpd.setitem(I, v, idx, x)
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__setitem__')
            if f is not None:
                return I.call(Bound(v, f), [idx, x], {})
        if isinstance(o, (NcFile, NcVar)):
            from . import libio
            return libio.nc_setitem(I, v, idx, x)
        if isinstance(o, Opaque):
            if 'setitem' in o.attrs:
                return o.attrs['setitem'](I, v, idx, x)
            if 'dict' in o.attrs:
                return setitem(I, o.attrs['dict'], idx, x)
            I.unknown('item assignment to ' + o.cls)
            return
    if isinstance(v, T) or isinstance(v, Tup):
        I.raise_('TypeError', const('item assignment'))
    raise I.Unmodelled('item assignment to %r' % (v,), I.where())


def delitem(I, v, idx):
    v = I.resolve(v)
    if I.is_obj(v, DictO):
        k = key_of(I, idx)
        dict_get(I, v, idx)
        m = I.mut(v, 'dictionary entry')
        m.items.pop(k, None)
        m.guards.pop(k, None)
        return
    if I.is_obj(v, (Frame, Dset)):
        from . import libpd
        return libpd.delitem(I, v, idx)
    if I.is_obj(v, ListO):
        items = seq_items(I, v)
        i = I.scalar(idx) if not isinstance(idx, Slc) else None
        if items is not None and i is not None and is_num(i):
            del items[pyval(i)]
            I.mut(v).segs = [('v', y) for y in items]
            return
    raise I.Unmodelled('del of item', I.where())


def inplace(I, op, old, val, elem=False):
    old = I.resolve(old)
    if isinstance(old, Ref):
        o = I.get(old)
        if isinstance(o, Arr) and old.k != 'idx':
            t = I.tof(old)
            new = binop(I, op, old, val)
            if isinstance(new, Ref):
                nt = I.tof(new)
            else:
                nt = new
            if is_arr(t):
                if elem:
                    # x[i] op= v : item assignment writes it back
                    return new
                I.setarr(old, nt if is_arr(nt) else ops.full(length(t), nt))
                return None
            return new
        if isinstance(o, ListO) and op == 'Add':
            m = I.mut(old, 'list')
            m.segs = m.segs + I.get(make_list(I, segments(I, val))).segs
            return None
        if isinstance(o, ListO) and o.kind == 'set':
            r = setop(I, op, old, val)
            I.mut(old).segs = I.get(r).segs
            return None
        if isinstance(o, DictO) and op == 'BitOr':
            dict_update(I, old, val)
            return None
    return binop(I, op, old, val)


# ---------------------------------------------------------------- attributes
def attr(I, v, name):
    if isinstance(v, T):
        if is_text(v) or v.op in ('str',):
            return Meth(v, name)
        from . import libpd
        return libpd.scalar_attr(I, v, name)
    if isinstance(v, (Tup, Slc)):
        if isinstance(v, Slc) and name in ('start', 'stop', 'step'):
            return {'start': v.a, 'stop': v.b, 'step': v.c}[name]
        return Meth(v, name)
    if isinstance(v, Func):
        if name == '__name__':
            return const(v.name)
        if name == '__doc__':
            return sym('doc', 'text')
        if name == 'py_func':
            return v
        return Meth(v, name)
    if isinstance(v, Bound):
        if name == '__name__':
            return const(v.fn.name)
        if name == '__self__':
            return v.obj
        if name == '__func__':
            return v.fn
        return Meth(v, name)
    if isinstance(v, Native) or isinstance(v, Meth):
        return Meth(v, name)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, (ListO, DictO)):
            return Meth(v, name)
        if isinstance(o, (Arr, Frame, Dset)):
            from . import libpd
            return libpd.attr(I, v, name)
        if isinstance(o, (NcFile, NcVar)):
            from . import libio
            return libio.nc_attr(I, v, name)
        if isinstance(o, Opaque):
            if name in o.attrs and not name in ('items', 'len', 'segments', 'getitem', 'setitem', 'in', 'dict',
                                                'call'):
                return I.resolve(o.attrs[name])
            if 'getattr' in o.attrs:
                r = o.attrs['getattr'](I, v, name)
                if r is not None:
                    return r
            return Meth(v, name)
    raise I.Unmodelled('attribute %s of %r' % (name, v), I.where())


def set_attr(I, v, name, x):
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, (Arr, Frame, Dset)):
            from . import libpd
            return libpd.set_attr(I, v, name, x)
        if isinstance(o, (NcFile, NcVar)):
            from . import libio
            return libio.nc_set_attr(I, v, name, x)
        if isinstance(o, Opaque):
            I.mut(v).attrs[name] = x
            return
    if isinstance(v, Ext):
        I.event('extset', path=v.path, name=name, value=I.term(x))
        return
    if isinstance(v, (Func, Bound, Native)):
        return
    raise I.Unmodelled('attribute assignment to %r' % (v,), I.where())


# -------------------------------------------------------------------- calls
def call_ext(I, path, args, kw, node):
    from . import libnp, libpd, libio
    if any(isinstance(a, tuple) for a in args):
        args2 = []
        for a in args:
            if isinstance(a, tuple):
                if path in ('itertools.product', 'builtins.zip', 'itertools.chain', 'os.path.join'):
                    return star_call(I, path, a[1], args, kw)
                raise I.Unmodelled('star argument of ' + path, I.where())
            args2.append(a)
    for table in (TABLE, libnp.TABLE, libpd.TABLE, libio.TABLE):
        f = table.get(path)
        if f is not None:
            return f(I, args, kw, node)
    for fam in (libnp.family, libpd.family, libio.family):
        r = fam(I, path, args, kw, node)
        if r is not None:
            return r
    base = path.split('.')[-1]
    if base in BUILTIN_EXC or base.endswith('Error') or base.endswith('Exception') or base.endswith('Warning'):
        return I.new(Opaque('builtins.' + base, mk('excval', base), {'msg': I.term(args[0]) if args else NONE,
                                                                     'args': Tup(args)}))
    return opaque_call(I, mk('ext', path), args, kw)


def opaque_call(I, f, args, kw):
    ts = [I.term(a) for a in args] + [mk('pair', const(k), I.term(v)) for k, v in kw.items()]
    I.unknown('call of %r' % (f,))
    t = mk('call', f, *ts)
    return I.new(Opaque('?', t))


def star_call(I, path, v, args, kw):
    segs = segments(I, v)
    raise I.Unmodelled('star argument of ' + path, I.where())


def call_obj(I, f, args, kw, node):
    o = I.get(f)
    if isinstance(o, Opaque):
        if 'call' in o.attrs:
            return o.attrs['call'](I, args, kw, node)
        if o.cls == 'interp':
            from . import libnp
            return libnp.call_interp(I, o, args)
        if o.cls in ('progressbar', '?', 'progress'):
            return opaque_quiet(I, o.t, args)
    if isinstance(o, DictO) or isinstance(o, ListO) or isinstance(o, Arr):
        I.raise_('TypeError', const('not callable'))
    return opaque_call(I, mk('call', I.term(f)), args, kw)


def opaque_quiet(I, f, args):
    return I.new(Opaque('?', mk('call', f, *[I.term(a) for a in args])))


def call_method(I, obj, name, args, kw, node):
    obj = I.resolve(obj)
    if isinstance(obj, T) and is_text(obj):
        return text_method(I, obj, name, args, kw, node)
    if isinstance(obj, Tup):
        if name == 'index':
            for k, x in enumerate(obj.items):
                if I.decide(I.truth(equal_values(I, x, args[0]))) is True:
                    return num(k)
        if name == 'count':
            return add(*[ite(I.truth(equal_values(I, x, args[0])), ONE, ZERO) for x in obj.items])
    if isinstance(obj, Cls):
        if name == '__new__':
            return I.new(Inst(args[0] if args else obj))
        if name in ('mro', '__subclasses__'):
            return I.list_([obj])
        return opaque_call(I, mk('meth', I.term(obj), name), args, kw)
    if isinstance(obj, Ref):
        o = I.get(obj)
        if isinstance(o, DictO):
            return dict_method(I, obj, name, args, kw)
        if isinstance(o, ListO):
            return list_method(I, obj, name, args, kw)
        if isinstance(o, (Arr, Frame, Dset)):
            from . import libpd
            return libpd.method(I, obj, name, args, kw, node)
        if isinstance(o, (NcFile, NcVar)):
            from . import libio
            return libio.nc_method(I, obj, name, args, kw)
        if isinstance(o, Opaque):
            from . import libio
            return libio.obj_method(I, obj, name, args, kw, node)
    if isinstance(obj, T):
        from . import libpd
        return libpd.scalar_method(I, obj, name, args, kw)
    if isinstance(obj, Native) and 'super' in obj.name:
        return NONE
    if isinstance(obj, Func) and name == 'delayed_call':
        pass
    return opaque_call(I, mk('meth', I.term(obj), name), args, kw)


def dict_method(I, r, name, args, kw):
    o = I.get(r)
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return I.resolve(dict_get(I, r, args[0], d))
    if name == 'keys':
        return make_list(I, segments(I, r), 'keys')
    if name in ('values', 'items'):
        out = []
        for e in dict_entries(I, r):
            if e[0] == 'v':
                x = e[3] if name == 'values' else Tup((e[2] if isinstance(e[2], (T, Val)) else e[2], e[3]))
                d = I.decide(e[1])
                if d is True:
                    out.append(('v', x))
                elif d is None:
                    out.append(('g', e[1], x))
            elif e[0] == 'gen':
                x = e[5] if name == 'values' else Tup((e[4], e[5]))
                out.append(('gen', e[1], e[2], e[3], x))
        l = I.list_((), name)
        if o.opaque is not None:
            i = mk('i', ops.fresh())
            n = mk('len', o.opaque)
            ops.UPPER[i] = n
            k, v = mk('gkey', o.opaque, i), mk('item', o.opaque, mk('gkey', o.opaque, i))
            out.append(('gen', n, i, TRUE, v if name == 'values' else Tup((k, v))))
        I.mut(l).segs = out
        return l
    if name == 'update':
        for a in args:
            dict_update(I, r, a)
        for k, v in kw.items():
            dict_set(I, r, const(k), v)
        return NONE
    if name == 'copy':
        return I.copy_obj(r)
    if name == 'pop':
        v = dict_get(I, r, args[0], args[1] if len(args) > 1 else None)
        m = I.mut(r, 'dictionary entry')
        k = key_of(I, args[0])
        m.items.pop(k, None)
        m.guards.pop(k, None)
        return v
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        p, v = dict_lookup(I, r, args[0])
        dd = I.decide(p)
        if dd is True:
            return v
        x = d if dd is False else I.join_vals(p, v, d)
        dict_set(I, r, args[0], x)
        return x
    if name == 'clear':
        m = I.mut(r, 'dictionary')
        m.items, m.more, m.guards, m.opaque = {}, [], {}, None
        return NONE
    if name == 'move_to_end':
        return NONE
    if name == '__contains__':
        return dict_has(I, r, args[0])
    if name == '__getitem__':
        return dict_get(I, r, args[0])
    if name == 'fromkeys':
        d = I.dict_()
        for x in seq_items(I, args[0]):
            dict_set(I, d, x, args[1] if len(args) > 1 else NONE)
        return d
    if name == 'popitem':
        k = list(o.items)[-1]
        m = I.mut(r)
        v = m.items.pop(k)
        return Tup((k, v))
    I.raise_('AttributeError', const(name))


def list_method(I, r, name, args, kw):
    o = I.get(r)
    if name in ('append', 'add'):
        m = I.mut(r, 'list')
        if o.kind == 'set' and any(s[0] == 'v' and s[1] == args[0] for s in m.segs):
            return NONE
        m.segs = m.segs + [('v', args[0])]
        return NONE
    if name in ('extend', 'update'):
        new = make_list(I, segments(I, args[0]))
        m = I.mut(r, 'list')
        m.segs = m.segs + I.get(new).segs
        return NONE
    if name == 'insert':
        i = I.scalar(args[0])
        if i is ZERO:
            m = I.mut(r, 'list')
            m.segs = [('v', args[1])] + m.segs
            return NONE
        items = seq_items(I, r)
        if items is not None and is_num(i):
            items.insert(pyval(i), args[1])
            I.mut(r, 'list').segs = [('v', x) for x in items]
            return NONE
    if name == 'copy':
        return I.list_copy(r)
    if name == 'pop':
        i = I.scalar(args[0]) if args else num(-1)
        v = list_getitem(I, r, i)
        items = seq_items(I, r)
        if items is not None and is_num(i):
            items.pop(pyval(i))
            I.mut(r, 'list').segs = [('v', x) for x in items]
            return v
        if i is num(-1) and o.segs and o.segs[-1][0] == 'v':
            I.mut(r, 'list').segs = o.segs[:-1]
            return v
        raise I.Unmodelled('list pop', I.where())
    if name == 'index':
        items = seq_items(I, r)
        if items is not None:
            for k, x in enumerate(items):
                if I.decide(I.truth(equal_values(I, x, args[0]))) is True:
                    return num(k)
        return mk('indexof', I.term(r), I.term(args[0]))
    if name == 'sort':
        l = do_sorted(I, [r], kw)
        I.mut(r, 'list').segs = I.get(l).segs
        return NONE
    if name == 'reverse':
        items = seq_items(I, r)
        if items is not None:
            I.mut(r, 'list').segs = [('v', x) for x in reversed(items)]
            return NONE
    if name in ('remove', 'discard'):
        items = seq_items(I, r)
        if items is not None:
            for k, x in enumerate(items):
                if I.decide(I.truth(equal_values(I, x, args[0]))) is True:
                    del items[k]
                    break
            else:
                if name == 'remove':
                    I.raise_('ValueError', NONE)
            I.mut(r, 'list').segs = [('v', x) for x in items]
            return NONE
    if name == 'clear':
        I.mut(r, 'list').segs = []
        return NONE
    if name == 'count':
        items = seq_items(I, r)
        if items is not None:
            return add(ZERO, *[ite(I.truth(equal_values(I, x, args[0])), ONE, ZERO) for x in items])
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        return setop(I, {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub',
                         'symmetric_difference': 'BitXor'}[name], r, args[0])
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        xs, ys = seq_items(I, r), seq_items(I, args[0])
        if xs is not None and ys is not None:
            if name == 'issubset':
                return boolT(all(x in ys for x in xs))
            if name == 'issuperset':
                return boolT(all(x in xs for x in ys))
            return boolT(not any(x in ys for x in xs))
        return mk('truth', mk('strcall', name, I.term(r), I.term(args[0])))
    if name == '__contains__':
        return contains(I, r, args[0])
    if name == 'send' or name == 'close':
        return NONE
    if name == 'mapping':
        return r
    if name == '__next__':
        return list_getitem(I, r, ZERO)
    raise I.Unmodelled('list method ' + name, I.where())


def do_sorted(I, args, kw):
    items = seq_items(I, args[0])
    rev = kw.get('reverse', FALSE)
    if items is not None and 'key' not in kw and all(isinstance(x, T) and is_const(x) for x in items):
        try:
            s = sorted(items, key=lambda x: pyval(x), reverse=rev is TRUE)
            return I.list_(s)
        except TypeError:
            pass
    if items is not None and len(items) <= 1:
        return I.list_(items)
    if items is not None and 'key' in kw:
        ks = [I.call(kw['key'], [x], {}) for x in items]
        if all(isinstance(k, T) and is_const(k) for k in ks):
            s = [x for _, x in sorted(zip(ks, items), key=lambda p: pyval(p[0]), reverse=rev is TRUE)]
            return I.list_(s)
    if isinstance(args[0], Ref) and isinstance(I.get(args[0]), Arr):
        return I.arr(mk('sorted', I.tof(args[0])))
    return I.new(Opaque('sorted', mk('sortedlist', I.term(args[0]), I.term(rev))))


# -------------------------------------------------------------- builtins
def b_len(I, a, kw, node):
    return len_(I, a[0])


def b_int(I, a, kw, node):
    if not a:
        return ZERO
    return numof(I, a[0], 'int')


def b_float(I, a, kw, node):
    if not a:
        return ZERO
    return numof(I, a[0], 'float')


def b_str(I, a, kw, node):
    if not a:
        return const('')
    v = I.resolve(a[0])
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: b_str(I, [v.a], kw, node), lambda: b_str(I, [v.b], kw, node))
    t = I.term(v)
    if is_text(t):
        return t
    if t.op == 'ite' and not is_arr(t):
        return ite(t.args[0], b_str(I, [t.args[1]], kw, node), b_str(I, [t.args[2]], kw, node))
    if is_const(t):
        if t.op == 'num' and t.args[0].denominator == 1:
            return const(str(pyval(t)))
        if t.op == 'num':
            return const(repr(pyval(t)))
        return const(str(pyval(t)))
    return mk('fmt', mk('fv', t, const('')))


def b_bool(I, a, kw, node):
    return I.truth(a[0]) if a else FALSE


def b_list(I, a, kw, node, kind_='list'):
    if not a:
        return I.list_((), kind_)
    r = make_list(I, segments(I, a[0]), kind_)
    if kind_ == 'set':
        o = I.mut(r)
        out = []
        for s in o.segs:
            if s not in out:
                out.append(s)
        o.segs = out
    return r


def b_tuple(I, a, kw, node):
    if not a:
        return Tup(())
    items = seq_items(I, a[0])
    if items is not None:
        return Tup(items)
    return make_list(I, segments(I, a[0]), 'tuple')


def b_dict(I, a, kw, node):
    r = I.dict_()
    if a:
        dict_update(I, r, a[0])
    for k, v in kw.items():
        dict_set(I, r, const(k), v)
    return r


def b_range(I, a, kw, node):
    xs = [numof_strict(I, x) for x in a]
    lo, hi, st = ZERO, None, ONE
    if len(xs) == 1:
        hi = xs[0]
    elif len(xs) >= 2:
        lo, hi = xs[0], xs[1]
        if len(xs) == 3:
            st = xs[2]
    if is_num(lo) and is_num(hi) and is_num(st):
        vals = range(int(lo.args[0]), int(hi.args[0]), int(st.args[0]))
        if len(vals) <= I.UNROLL:
            return I.list_([num(x) for x in vals], 'range')
        n = num(len(vals))
    else:
        n = canon(div(sub(hi, lo), st))
        if not is_int(n):
            n = fn('ceil', n)
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    r = I.list_((), 'range')
    I.mut(r).segs = [('gen', n, i, TRUE, add(lo, mul(i, st)))]
    return r


def numof_strict(I, v):
    v = arith(I, v)
    if v is None:
        I.raise_('TypeError', const('range'))
    return v


def b_enumerate(I, a, kw, node):
    st = I.scalar(a[1]) if len(a) > 1 else I.scalar(kw.get('start', ZERO))
    items = seq_items(I, a[0])
    if items is not None:
        return I.list_([Tup((add(st, num(k)), x)) for k, x in enumerate(items)])
    segs = segments(I, a[0])
    out, pos = [], st
    for s in segs:
        if s[0] == 'v':
            out.append(('v', Tup((pos, s[1]))))
            pos = add(pos, ONE)
        elif s[0] == 'g':
            out.append(('g', s[1], Tup((pos, s[2]))))
            pos = add(pos, ite(s[1], ONE, ZERO))
        else:
            if s[3] is not None:
                raise I.Unmodelled('enumerate of a filtered sequence', I.where())
            i = mk('i', ops.fresh())
            ops.UPPER[i] = s[1]
            out.append(('gen', s[1], i, TRUE, Tup((add(pos, i), s[2](i)))))
            pos = add(pos, s[1])
    r = I.list_()
    I.mut(r).segs = out
    return r


def b_zip(I, a, kw, node):
    if not a:
        return I.list_()
    lists = [seq_items(I, x) for x in a]
    if all(l is not None for l in lists):
        return I.list_([Tup(t) for t in zip(*lists)])
    known = [len(l) for l in lists if l is not None]
    if known:
        n = min(known)
        cols = [l if l is not None else seq_items(I, x, n) for l, x in zip(lists, a)]
        if all(c is not None for c in cols):
            return I.list_([Tup([c[k] for c in cols]) for k in range(n)])
    gens = []
    for x in a:
        s = segments(I, x)
        if len(s) != 1 or s[0][0] != 'gen' or s[0][3] is not None:
            raise I.Unmodelled('zip of irregular sequences', I.where())
        gens.append(s[0])
    n = gens[0][1]
    for g in gens[1:]:
        if not equal(g[1], n):
            n = min_(n, g[1])
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    r = I.list_()
    I.mut(r).segs = [('gen', n, i, TRUE, Tup([g[2](i) for g in gens]))]
    return r


def b_map(I, a, kw, node):
    f = a[0]
    src = b_zip(I, a[1:], {}, node) if len(a) > 2 else a[1]
    r = I.list_((), 'gen')

    def one(x):
        args = list(x.items) if len(a) > 2 else [x]
        v = I.call(f, args, {})
        I.mut(r).segs = I.get(r).segs + [('v', v)]
    if isinstance(src, Ref) and I.is_obj(src, Opaque) and seq_items(I, src) is None and 'segments' not in \
            I.get(src).attrs:
        o = I.get(src)
        # elements of a list of unknown length: keep it lazily mapped
        return I.new(Opaque('maplist', mk('maplist', I.term(f), o.t), {
            'getitem': lambda I2, v, i: I2.call(f, [getitem(I2, src, i)], {})}))
    I.for_loop(segments(I, src), one, lambda: None)
    return r


def b_filter(I, a, kw, node):
    r = I.list_((), 'gen')

    def one(x):
        c = I.truth(x) if a[0] is NONE else I.truth(I.call(a[0], [x], {}))
        I.branch(c, lambda: setattr(I.mut(r), 'segs', I.get(r).segs + [('v', x)]), lambda: None)
    I.for_loop(segments(I, a[1]), one, lambda: None)
    return r


def b_reversed(I, a, kw, node):
    items = seq_items(I, a[0])
    if items is not None:
        return I.list_(list(reversed(items)))
    g = as_gen(I, a[0])
    if g is not None:
        n, make = g
        i = mk('i', ops.fresh())
        ops.UPPER[i] = n
        r = I.list_()
        I.mut(r).segs = [('gen', n, i, TRUE, make(sub(sub(n, ONE), i)))]
        return r
    t = I.term(a[0])
    return I.new(Opaque('reversed', mk('reversed', t), {
        'getitem': lambda I2, v, i: getitem(I2, a[0], sub(num(-1), I2.scalar(i)))}))


def minmax(op):
    def f(I, a, kw, node):
        if len(a) == 1:
            items = seq_items(I, a[0])
            if items is None:
                g = as_gen(I, a[0])
                if g is not None:
                    i = mk('i', ops.fresh())
                    h, e = bind(i, I.term(g[1](i)))
                    return mk(op + 'L', g[0], h, e)
                return mk(op + 'of', I.term(a[0]))
            if not items:
                if 'default' in kw:
                    return kw['default']
                I.raise_('ValueError', NONE)
            a = items
        ts = [I.resolve(x) for x in a]
        if all(isinstance(x, T) and is_text(x) for x in ts):
            if all(x.op == 'str' for x in ts):
                return const((min if op == 'min' else max)(x.args[0] for x in ts))
            return mk(op + 'of', *ts)
        ts = [arith(I, x) for x in ts]
        if any(x is None for x in ts):
            return mk(op + 'of', *[I.term(x) for x in a])
        return (min_ if op == 'min' else max_)(*ts)
    return f


def b_sum(I, a, kw, node):
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    if isinstance(a[0], Ref) and isinstance(I.get(a[0]), Arr):
        return add(I.term(start), ops.total(I.tof(a[0])))
    box = [start]
    items = seq_items(I, a[0])
    if items is not None:
        for x in items:
            box[0] = binop(I, 'Add', box[0], x)
        return box[0]
    t = I.term(start)
    for s in segments(I, a[0]):
        if s[0] == 'v':
            t = add(t, arith(I, s[1]))
        elif s[0] == 'g':
            t = add(t, ite(s[1], arith(I, s[2]), ZERO))
        else:
            i = mk('i', ops.fresh())
            ops.UPPER[i] = s[1]
            e = arith(I, s[2](i))
            if s[3] is not None:
                e = ite(s[3](i), e, ZERO)
            t = add(t, canon(sum_over(s[1], i, e)))
    return t


def b_abs(I, a, kw, node):
    return wrap(I, fn('abs', arith(I, a[0])), a[0])


def b_round(I, a, kw, node):
    x = arith(I, a[0])
    if len(a) == 1 and is_num(x):
        return num(round(x.args[0]))
    if len(a) == 1:
        return fn('rint', x)
    return mk('fext', 'round', x, I.term(a[1]))


TYPE_KIND = {'str': 'text', 'int': 'int', 'float': 'num', 'bool': 'bool', 'dict': 'dict', 'list': 'list',
             'tuple': 'tuple'}


def isinstance_(I, v, c):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return ite(v.c, isinstance_(I, v.a, c), isinstance_(I, v.b, c))
    if isinstance(c, Tup):
        return or_(*[isinstance_(I, v, x) for x in c.items])
    if isinstance(v, T) and v.op == 'ite' and not is_arr(v):
        return ite(v.args[0], isinstance_(I, v.args[1], c), isinstance_(I, v.args[2], c))
    if isinstance(c, Cls):
        if I.is_obj(v, Inst):
            return boolT(subclass(I.get(v).cls, c))
        return FALSE
    p = c.path if isinstance(c, Ext) else '?'
    b = p.split('.')[-1]
    if p == 'builtins.object':
        return TRUE
    if p == 'builtins.type':
        return boolT(isinstance(v, Cls))
    if isinstance(v, T):
        if is_text(v):
            return boolT(p == 'builtins.str' or b in ('Iterable', 'Sequence', 'Sized', 'Container', 'Collection',
                                                      'Hashable', 'basestring'))
        if v is NONE:
            return boolT(b == 'NoneType')
        if v in (TRUE, FALSE) or kind(v) == 'bool':
            return boolT(b in ('bool', 'int', 'Integral', 'Number', 'bool_', 'Hashable'))
        k = v.args[1] if v.op == 'sym' else None
        if k == 'date' or v.op in ('date', 'timestamp', 'todatetime') or is_date(v):
            return boolT(b in ('datetime', 'date', 'Timestamp') and not (b == 'Timestamp' and k == 'date')
                         or b == 'Hashable')
        if k == 'plaindate':
            return boolT(b in ('date', 'Hashable'))
        if v.op == 'num':
            if b in ('int', 'Integral'):
                return boolT(v.args[0].denominator == 1)
            if b in ('float',):
                return boolT(v.args[0].denominator != 1)
            return boolT(b in ('Number', 'Real', 'Hashable'))
        if b in ('str', 'dict', 'list', 'tuple', 'datetime', 'date', 'Series', 'DataFrame', 'Dataset', 'DataArray',
                 'ndarray', 'CFTimeIndex', 'Mapping'):
            if k in ('num', 'int') or v.op in ('add', 'mul', 'pow', 'f', 'numof', 'len', 'getitem', 'var', 'isel',
                                               'sum', 'min', 'max'):
                return FALSE
        if b in ('Iterable', 'Sequence', 'Collection', 'Sized') and (
                k in ('num', 'int') or v.op in ('add', 'mul', 'pow', 'f', 'numof', 'len')):
            return FALSE
        if b in ('int', 'Integral') and (k == 'int' or v.op == 'numof'):
            return boolT(is_int(v))
        if b in ('float', 'Number', 'Real') and (k in ('num', 'int') or v.op == 'numof'):
            return boolT(b != 'float' or not is_int(v))
        return mk('isinstance', v, const(p))
    if isinstance(v, Tup):
        return boolT(b in ('tuple', 'Iterable', 'Sequence', 'Sized', 'Collection', 'Container', 'Hashable'))
    if isinstance(v, Slc):
        return boolT(b == 'slice')
    if isinstance(v, (Func, Bound, Native)):
        return boolT(b in ('Callable', 'FunctionType', 'MethodType', 'Hashable'))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, DictO):
            if b == 'OrderedDict':
                return mk('isinstance', mk('obj', v.a), const(p)) if False else boolT(bool(getattr(o, 'ordered', 0)))
            return boolT(b in ('dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container'))
        if isinstance(o, ListO):
            k = {'gen': ('Iterator', 'Generator'), 'tuple': ('tuple', 'Sequence', 'Hashable'), 'set': ('set', 'Set'),
                 }.get(o.kind, (o.kind, 'Sequence', 'MutableSequence'))
            return boolT(b in k + ('Iterable', 'Sized', 'Collection', 'Container'))
        if isinstance(o, Arr):
            n = {'ser': ('Series',), 'idx': ('DatetimeIndex', 'Index'), 'da': ('DataArray',), 'nd': ('ndarray',)}
            if b == 'CFTimeIndex' and v.k == 'idx':
                return mk('isinstance', I.tof(v), const('CFTimeIndex'))
            if v.k == 'nd' and not is_arr(I.tof(v)) and b in ('ndarray',):
                return TRUE
            return boolT(b in n.get(v.k or 'nd', ()) + ('Iterable', 'Sized', 'Container', 'Collection'))
        if isinstance(o, Frame):
            return boolT(b in ('DataFrame', 'Iterable', 'Sized', 'Container'))
        if isinstance(o, Dset):
            return boolT(b in ('Dataset', 'Mapping', 'Iterable', 'Sized', 'Container'))
        if isinstance(o, Inst):
            for bb in o.cls.bases:
                if isinstance(bb, Ext) and bb.path == p:
                    return TRUE
            return boolT(b in ('Iterable', 'Sized') and I.find_attr(
                o.cls, '__iter__' if b == 'Iterable' else '__len__') is not None)
        if isinstance(o, Opaque):
            if o.cls == p or o.cls.split('.')[-1] == b:
                return TRUE
            if o.cls in ('splitlist', 'slice', 'sorted', 'maplist'):
                return boolT(b in ('list', 'Iterable', 'Sequence'))
            return mk('isinstance', o.t, const(p))
    return FALSE


def is_date(t):
    if t.op == 'add':
        return any(is_date(a) for a in t.args)
    if t.op == 'getitem':
        return t.args[0].op in ('var', 'tsel', 'roundT', 'drange') and ops.is_time(t.args[0]) or t.args[0].op == 'drange'
    if t.op == 'sym':
        return t.args[1] == 'date'
    return t.op in ('date', 'timestamp', 'todatetime')


def subclass(c, d):
    if c is d or c.a == d.a:
        return True
    return any(isinstance(b, Cls) and subclass(b, d) for b in c.bases)


def b_isinstance(I, a, kw, node):
    return isinstance_(I, a[0], a[1])


def b_getattr(I, a, kw, node):
    n = I.term(a[1])
    if not is_str(n):
        return I.new(Opaque('?', mk('getattr', I.term(a[0]), n)))
    v = I.resolve(a[0])
    if len(a) > 2:
        h = has_attr(I, v, n.args[0])
        if h is False:
            return a[2]
        if h is None:
            return I.choose(mk('has', I.term(v), n), lambda: I.getattr(v, n.args[0]), lambda: a[2])
    return I.getattr(v, n.args[0])


def has_attr(I, v, name):
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Inst):
            if name in o.attrs:
                return True if not isinstance(o.attrs[name], Phi) else None
            return I.find_attr(o.cls, name) is not None
        if isinstance(o, Opaque):
            return True if name in o.attrs else None
        if isinstance(o, Arr):
            return name in ('values', 'dims', 'coords', 'attrs', 'encoding', 'shape', 'dtype', 'sel', 'isel')
    if isinstance(v, T):
        if is_const(v):
            return hasattr(pyval(v), name)
        if is_text(v):
            return hasattr('', name)
        return None
    if isinstance(v, (Cls,)):
        return I.find_attr(v, name) is not None
    if isinstance(v, Mod):
        return I.mod_attr(v.name, name) is not None
    return None


def b_setattr(I, a, kw, node):
    n = I.term(a[1])
    v = I.resolve(a[0])
    if is_str(n):
        I.setattr(v, n.args[0], a[2])
        return NONE
    if I.is_obj(v, (NcFile, NcVar)):
        from . import libio
        libio.nc_set_attr(I, v, n, a[2])
        return NONE
    if I.is_obj(v, Inst):
        raise I.Unmodelled('setattr with a computed name', I.where())
    return NONE


def b_hasattr(I, a, kw, node):
    n = I.term(a[1])
    h = has_attr(I, I.resolve(a[0]), n.args[0]) if is_str(n) else None
    if h is None:
        return mk('has', I.term(a[0]), n)
    return boolT(h)


def b_slice(I, a, kw, node):
    xs = [I.scalar(I.resolve(x)) for x in a]
    if len(xs) == 1:
        return Slc(NONE, xs[0])
    return Slc(*xs)


def b_type(I, a, kw, node):
    v = I.resolve(a[0])
    if I.is_obj(v, Inst):
        return I.get(v).cls
    if isinstance(v, T):
        if is_text(v):
            return Ext('builtins.str')
        if v in (TRUE, FALSE) or kind(v) == 'bool':
            return Ext('builtins.bool')
        if v.op == 'num':
            return Ext('builtins.int' if v.args[0].denominator == 1 else 'builtins.float')
    if I.is_obj(v, DictO):
        return Ext('builtins.dict')
    if I.is_obj(v, ListO):
        return Ext('builtins.' + I.get(v).kind)
    return I.new(Opaque('?', mk('typeof', I.term(v))))


def b_any(op):
    def f(I, a, kw, node):
        v = I.resolve(a[0])
        if isinstance(v, Ref) and isinstance(I.get(v), Arr):
            t = I.tof(v)
            return mk('anyof', t) if op == 'any' else not_(mk('anyof', not_(t)))
        out = []
        for s in segments(I, v):
            if s[0] == 'v':
                out.append(I.truth(s[1]))
            elif s[0] == 'g':
                c = I.truth(s[2])
                out.append(and_(s[1], c) if op == 'any' else or_(not_(s[1]), c))
            else:
                i = mk('i', ops.fresh())
                ops.UPPER[i] = s[1]
                c = I.truth(s[2](i))
                g = s[3](i) if s[3] else TRUE
                if op == 'any':
                    h, e = bind(i, and_(g, c))
                    out.append(mk('any', s[1], h, e))
                else:
                    h, e = bind(i, and_(g, not_(c)))
                    out.append(not_(mk('any', s[1], h, e)))
        return (or_ if op == 'any' else and_)(*out)
    return f


def b_iter(I, a, kw, node):
    v = I.resolve(a[0])
    items = seq_items(I, v)
    r = make_list(I, segments(I, v), 'gen') if not I.is_obj(v, Opaque) else v
    return r


def b_next(I, a, kw, node):
    v = I.resolve(a[0])
    if I.is_obj(v, ListO):
        segs = I.get(v).segs
        if not segs:
            if len(a) > 1:
                return a[1]
            I.raise_('StopIteration')
        if segs[0][0] == 'v':
            x = segs[0][1]
            I.mut(v).segs = segs[1:]
            return x
        if segs[0][0] == 'g':
            # first of guarded items
            val = a[1] if len(a) > 1 else UNDEF
            for s in reversed(segs):
                if s[0] == 'v':
                    val = s[1]
                elif s[0] == 'g':
                    val = s[2] if val is UNDEF else I.join_vals(s[1], s[2], val)
            return val
        if segs[0][0] == 'gen':
            s = segs[0]
            if s[3] is TRUE:
                return I.vsubst(s[4], {s[2]: ZERO})
            h, g, e = bind(s[2], s[3], I.term(s[4]))
            return mk('first', s[1], h, g, e)
    if I.is_obj(v, Opaque):
        o = I.get(v)
        if 'next' in o.attrs:
            return o.attrs['next']
        return getitem(I, v, ZERO)
    return getitem(I, v, ZERO)


def b_super(I, a, kw, node):
    fr = I.frames[-1]
    c = fr.fn.cls if fr.fn else None
    obj = None
    if fr.fn is not None and fr.fn.node.args.args:
        obj = I.lookup(fr.fn.node.args.args[0].arg)
    return I.new(Opaque('super', mk('super'), {'getattr': lambda I2, v, name: super_attr(I2, c, obj, name)}))


def super_attr(I, c, obj, name):
    for b in (c.bases if c else ()):
        if isinstance(b, Cls):
            f = I.find_attr(b, name)
            if f is not None:
                return Bound(obj, f) if isinstance(f, Func) else f
    return Native('super.' + name, lambda I2, a, kw, node: NONE)


def b_divmod(I, a, kw, node):
    return Tup((binop(I, 'FloorDiv', a[0], a[1]), binop(I, 'Mod', a[0], a[1])))


def b_pow(I, a, kw, node):
    return binop(I, 'Pow', a[0], a[1])


def b_callable(I, a, kw, node):
    v = I.resolve(a[0])
    return boolT(isinstance(v, (Func, Bound, Native, Cls, Ext, Meth)))


def b_none(I, a, kw, node):
    return NONE


def b_repr(I, a, kw, node):
    return mk('repr', I.term(a[0]))


def b_format(I, a, kw, node):
    return fmt_value(I, a[0], I.term(a[1]) if len(a) > 1 else NONE)


def b_exit(I, a, kw, node):
    I.event('exit', status=I.term(a[0]) if a else ZERO)
    I.raise_('SystemExit', I.term(a[0]) if a else NONE)


def product(I, a, kw, node):
    rep = kw.get('repeat')
    if rep is not None:
        raise I.Unmodelled('product repeat', I.where())
    lists = [seq_items(I, x) for x in a]
    if all(l is not None for l in lists):
        import itertools
        tot = 1
        for l in lists:
            tot *= max(1, len(l))
        if tot <= 4096:
            return I.list_([Tup(t) for t in itertools.product(*lists)], 'gen')
    gens = []
    for l, x in zip(lists, a):
        if l is not None:
            if len(l) == 1:
                gens.append((ONE, lambda i, y=l[0]: y))
                continue
            gens.append((num(len(l)), lambda i, l=l: list_getitem(I, I.list_(l), i)))
        else:
            g = as_gen(I, x)
            if g is None:
                raise I.Unmodelled('product of irregular sequences', I.where())
            gens.append(g)
    n = mul(*[g[0] for g in gens])
    p = mk('i', ops.fresh())
    ops.UPPER[p] = n
    live = [g for g in gens if g[0] is not ONE]
    idx, k = [], 0
    for g in gens:
        if g[0] is ONE:
            idx.append(ZERO)
        elif len(live) == 1:
            idx.append(p)
        else:
            q = mk('pi', p, k, g[0], mul(*([x[0] for x in live[k + 1:]] or [ONE])))
            ops.UPPER[q] = g[0]
            idx.append(q)
            k += 1
    r = I.list_((), 'gen')
    I.mut(r).segs = [('gen', n, p, TRUE, Tup([g[1](q) for g, q in zip(gens, idx)]))]
    return r


def chain(I, a, kw, node):
    r = I.list_((), 'gen')
    out = []
    for x in a:
        out.extend(I.get(make_list(I, segments(I, x))).segs)
    I.mut(r).segs = out
    return r


def json_loads(I, a, kw, node):
    t = I.term(a[0])
    if t.op == 'str':
        try:
            return from_py(I, _json.loads(t.args[0]))
        except ValueError:
            I.raise_('ValueError', NONE)
    return I.new(Opaque('json', mk('json', t)))


def json_dumps(I, a, kw, node):
    return mk('strcall', 'json', I.term(a[0]))


def copy_(I, a, kw, node):
    v = I.resolve(a[0])
    if isinstance(v, Ref):
        return I.copy_obj(v)
    return v


def deepcopy(I, a, kw, node):
    return I.deep_copy(I.resolve(a[0]), {})


def partial(I, a, kw, node):
    f, pre = a[0], list(a[1:])
    return Native('partial', lambda I2, b, kw2, n2: I2.call(f, pre + list(b), {**kw, **kw2}))


def reduce_(I, a, kw, node):
    items = seq_items(I, a[1])
    if items is None:
        raise I.Unmodelled('reduce', I.where())
    if len(a) > 2:
        acc = a[2]
    else:
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


def itemgetter(I, a, kw, node):
    return Native('itemgetter', lambda I2, b, kw2, n2: getitem(I2, b[0], a[0]) if len(a) == 1 else
                  Tup([getitem(I2, b[0], x) for x in a]))


def attrgetter(I, a, kw, node):
    return Native('attrgetter', lambda I2, b, kw2, n2: I2.getattr(b[0], a[0].args[0]))


def ordered_dict(I, a, kw, node):
    r = b_dict(I, a, kw, node)
    I.get(r).ordered = True
    return r


def defaultdict(I, a, kw, node):
    r = I.dict_()
    I.get(r).factory = a[0] if a else NONE
    return r


def namedtuple(I, a, kw, node):
    raise I.Unmodelled('namedtuple', I.where())


OPERATOR = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod',
            'pow': 'Pow'}
OPCMP = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}

TABLE = {'builtins.len': b_len, 'builtins.int': b_int, 'builtins.float': b_float, 'builtins.str': b_str,
         'builtins.bool': b_bool, 'builtins.list': b_list, 'builtins.tuple': b_tuple, 'builtins.dict': b_dict,
         'builtins.set': lambda I, a, kw, n: b_list(I, a, kw, n, 'set'),
         'builtins.frozenset': lambda I, a, kw, n: b_list(I, a, kw, n, 'set'),
         'builtins.range': b_range, 'builtins.enumerate': b_enumerate, 'builtins.zip': b_zip, 'builtins.map': b_map,
         'builtins.filter': b_filter, 'builtins.sorted': lambda I, a, kw, n: do_sorted(I, a, kw),
         'builtins.reversed': b_reversed, 'builtins.min': minmax('min'), 'builtins.max': minmax('max'),
         'builtins.sum': b_sum, 'builtins.abs': b_abs, 'builtins.round': b_round,
         'builtins.isinstance': b_isinstance, 'builtins.getattr': b_getattr, 'builtins.setattr': b_setattr,
         'builtins.hasattr': b_hasattr, 'builtins.print': b_none, 'builtins.slice': b_slice, 'builtins.type': b_type,
         'builtins.any': b_any('any'), 'builtins.all': b_any('all'), 'builtins.iter': b_iter,
         'builtins.next': b_next, 'builtins.super': b_super, 'builtins.divmod': b_divmod, 'builtins.pow': b_pow,
         'builtins.callable': b_callable, 'builtins.repr': b_repr, 'builtins.format': b_format,
         'builtins.id': lambda I, a, kw, n: mk('id', I.term(a[0])),
         'builtins.object': lambda I, a, kw, n: I.new(Opaque('object', mk('object', ops.fresh()))),
         'builtins.exit': b_exit, 'sys.exit': b_exit, 'builtins.quit': b_exit, 'os._exit': b_exit,
         'builtins.vars': lambda I, a, kw, n: I.getattr(a[0], '__dict__'),
         'itertools.product': product, 'itertools.chain': chain, 'json.loads': json_loads, 'json.dumps': json_dumps,
         'itertools.chain.from_iterable': lambda I, a, kw, n: chain(I, seq_items(I, a[0]), kw, n),
         'copy.copy': copy_, 'copy.deepcopy': deepcopy, 'functools.partial': partial, 'functools.reduce': reduce_,
         'operator.itemgetter': itemgetter, 'operator.attrgetter': attrgetter,
         'collections.OrderedDict': ordered_dict, 'collections.defaultdict': defaultdict,
         'collections.namedtuple': namedtuple, 'builtins.dict.fromkeys': lambda I, a, kw, n: dict_method(
             I, I.dict_(), 'fromkeys', a, kw),
         'types.MappingProxyType': lambda I, a, kw, n: a[0],
         'builtins.str.join': lambda I, a, kw, n: text_method(I, I.term(a[0]), 'join', a[1:], kw, n),
         'itertools.islice': lambda I, a, kw, n: getitem(I, a[0], b_slice(I, a[1:], {}, n)),
         'warnings.warn': b_none, 'warnings.simplefilter': b_none, 'warnings.filterwarnings': b_none}
for _k, _v in OPERATOR.items():
    TABLE['operator.' + _k] = (lambda op: lambda I, a, kw, n: binop(I, op, a[0], a[1]))(_v)
for _k, _v in OPCMP.items():
    TABLE['operator.' + _k] = (lambda op: lambda I, a, kw, n: compare(I, op, a[0], a[1]))(_v)
for _k in ('upper', 'lower', 'strip', 'split', 'replace'):
    TABLE['builtins.str.' + _k] = (lambda m: lambda I, a, kw, n: text_method(I, I.term(a[0]), m, a[1:], kw, n))(_k)


# ------------------------------------------------------------------- others
def delayed(I, f):
    from . import libio
    return libio.delayed(I, f)


def enter(I, v):
    from . import libio
    return libio.enter(I, v)


def exit_(I, v):
    from . import libio
    return libio.exit_(I, v)


def decorator_factory(I, a, kw, n):
    if a and isinstance(a[0], Func):
        return a[0]
    return Native('decorator:', lambda I, a, kw, n: a[0])


for _k in ('numba.jit', 'numba.njit', 'functools.lru_cache', 'functools.cache', 'functools.wraps', 'numba.vectorize'):
    TABLE[_k] = decorator_factory
