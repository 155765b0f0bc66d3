"""Abstract values and heap of the interpreter."""
from .terms import *
from . import ops


class Val(object):
    pass


class Ref(Val):
    __slots__ = ('a', 'k')

    def __init__(self, a, k=None):
        self.a, self.k = a, k

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a and o.k == self.k

    def __hash__(self):
        return hash((self.a, self.k))

    def __repr__(self):
        return 'Ref(%d%s)' % (self.a, ':' + self.k if self.k else '')


class Tup(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(('Tup',) + self.items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Slc(Val):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c=NONE):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Slc) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash(('Slc', self.a, self.b, self.c))

    def __repr__(self):
        return 'Slc(%r,%r,%r)' % (self.a, self.b, self.c)


class Func(Val):
    def __init__(self, node, env, mod, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls
        self.flags = frozenset()

    def key(self):
        return ('func', self.mod, self.name, id(self.node), self.env)

    def __eq__(self, o):
        return isinstance(o, Func) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '<func %s.%s>' % (self.mod, self.name)


class Bound(Val):
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    def __eq__(self, o):
        return isinstance(o, Bound) and (o.obj, o.fn) == (self.obj, self.fn)

    def __hash__(self):
        return hash(('bound', self.obj, self.fn))

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.obj)


class Prop(Val):
    def __init__(self, fget):
        self.fget = fget


class Cls(Val):
    """A class defined in the analysed program."""

    def __init__(self, name, mod, addr, bases, node):
        self.name, self.mod, self.a, self.bases, self.node = name, mod, addr, bases, node

    def __repr__(self):
        return '<class %s.%s>' % (self.mod, self.name)


class Mod(Val):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))

    def __repr__(self):
        return '<mod %s>' % self.name


class Ext(Val):
    """An object of a library, by dotted path."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return '<ext %s>' % self.path


class Meth(Val):
    """A method of an abstract (non-instance) value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, Meth) and (o.obj, o.name) == (self.obj, self.name)

    def __hash__(self):
        return hash(('meth', self.obj, self.name))

    def __repr__(self):
        return '<meth %r.%s>' % (self.obj, self.name)


class Phi(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Phi) and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return hash(('phi', self.c, self.a, self.b))

    def __repr__(self):
        return 'Phi(%r, %r, %r)' % (self.c, self.a, self.b)


class Native(Val):
    """A callable implemented by the analyser."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class Undef(Val):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


# --------------------------------------------------------------- heap objects
class Obj(object):
    fields = ()
    origin = None

    def copy(self):
        n = self.__class__.__new__(self.__class__)
        n.__dict__.update(self.__dict__)
        for f in self.fields:
            v = n.__dict__[f]
            n.__dict__[f] = v.copy() if isinstance(v, (dict, list)) else v
        return n


class Env(Obj):
    fields = ('vars',)

    def __init__(self, mod, parent=None):
        self.vars, self.mod, self.parent = {}, mod, parent
        self.globals_, self.nonlocals = (), ()
        self.fn = None


class Inst(Obj):
    fields = ('attrs',)

    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class ClsO(Obj):
    fields = ('attrs',)

    def __init__(self, name):
        self.name, self.attrs = name, {}


class ModO(Obj):
    fields = ('vars',)

    def __init__(self, name):
        self.name, self.vars = name, {}


class DictO(Obj):
    """Keys are terms (or hashable values); 'more' are symbolic stores."""
    fields = ('items', 'more', 'guards')

    def __init__(self, items=None, ordered=False):
        self.items = dict(items or {})
        self.more = []       # ('set', key, val) | ('gen', L, i, guard, key, val)
        self.guards = {}     # key -> condition under which the key is present
        self.opaque = None   # term: unknown further content
        self.label = None


class ListO(Obj):
    """segs: ('v', value) | ('g', cond, value) | ('gen', n, i, guard, value) | ('mark', id)"""
    fields = ('segs',)

    def __init__(self, items=(), kind_='list'):
        self.segs = [('v', x) for x in items]
        self.kind = kind_


class Arr(Obj):
    fields = ('coords', 'attrs')

    def __init__(self, t, dims=None, coords=None):
        self.t, self.dims, self.coords = t, dims, coords
        self.base = None       # (Ref, index value): view
        self.attrs = {}
        self.encoding = None
        self.name = None
        self.index = None      # Ref of the index (Series)
        self.dtype = None
        self.ds = None


class Frame(Obj):
    fields = ('cols',)

    def __init__(self, index=None):
        self.cols, self.index = {}, index      # name -> addr


class Dset(Obj):
    fields = ('vars', 'coords', 'attrs', 'present')

    def __init__(self, base=None):
        self.base = base          # term of the opened file, for variables not yet materialised
        self.vars, self.coords, self.attrs = {}, {}, {}
        self.present = {}
        self.lazy = None          # function name -> Arr
        self.only = None
        self.dims = ()
        self.opaque_attrs = {}


class Opaque(Obj):
    """An instance of a library class that is only tracked by identity."""
    fields = ('attrs',)

    def __init__(self, cls, t, attrs=None):
        self.cls, self.t, self.attrs = cls, t, dict(attrs or {})


class NcFile(Obj):
    fields = ('vars', 'dims', 'attrs')

    def __init__(self, path, mode):
        self.path, self.mode, self.vars, self.dims, self.attrs = path, mode, {}, {}, {}


class NcVar(Obj):
    fields = ('attrs',)

    def __init__(self, f, name, dtype, dims):
        self.file, self.name, self.dtype, self.dims, self.attrs = f, name, dtype, dims, {}
        self.kw = {}


class State(object):
    __slots__ = ('heap', 'pc', 'ctx')

    def __init__(self, heap, pc=(), ctx=()):
        self.heap, self.pc, self.ctx = heap, pc, ctx

    def fork(self, c=None):
        return State(dict(self.heap), self.pc + ((c,) if c is not None and c is not TRUE else ()), self.ctx)
