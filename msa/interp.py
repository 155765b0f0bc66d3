"""Abstract interpreter: builds the value graph, effects and path conditions of
the analysed program.  Nothing of the program is executed: every operation is
mapped to a node of the value graph or to an effect event, branches are joined
with gated merges, loops are closed symbolically."""
import ast
import builtins
import os

from . import terms as tm
from .terms import *
from . import ops
from . import ops
from .ops import is_arr, length, getitem as t_getitem
from .values import *


class Dead(Exception):
    """The current path ends (return, raise, break, continue)."""


class Unmodelled(Exception):
    """The analysed program uses something this analyser has no model for."""

    def __init__(self, what, where=''):
        Exception.__init__(self, '%s at %s' % (what, where))
        self.what, self.where = what, where


class FnRec(object):
    def __init__(self, env, fn):
        self.env, self.fn = env, fn
        self.rets = []
        self.yields = None


class LoopRec(object):
    def __init__(self, sym):
        self.breaks, self.conts, self.sym = [], [], sym


def leaves(block):
    """Does a block leave the function or the loop around it?"""
    for s in block:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(s, (ast.For, ast.While)) and f == 'body':
                if any(isinstance(n, ast.Return) for x in s.body for n in ast.walk(x)):
                    return True
            elif leaves([x for x in getattr(s, f, ()) if isinstance(x, ast.stmt)]):
                return True
        if any(leaves(h.body) for h in getattr(s, 'handlers', ())):
            return True
    return False


class Sink(object):
    def __init__(self, types):
        self.types, self.states = types, []


EXC_PARENTS = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
               'ValueError': ('Exception',), 'TypeError': ('Exception',), 'AttributeError': ('Exception',),
               'AssertionError': ('Exception',), 'RuntimeError': ('Exception',), 'OSError': ('Exception',),
               'FileNotFoundError': ('OSError', 'Exception'), 'FileExistsError': ('OSError', 'Exception'),
               'NotImplementedError': ('RuntimeError', 'Exception'),
               'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'IOError': ('OSError', 'Exception'),
               'PermissionError': ('OSError', 'Exception'), 'ImportError': ('Exception',),
               'ModuleNotFoundError': ('ImportError', 'Exception'), 'StopIteration': ('Exception',),
               'UnicodeDecodeError': ('ValueError', 'Exception'), 'OverflowError': ('ArithmeticError', 'Exception'),
               'NameError': ('Exception',), 'LookupError': ('Exception',), 'ArithmeticError': ('Exception',),
               'Exception': (), 'SystemExit': (), 'KeyboardInterrupt': (), 'Warning': ('Exception',),
               'UserWarning': ('Warning', 'Exception'), 'DeprecationWarning': ('Warning', 'Exception'),
               'FutureWarning': ('Warning', 'Exception')}
for _n in dir(builtins):
    _c = getattr(builtins, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        EXC_PARENTS.setdefault(_n, tuple(b.__name__ for b in _c.__mro__[1:] if b not in (BaseException, object)))

UNROLL = 16


class Interp(object):
    Dead, Unmodelled, UNROLL = Dead, Unmodelled, UNROLL

    def __init__(self, repo, files=None, harness=None):
        self.repo = repo
        self.h = harness
        self.next = 1
        self.st = State({})
        self.events = []
        self.quiet = 0
        self.mods = {}
        self.loading = 0
        self.sinks = []
        self.frames = []          # FnRec stack
        self.loops = []           # symbolic loop stack: (n, i)
        self.loopstack = []       # LoopRec stack
        self.node = None
        self.assume = {}
        self.modname = None
        self.calls = set()
        self.unmodelled = []
        self.muinfo = {}
        self.nstmts = 0
        self.stmts_seen = set()
        self.depth = 0
        self.callsites = 0
        self.tries, self.entered = 0, []
        from . import lib
        self.lib = lib
        self.asts = {}
        self.files = []

    # ------------------------------------------------------------- helpers
    def where(self):
        n = self.node
        return '%s:%s' % (self.modname, getattr(n, 'lineno', '?'))

    def file_line(self):
        f = self.path_of(self.modname)
        return '%s:%s' % (os.path.relpath(f, self.repo) if f else self.modname, getattr(self.node, 'lineno', '?'))

    def event(self, kind_, **kw):
        if self.quiet:
            return None
        e = dict(kind=kind_, pc=self.st.pc if self.st else (), ctx=self.st.ctx if self.st else (),
                 loops=tuple(self.loops), at=self.file_line(),
                 fn=self.frames[-1].fn.name if self.frames and self.frames[-1].fn else '<module>',
                 stack=tuple(f.fn.name for f in self.frames if f.fn), seq=len(self.events),
                 sinks=len(self.sinks))
        e.update(kw)
        self.events.append(e)
        return e

    def unknown(self, what):
        w = self.file_line()
        if not self.quiet and (what, w) not in self.unmodelled:
            self.unmodelled.append((what, w))

    def new(self, obj, k=None):
        a = self.next
        self.next += 1
        if obj.origin is None and self.loading:
            obj.origin = 'module'
        self.st.heap[a] = obj
        return Ref(a, k)

    def get(self, r):
        return self.st.heap[r.a if isinstance(r, Ref) else r]

    def mut(self, r, what=''):
        a = r.a if isinstance(r, Ref) else r
        o = self.st.heap[a].copy()
        self.st.heap[a] = o
        if o.origin and not self.loading:
            self.event('gmut', obj=a, origin=o.origin, what=what or type(o).__name__, label=getattr(o, 'label', None))
        return o

    def arr(self, t, k='nd', **kw):
        if k == 'idx':
            t = ops.as_drange(t)
        o = Arr(t)
        for n, v in kw.items():
            setattr(o, n, v)
        return self.new(o, k)

    def list_(self, items=(), kind_='list'):
        return self.new(ListO(items, kind_))

    def dict_(self, items=None):
        return self.new(DictO(items))

    def is_obj(self, v, cls):
        return isinstance(v, Ref) and isinstance(self.get(v), cls)

    def tof(self, r):
        """Current term of an array reference."""
        o = self.get(r)
        if o.base is not None:
            b, idx = o.base
            return self.view(self.tof(b), idx)
        return o.t

    def view(self, t, idx):
        if isinstance(idx, Slc):
            return ops.slice_(t, idx.a, idx.b)
        if isinstance(idx, T):
            return t_getitem(t, idx) if not is_arr(idx) else ops.take(t, idx)
        if isinstance(idx, tuple) and idx[0] == 'fn':
            return idx[1](t)
        raise Unmodelled('view %r' % (idx,), self.where())

    def setarr(self, r, t):
        """In-place update of the contents of an array."""
        o = self.get(r)
        if o.base is not None:
            b, idx = o.base
            bt = self.tof(b)
            if isinstance(idx, Slc):
                self.setarr(b, ops.store_slice(bt, idx.a, idx.b, t))
            elif isinstance(idx, T):
                self.setarr(b, ops.store(bt, idx, t))
            elif idx[2] is not None:
                self.setarr(b, idx[2](bt, t))
            else:
                raise Unmodelled('write through view', self.where())
            return
        o = self.mut(r, 'array')
        o.t = t
        if o.ds is not None:
            pass

    def arr_elem(self, ref, i):
        """Element (or row) of an array."""
        t = self.tof(ref)
        if not is_arr(t):
            return t
        if is_num(i) and i.args[0] < 0:
            i = add(length(t), i)
        if ops.rank(t) > 1:
            if ref.k == 'da':
                from . import libpd
                return libpd.da_getitem(self, ref, i)
            v = Arr(t_getitem(t, i))
            v.base = (Ref(ref.a), i)
            return self.new(v, 'nd')
        return t_getitem(t, i)

    def list_copy(self, r):
        o = self.get(r)
        n = ListO((), o.kind if o.kind in ('set', 'list') else 'list')
        n.segs = list(o.segs)
        return self.new(n)

    def copy_obj(self, r):
        """Shallow copy."""
        r = self.resolve(r)
        if isinstance(r, Phi):
            return self.choose(r.c, lambda: self.copy_obj(r.a), lambda: self.copy_obj(r.b))
        if not isinstance(r, Ref):
            return r
        o = self.get(r)
        n = o.copy()
        n.origin = None
        if isinstance(o, Arr):
            n.t = self.tof(r)
            n.base = None
        if isinstance(o, Frame):
            n.cols = {k: self.copy_obj(v) if isinstance(v, (Ref, Phi)) else v for k, v in o.cols.items()}
        if isinstance(o, Dset):
            n.vars = {k: self.copy_obj(v) if isinstance(v, (Ref, Phi)) else v for k, v in o.vars.items()}
            if isinstance(o.coords, dict):
                n.coords = {k: self.copy_obj(v) if isinstance(v, (Ref, Phi)) else v for k, v in o.coords.items()}
        return self.new(n, r.k)

    def deep_copy(self, v, memo):
        v = self.resolve(v)
        if isinstance(v, Tup):
            return Tup([self.deep_copy(x, memo) for x in v.items])
        if isinstance(v, Phi):
            return Phi(v.c, self.deep_copy(v.a, memo), self.deep_copy(v.b, memo))
        if not isinstance(v, Ref):
            return v
        if v.a in memo:
            return Ref(memo[v.a].a, v.k)
        o = self.get(v)
        r = self.copy_obj(v)
        memo[v.a] = r
        n = self.st.heap[r.a] = self.get(r).copy()
        if isinstance(n, ListO):
            n.segs = [s[:-1] + (self.deep_copy(s[-1], memo),) for s in n.segs]
        elif isinstance(n, DictO):
            n.items = {k: self.deep_copy(x, memo) for k, x in n.items.items()}
        elif isinstance(n, Inst):
            n.attrs = {k: self.deep_copy(x, memo) for k, x in n.attrs.items()}
        return r

    def join_vals(self, c, a, b):
        d = self.decide(c)
        if d is not None:
            return a if d else b
        sv = self._joinheap, self._joinheap2, self._newobjs
        self._joinheap = self._joinheap2 = self.st.heap
        self._newobjs = {}
        try:
            r = self.join(c, a, b)
            self.st.heap.update(self._newobjs)
        finally:
            self._joinheap, self._joinheap2, self._newobjs = sv
        return r

    def with_pc(self, c, f):
        """f() under the extra path condition c (no effect on the state expected)."""
        d = self.decide(c)
        if d is False:
            return []
        sv = self.st.pc
        if c is not TRUE:
            self.st.pc = sv + (c,)
        try:
            return f()
        finally:
            if self.st is not None:
                self.st.pc = sv

    def may(self, exc, cond=TRUE):
        """A library call that raises exc when cond holds."""
        d = self.decide(cond)
        if d is False:
            return
        if d is True:
            self.raise_(exc, const(''))
        if not self.sinks:
            self.event('may_raise', exc=exc, cond=cond)
            return
        self.branch(cond, lambda: self.raise_(exc, const('')), lambda: None)

    # -------------------------------------------------------------- joining
    def join(self, c, a, b):
        if a is b or (type(a) is type(b) and not isinstance(a, T) and a == b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if a is UNDEF or b is UNDEF:
            return Phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Slc) and isinstance(b, Slc):
            return Slc(ite(c, a.a, b.a), ite(c, a.b, b.b), ite(c, a.c, b.c))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.st is not None:
            oa, ob = self._joinheap.get(a.a), self._joinheap2.get(b.a)
            if isinstance(oa, Arr) and isinstance(ob, Arr) and a.a != b.a:
                r = self.next
                self.next += 1
                n = oa.copy()
                n.t = ite(c, self._t_in(self._joinheap, a.a), self._t_in(self._joinheap2, b.a))
                n.base = None
                self._newobjs[r] = n
                return Ref(r, a.k)
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        if a == b and type(a) is type(b):
            return a
        return Phi(c, a, b)

    def _t_in(self, heap, addr):
        sv = self.st
        self.st = State(heap)
        try:
            return self.tof(Ref(addr))
        finally:
            self.st = sv

    _joinheap = _joinheap2 = {}
    _newobjs = {}

    def merge(self, s1, s2):
        """Join of two states of disjoint paths."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        c1, c2 = and_(*s1.pc[n:]), and_(*s2.pc[n:])
        if c1 is TRUE and c2 is not TRUE:
            c1 = not_(c2)
        c = c1
        both = or_(c1, c2)
        heap = self.merge_heap(c, s1.heap, s2.heap)
        ctx = s1.ctx if s1.ctx == s2.ctx else tuple(x for x in s1.ctx if x in s2.ctx)
        return State(heap, s1.pc[:n] + ((both,) if both is not TRUE else ()), ctx)

    def merge_heap(self, c, h1, h2):
        sv = self._joinheap, self._joinheap2, self._newobjs, self.st
        self._joinheap, self._joinheap2, self._newobjs = h1, h2, {}
        if self.st is None:
            self.st = State(h1)
        out = dict(h1)
        for a, o2 in h2.items():
            o1 = h1.get(a)
            if o1 is None:
                out[a] = o2
            elif o1 is not o2:
                out[a] = self.merge_obj(c, o1, o2)
        out.update(self._newobjs)
        self._joinheap, self._joinheap2, self._newobjs, self.st = sv
        return out

    def merge_dict(self, c, d1, d2):
        out = {}
        for k in list(d1) + [k for k in d2 if k not in d1]:
            x, y = d1.get(k, UNDEF), d2.get(k, UNDEF)
            out[k] = x if x is y else self.join(c, x, y)
        return out

    def merge_obj(self, c, o1, o2):
        n = o1.copy()
        if isinstance(o1, (Env, ModO)):
            n.vars = self.merge_dict(c, o1.vars, o2.vars)
        elif isinstance(o1, DictO):
            n.items, n.guards = {}, {}
            for k in list(o1.items) + [k for k in o2.items if k not in o1.items]:
                g1 = o1.guards.get(k, TRUE) if k in o1.items else FALSE
                g2 = o2.guards.get(k, TRUE) if k in o2.items else FALSE
                g = ite(c, g1, g2)
                if g is not TRUE:
                    n.guards[k] = g
                if g1 is FALSE:
                    n.items[k] = o2.items[k]
                elif g2 is FALSE:
                    n.items[k] = o1.items[k]
                else:
                    n.items[k] = self.join(c, o1.items[k], o2.items[k])
            p = 0
            while p < len(o1.more) and p < len(o2.more) and o1.more[p] == o2.more[p]:
                p += 1
            n.more = o1.more[:p] + [('if', c, m) for m in o1.more[p:]] + [('if', not_(c), m) for m in o2.more[p:]]
        elif isinstance(o1, ListO):
            p = 0
            a, b = o1.segs, o2.segs
            while p < len(a) and p < len(b) and a[p] == b[p]:
                p += 1
            n.segs = a[:p]
            ra, rb = a[p:], b[p:]
            if len(ra) == len(rb) and all(x[0] == y[0] == 'v' for x, y in zip(ra, rb)):
                n.segs += [('v', self.join(c, x[1], y[1])) for x, y in zip(ra, rb)]
            else:
                n.segs += [self.guard_seg(c, x) for x in ra] + [self.guard_seg(not_(c), x) for x in rb]
        elif isinstance(o1, Arr):
            if o1.base is None and o2.base is None:
                n.t = ite(c, o1.t, o2.t)
            n.attrs = self.merge_dict(c, o1.attrs, o2.attrs)
        elif isinstance(o1, Frame):
            n.cols = self.merge_dict(c, o1.cols, o2.cols)
            n.index = self.join(c, o1.index, o2.index)
        elif isinstance(o1, Dset):
            n.vars = self.merge_dict(c, o1.vars, o2.vars)
            n.coords = self.merge_dict(c, o1.coords, o2.coords)
            n.attrs = self.merge_dict(c, o1.attrs, o2.attrs)
        elif hasattr(o1, 'attrs'):
            n.attrs = self.merge_dict(c, o1.attrs, o2.attrs)
            if hasattr(o1, 'vars'):
                n.vars = self.merge_dict(c, o1.vars, o2.vars)
        return n

    def guard_seg(self, c, s):
        if s[0] == 'v':
            return ('g', c, s[1])
        if s[0] == 'g':
            return ('g', and_(c, s[1]), s[2])
        if s[0] == 'gen':
            return ('gen', s[1], s[2], and_(c, s[3]), s[4])
        return s

    # ------------------------------------------------------------- deciding
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        pc = self.st.pc
        if c in pc:
            return True
        n = not_(c)
        if n in pc:
            return False
        if c in self.assume:
            return self.assume[c]
        if n in self.assume:
            return not self.assume[n]
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if c.op == 'or':
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if c.op in ('lt0', 'le0', 'eq0'):
            lo, hi = ops.bounds(c.args[0])
            if c.op == 'lt0':
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
                if ops.decide_bounds(c.args[0]) is True:
                    return True
            elif c.op == 'le0':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
        if c.op == 'ite':
            r = self.decide(c.args[0])
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2])
        for p in pc:
            if p.op == 'and' and c in p.args:
                return True
            if p.op == 'and' and n in p.args:
                return False
            if p.op == 'or' and n.op == 'or' and all(x in n.args for x in p.args):
                return False
            if n.op == 'not' and p.op == 'or' and c.op == 'or' and all(x in c.args for x in p.args):
                return True
        if self.h is not None:
            return self.h.decide(self, c)
        return None

    def truth(self, v):
        if isinstance(v, T):
            if v.op in ('none', 'false'):
                return FALSE
            if v.op == 'true':
                return TRUE
            if v.op == 'num':
                return boolT(v.args[0] != 0)
            if v.op == 'str':
                return boolT(bool(v.args[0]))
            if v.op in BOOL_OPS or kind(v) == 'bool':
                return v
            if v.op in ('list', 'tuple', 'dict'):
                return boolT(bool(v.args))
            if v.op in ('func', 'ext', 'inst', 'date', 'fmt'):
                return TRUE
            if v.op == 'ite':
                return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            if v.op in ('len', 'add', 'mul') and not is_arr(v):
                return not_(cmp_('==', v, ZERO))
            if v.op == 'sym' and v.args[1] in ('inttext', 'numtext', 'path', 'date', 'optext'):
                return TRUE
            return mk('truth', v)
        if isinstance(v, Tup):
            return boolT(bool(v.items))
        if isinstance(v, Phi):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, Arr):
                return self.truth(self.tof(v))
            if isinstance(o, (ListO, DictO)):
                return not_(cmp_('==', self.lib.len_(self, v), ZERO))
            if isinstance(o, Inst):
                f = self.find_attr(o.cls, '__bool__') or self.find_attr(o.cls, '__len__')
                if f is not None:
                    return self.truth(self.call(Bound(v, f), [], {}))
            return TRUE
        if v is UNDEF:
            return FALSE
        return TRUE

    # ---------------------------------------------------------------- terms
    def term(self, v, depth=0):
        """A value as one node."""
        if isinstance(v, T):
            return v
        if isinstance(v, Tup):
            return mk('tuple', *[self.term(x, depth + 1) for x in v.items])
        if isinstance(v, Slc):
            return mk('sl', v.a, v.b)
        if isinstance(v, Phi):
            return ite(v.c, self.term(v.a, depth + 1), self.term(v.b, depth + 1))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, Arr):
                return self.tof(v)
            if depth > 6:
                return mk('obj', v.a)
            if isinstance(o, ListO):
                out = []
                for s in o.segs:
                    if s[0] == 'v':
                        out.append(self.term(s[1], depth + 1))
                    elif s[0] == 'g':
                        out.append(mk('guarded', s[1], self.term(s[2], depth + 1)))
                    elif s[0] == 'gen':
                        e = self.term(s[4], depth + 1)
                        h, e, g = bind(s[2], e, s[3])
                        out.append(mk('genseg', s[1], h, g, e))
                return mk('list', *out)
            if isinstance(o, DictO):
                kv = []
                for k, x in o.items.items():
                    e = mk('pair', k if isinstance(k, T) else self.term(k, depth + 1), self.term(x, depth + 1))
                    if k in o.guards:
                        e = mk('guarded', o.guards[k], e)
                    kv.append(e)
                for m in o.more:
                    kv.append(self._more_term(m, depth))
                return mk('dict', *kv)
            if isinstance(o, Opaque):
                return o.t
            if isinstance(o, Frame):
                return mk('frame', *[mk('pair', const(str(k)), self.tof(a)) for k, a in o.cols.items()
                                     if isinstance(a, Ref)])
            if isinstance(o, Dset):
                return mk('dset', o.base if o.base is not None else NONE, num(v.a))
            if isinstance(o, Inst):
                return mk('inst', o.cls.name)
            if isinstance(o, NcFile):
                return mk('nc', o.path)
            if isinstance(o, NcVar):
                return mk('ncvar', self.term(Ref(o.file)), o.name)
            return mk('obj', v.a)
        if isinstance(v, Func):
            return mk('func', v.mod, v.name)
        if isinstance(v, Bound):
            return mk('func', self.term(v.obj, depth + 1), v.fn.name if isinstance(v.fn, Func) else repr(v.fn))
        if isinstance(v, Ext):
            return mk('ext', v.path)
        if isinstance(v, Meth):
            return mk('meth', self.term(v.obj, depth + 1), v.name)
        if isinstance(v, (Mod, Cls)):
            return mk('ext', repr(v))
        if isinstance(v, Native):
            return mk('func', v.name)
        if v is UNDEF:
            return mk('undef')
        raise Unmodelled('value %r' % (v,), self.where())

    def _more_term(self, m, depth):
        if m[0] == 'if':
            return mk('guarded', m[1], self._more_term(m[2], depth))
        if m[0] == 'set':
            return mk('pair', self.term(m[1], depth + 1), self.term(m[2], depth + 1))
        if m[0] == 'gen':
            _, n, i, g, k, x = m
            h, k, x, g = bind(i, self.term(k, depth + 1), self.term(x, depth + 1), g)
            return mk('genseg', n, h, g, mk('pair', k, x))
        return mk('more', str(m))

    def vsubst(self, v, m, memo=None):
        """Substitute index nodes in a value (heap objects are copied)."""
        if memo is None:
            memo = {}
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, Tup):
            return Tup([self.vsubst(x, m, memo) for x in v.items])
        if isinstance(v, Slc):
            return Slc(subst(v.a, m), subst(v.b, m), subst(v.c, m))
        if isinstance(v, Phi):
            c = subst(v.c, m)
            if c is TRUE:
                return self.vsubst(v.a, m, memo)
            if c is FALSE:
                return self.vsubst(v.b, m, memo)
            return Phi(c, self.vsubst(v.a, m, memo), self.vsubst(v.b, m, memo))
        if isinstance(v, Ref):
            if v.a in memo:
                return Ref(memo[v.a], v.k)
            o = self.get(v)
            if not self.obj_mentions(o, m, set()):
                return v
            n = o.copy()
            a = self.next
            self.next += 1
            memo[v.a] = a
            self.st.heap[a] = n
            if isinstance(n, Arr):
                if n.base is not None:
                    n.t = self.tof(v)
                    n.base = None
                n.t = subst(n.t, m)
                if isinstance(n.index, Ref):
                    n.index = self.vsubst(n.index, m, memo)
            elif isinstance(n, ListO):
                n.segs = [self._seg_subst(s, m, memo) for s in n.segs]
            elif isinstance(n, DictO):
                n.items = {(subst(k, m) if isinstance(k, T) else k): self.vsubst(x, m, memo)
                           for k, x in n.items.items()}
                n.guards = {(subst(k, m) if isinstance(k, T) else k): subst(x, m) for k, x in n.guards.items()}
            elif isinstance(n, Opaque):
                n.t = subst(n.t, m)
                n.attrs = {k: self.vsubst(x, m, memo) for k, x in n.attrs.items()}
            elif hasattr(n, 'attrs') and isinstance(n, Inst):
                n.attrs = {k: self.vsubst(x, m, memo) for k, x in n.attrs.items()}
            return Ref(a, v.k)
        return v

    def _seg_subst(self, s, m, memo):
        if s[0] == 'v':
            return ('v', self.vsubst(s[1], m, memo))
        if s[0] == 'g':
            return ('g', subst(s[1], m), self.vsubst(s[2], m, memo))
        if s[0] == 'gen':
            return ('gen', subst(s[1], m), s[2], subst(s[3], m), self.vsubst(s[4], m, memo))
        return s

    def obj_mentions(self, o, m, seen):
        if id(o) in seen:
            return False
        seen.add(id(o))
        if isinstance(o, Arr):
            if o.base is not None:
                return self.obj_mentions(self.get(o.base[0]), m, seen) or self.val_mentions(
                    o.base[1] if not isinstance(o.base[1], tuple) else NONE, m, seen)
            return any(mentions(o.t, k) for k in m) or isinstance(o.index, Ref) and self.val_mentions(o.index, m, seen)
        if isinstance(o, ListO):
            return any(self.val_mentions(x, m, seen) for s in o.segs for x in s[1:]
                       if isinstance(x, (T, Val)))
        if isinstance(o, DictO):
            return any(self.val_mentions(x, m, seen) for k, x in o.items.items()) or any(
                self.val_mentions(k, m, seen) for k in o.items)
        if isinstance(o, Opaque):
            return any(mentions(o.t, k) for k in m) or any(self.val_mentions(x, m, seen) for x in o.attrs.values())
        if isinstance(o, Inst):
            return any(self.val_mentions(x, m, seen) for x in o.attrs.values())
        return False

    def val_mentions(self, v, m, seen):
        if isinstance(v, T):
            return any(mentions(v, k) for k in m)
        if isinstance(v, Tup):
            return any(self.val_mentions(x, m, seen) for x in v.items)
        if isinstance(v, Slc):
            return any(self.val_mentions(x, m, seen) for x in (v.a, v.b, v.c))
        if isinstance(v, Phi):
            return any(self.val_mentions(x, m, seen) for x in (v.c, v.a, v.b))
        if isinstance(v, Ref):
            return self.obj_mentions(self.get(v), m, seen)
        return False

    # -------------------------------------------------------------- modules
    def path_of(self, name):
        if not name:
            return None
        if name.split('.')[0] == 'msaref':
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ref', *name.split('.')[1:])
        else:
            p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def tree(self, name):
        if name not in self.asts:
            p = self.path_of(name)
            with open(p) as f:
                self.asts[name] = ast.parse(f.read(), p)
        return self.asts[name]

    def module(self, name):
        """Load an analysed module; returns its address or None."""
        if name in self.mods:
            return self.mods[name]
        if not name.split('.')[0] == 'metsim' and not name.startswith('msaref'):
            return None
        if name == 'metsim._version':
            return None
        p = self.path_of(name)
        if p is None:
            return None
        if '.' in name:
            self.module(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        return self.load(name, self.tree(name))

    def load(self, name, tree):
        sv = (self.modname, self.node, self.frames, self.loopstack, self.sinks, self.loops, self.st.pc, self.st.ctx)
        self.loading += 1
        self.frames, self.loopstack, self.sinks, self.loops = [], [], [], []
        self.st.pc, self.st.ctx = (), ()
        a = self.new(ModO(name)).a
        self.mods[name] = a
        self.get(a).vars['__name__'] = const(name)
        self.get(a).vars['__file__'] = const(name)
        env = Env(name)
        env.parent = None
        self.modname = name
        e = self.new(env).a
        self.get(e).vars = {}
        env_rec = FnRec(e, None)
        self.frames.append(env_rec)
        self.modenv = getattr(self, 'modenv', {})
        self.modenv[e] = a
        try:
            self.exec_block(tree.body)
        finally:
            (self.modname, self.node, self.frames, self.loopstack, self.sinks, self.loops) = sv[:6]
            self.loading -= 1
        if self.st is None:
            raise Unmodelled('module %s cannot be loaded' % name, '')
        self.st.pc, self.st.ctx = sv[6], sv[7]
        return a

    def import_(self, dotted):
        """Value of 'import a.b.c' bound to its full path."""
        if self.module(dotted) is not None:
            return Mod(dotted)
        return Ext(dotted)

    def mod_attr(self, m, name):
        a = self.module(m)
        o = self.get(a)
        if name in o.vars:
            return o.vars[name]
        sub_ = m + '.' + name
        if self.path_of(sub_) and self.module(sub_) is not None:
            return Mod(sub_)
        if m == 'metsim' and name in ('__version__',):
            return sym('version', 'text')
        return None

    # ---------------------------------------------------------- environment
    def lookup(self, name):
        e = self.frames[-1].env
        first = True
        while e is not None:
            o = self.get(e)
            if e in self.modenv:
                break
            if name in o.vars and not (first and name in o.globals_):
                v = o.vars[name]
                return self.resolve(v)
            first = False
            e = o.parent
        m = self.get(self.module_addr())
        if name in m.vars:
            return self.resolve(m.vars[name])
        v = self.lib.builtin(self, name)
        if v is None:
            self.raise_('NameError', const(name))
        return v

    def module_addr(self):
        e = self.frames[-1].env
        while True:
            if e in self.modenv:
                return self.modenv[e]
            o = self.get(e)
            if o.parent is None:
                return self.mods[o.mod]
            e = o.parent

    def resolve(self, v):
        while isinstance(v, Phi):
            if v.a is UNDEF:
                v = v.b
            elif v.b is UNDEF:
                v = v.a
            else:
                d = self.decide(v.c)
                if d is None:
                    break
                v = v.a if d else v.b
        if v is UNDEF:
            self.raise_('NameError', const('undefined'))
        return v

    def setvar(self, name, v):
        e = self.frames[-1].env
        if e in self.modenv:
            m = self.mut(self.modenv[e], 'module variable ' + name)
            m.vars[name] = v
            if isinstance(v, Ref):
                o = self.get(v)
                if getattr(o, 'label', None) is None and isinstance(o, DictO):
                    o.label = '%s.%s' % (self.modname, name)
            return
        o = self.get(e)
        if name in o.globals_:
            m = self.mut(self.module_addr(), 'module variable ' + name)
            m.vars[name] = v
            return
        if name in o.nonlocals:
            p = o.parent
            while p is not None:
                po = self.get(p)
                if name in po.vars:
                    self.mut(p).vars[name] = v
                    return
                p = po.parent
        self.mut(e).vars[name] = v

    # ----------------------------------------------------------- exceptions
    def raise_(self, typ, msg=NONE, val=None):
        st = self.st
        for k in range(len(self.sinks) - 1, -1, -1):
            s = self.sinks[k]
            if s.types is None or any(t == typ or t in EXC_PARENTS.get(typ, ('Exception',)) or t == 'BaseException'
                                      for t in s.types):
                e = self.event('raise', exc=typ, msg=msg, caught=True)
                s.states.append((st, typ, msg, val))
                self.st = None
                raise Dead()
        self.event('raise', exc=typ, msg=msg, caught=False)
        self.st = None
        raise Dead()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        sv, svc = self.node, tm.CUR[0]
        self.node = s
        tm.CUR[0] = (self.modname, s.lineno, self.frames[-1].fn.name if self.frames and self.frames[-1].fn else '')
        self.nstmts += 1
        self.stmts_seen.add((self.modname, s.lineno))
        try:
            getattr(self, 'x_' + type(s).__name__)(s)
        except Dead:
            self.st = None
        except AttributeError as e:
            if "'x_" in str(e):
                raise Unmodelled('statement ' + type(s).__name__, self.where())
            raise
        finally:
            self.node = sv
            tm.CUR[0] = svc

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, self.import_(a.name))
            else:
                self.import_(a.name)
                self.setvar(a.name.split('.')[0], self.import_(a.name.split('.')[0]))

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.modname.split('.')
            isp = self.path_of(self.modname).endswith('__init__.py')
            base = base[:len(base) - s.level + (1 if isp else 0)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                m = self.module(mod)
                if m is None:
                    raise Unmodelled('import * from ' + mod, self.where())
                for k, v in list(self.get(m).vars.items()):
                    if not k.startswith('_'):
                        self.setvar(k, v)
                continue
            v = None
            if self.module(mod) is not None:
                v = self.mod_attr(mod, a.name)
            if v is None:
                v = self.lib.ext_attr(self, mod, a.name)
            self.setvar(a.asname or a.name, v)

    def x_Global(self, s):
        o = self.mut(self.frames[-1].env)
        o.globals_ = tuple(o.globals_) + tuple(s.names)

    def x_Nonlocal(self, s):
        o = self.mut(self.frames[-1].env)
        o.nonlocals = tuple(o.nonlocals) + tuple(s.names)

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d), v)
        self.setvar(s.name, v)

    def make_func(self, s, name=None):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {p.arg: self.eval(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(s, self.frames[-1].env, self.modname, name or s.name, defaults, kwd)

    def decorate(self, d, f):
        if isinstance(d, Ext):
            p = d.path
            if p in ('numba.jit', 'numba.njit', 'functools.wraps', 'builtins.staticmethod', 'numba.vectorize',
                     'functools.lru_cache', 'functools.cache'):
                if isinstance(f, Func):
                    f.flags = f.flags | {p.split('.')[-1]}
                return f
            if p == 'builtins.property':
                return Prop(f)
            if p == 'builtins.classmethod':
                f.flags = f.flags | {'classmethod'}
                return f
            if p == 'functools.cached_property':
                return Prop(f)
            if p == 'dask.delayed' or p == 'dask.delayed.delayed':
                return self.lib.delayed(self, f)
        if isinstance(d, Native) and d.name.startswith('decorator:'):
            return d.fn(self, [f], {}, None)
        if isinstance(d, Func) or isinstance(d, Native) or isinstance(d, Bound):
            return self.call(d, [f], {})
        if isinstance(d, Meth) and d.name in ('setter', 'getter'):
            return f
        if isinstance(d, (Ext, Ref)):
            return self.call(d, [f], {})
        raise Unmodelled('decorator %r' % (d,), self.where())

    def x_AsyncFunctionDef(self, s):
        raise Unmodelled('async function', self.where())

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        a = self.new(ClsO(s.name)).a
        env = Env(self.modname, self.frames[-1].env)
        e = self.new(env).a
        self.frames.append(FnRec(e, None))
        self.loading += 1
        try:
            self.exec_block(s.body)
        finally:
            self.loading -= 1
            self.frames.pop()
        o = self.mut(a) if not self.loading else self.get(a)
        o.attrs = dict(self.get(e).vars)
        o.origin = 'module'
        c = Cls(s.name, self.modname, a, bases, s)
        for k, v in o.attrs.items():
            if isinstance(v, Func):
                v.cls = c
                # methods do not see the class scope
                v.env = self.frames[-1].env
            if isinstance(v, Prop) and isinstance(v.fget, Func):
                v.fget.cls = c
                v.fget.env = self.frames[-1].env
            if isinstance(v, Ref):
                ob = self.get(v)
                if isinstance(ob, DictO):
                    ob.label = '%s.%s' % (s.name, k)
        for d in reversed(s.decorator_list):
            pass
        self.setvar(s.name, c)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.frames[-1].rets.append((self.st, v, tuple(self.loops)))
        self.st = None

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.mut(self.frames[-1].env)
                o.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.eval(t.value), self.eval_index(t.slice))
            elif isinstance(t, ast.Attribute):
                pass

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            new = self.lib.inplace(self, op, old, self.eval(s.value))
            if new is not None:
                self.setvar(t.id, new)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            old = self.getattr(obj, t.attr)
            new = self.lib.inplace(self, op, old, self.eval(s.value))
            if new is not None:
                self.setattr(obj, t.attr, new)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval_index(t.slice)
            old = self.lib.getitem(self, obj, idx)
            new = self.lib.inplace(self, op, old, self.eval(s.value), elem=True)
            if new is not None:
                self.lib.setitem(self, obj, idx, new)
        else:
            raise Unmodelled('augmented assignment', self.where())

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self, self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unmodelled('assignment target', self.where())

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v)
        items = self.lib.seq_items(self, v, None if star else n)
        if items is None:
            raise Unmodelled('unpacking of %r' % (v,), self.where())
        if star:
            k = star[0]
            tail = n - k - 1
            mid = items[k:len(items) - tail]
            items = items[:k] + [self.list_(mid)] + items[len(items) - tail:]
        elif len(items) != n:
            self.raise_('ValueError', const('unpack'))
        for e, x in zip(elts, items):
            self.assign(e, x)

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f, g):
        d = self.decide(c)
        if d is True:
            return f()
        if d is False:
            return g()
        s0 = self.st
        n = not_(c)
        self.st = s0.fork(c)
        try:
            f()
        except Dead:
            self.st = None
        r1 = self.st
        self.st = s0.fork(n)
        try:
            g()
        except Dead:
            self.st = None
        r2 = self.st
        self.st = self.merge(r1, r2)

    def choose(self, c, f, g):
        """Value-returning branch."""
        d = self.decide(c)
        if d is True:
            return f()
        if d is False:
            return g()
        s0 = self.st
        self.st = s0.fork(c)
        v1 = v2 = UNDEF
        try:
            v1 = f()
        except Dead:
            self.st = None
        r1 = self.st
        self.st = s0.fork(not_(c))
        try:
            v2 = g()
        except Dead:
            self.st = None
        r2 = self.st
        if r1 is None and r2 is None:
            self.st = None
            raise Dead()
        if r1 is None:
            self.st = r2
            return v2
        if r2 is None:
            self.st = r1
            return v1
        return self.merge_val(c, r1, v1, r2, v2)

    def merge_val(self, c, r1, v1, r2, v2):
        """Merge two states carrying values."""
        k1 = self.next
        self.next += 1
        e1, e2 = Env('tmp'), Env('tmp')
        e1.vars['v'], e2.vars['v'] = v1, v2
        r1.heap[k1], r2.heap[k1] = e1, e2
        self.st = self.merge(r1, r2)
        v = self.st.heap.pop(k1).vars['v']
        r1.heap.pop(k1, None)
        r2.heap.pop(k1, None)
        return v

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            self.raise_('AssertionError')
        s0 = self.st
        self.st = s0.fork(not_(c))
        try:
            self.raise_('AssertionError')
        except Dead:
            pass
        self.st = s0.fork(c)

    def x_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, 'cur_exc', [])
            if cur:
                self.raise_(cur[-1][0], cur[-1][1])
            self.raise_('Exception')
        v = self.eval(s.exc)
        typ, msg = 'Exception', NONE
        if isinstance(v, Ext):
            typ = v.path.split('.')[-1]
        elif self.is_obj(v, Opaque):
            o = self.get(v)
            typ = o.cls.split('.')[-1]
            msg = o.attrs.get('msg', NONE)
        elif self.is_obj(v, Inst):
            o = self.get(v)
            typ = o.cls.name
            EXC_PARENTS.setdefault(typ, self.exc_bases(o.cls))
        elif isinstance(v, Cls):
            typ = v.name
            EXC_PARENTS.setdefault(typ, self.exc_bases(v))
        self.raise_(typ, self.term(msg), v)

    def exc_bases(self, c):
        out = ()
        for b in c.bases:
            if isinstance(b, Ext):
                n = b.path.split('.')[-1]
                out += (n,) + EXC_PARENTS.get(n, ())
            elif isinstance(b, Cls):
                out += (b.name,) + self.exc_bases(b)
        return out

    def exc_types(self, node):
        if node is None:
            return None
        v = self.eval(node)
        vs = v.items if isinstance(v, Tup) else [v]
        out = []
        for x in vs:
            if isinstance(x, Ext):
                out.append(x.path.split('.')[-1])
            elif isinstance(x, Cls):
                out.append(x.name)
                EXC_PARENTS.setdefault(x.name, self.exc_bases(x))
            else:
                out.append('?')
        return out

    def x_Try(self, s):
        s0 = self.st.fork()
        hts = [self.exc_types(h.type) for h in s.handlers]
        allt = None if any(h is None for h in hts) else [t for h in hts for t in h]
        sink = Sink(allt)
        ev0 = len(self.events)
        if s.handlers:
            self.sinks.append(sink)
        call0, self.tries = len(self.entered), self.tries + 1
        try:
            self.exec_block(s.body)
        finally:
            self.tries -= 1
            if s.handlers:
                self.sinks.pop()
        called = tuple(sorted(set(self.entered[call0:])))
        if not self.tries:
            del self.entered[:]
        body = self.st
        body_events = self.events[ev0:]
        if body is not None and s.orelse:
            self.exec_block(s.orelse)
            body = self.st
        outs = []
        fn = self.frames[-1].fn.name if self.frames[-1].fn else '<module>'
        modload = self.frames[-1].fn is None
        for h, ts in zip(s.handlers, hts):
            ins = [x for x in sink.states if ts is None or any(
                t == x[1] or t in EXC_PARENTS.get(x[1], ('Exception',)) or t == 'BaseException' for t in ts)]
            sink.states = [x for x in sink.states if x not in ins]
            self.st = None
            for x in ins:
                self.st = self.merge(self.st, x[0]) if self.st is not None else x[0]
            implicit = not modload and not (body is None and ins) and self.may_raise(s.body, body_events, ts)
            exc = mk('exc', '|'.join(ts or ['*']), fn, s.lineno - (self.frames[-1].fn.node.lineno if self.frames[-1].fn else 0))
            if implicit:
                si = s0.fork(exc)
                si.ctx = s0.ctx
                self.st = si if self.st is None else self.merge(si, self.st)
            if self.st is None:
                ends, again = self.suppose(s0, h, ts)
                self.event_at(h, 'handler', types=tuple(ts or ['*']), body=body_events, reraises=True, dead=True,
                              implicit=False, called=called, code=s, handler=h, looped=bool(self.loopstack),
                              ends=ends, again=again)
                continue
            if h.name:
                self.setvar(h.name, self.new(Opaque('exception', mk('excval'))))
            hev0 = len(self.events)
            self.cur_exc = getattr(self, 'cur_exc', []) + [(ts[0] if ts else 'Exception', NONE)]
            l = self.loopstack[-1] if self.loopstack else None
            left = [len(self.frames[-1].rets)] + ([len(l.breaks), len(l.conts)] if l else [])
            self.exec_block(h.body)
            self.cur_exc = self.cur_exc[:-1]
            left = left == [len(self.frames[-1].rets)] + ([len(l.breaks), len(l.conts)] if l else [])
            self.event_at(h, 'handler', types=tuple(ts or ['*']), body=body_events, reraises=self.st is None and left,
                          dead=False, implicit=implicit, ends=self.st is None and left, hbody=len(h.body), called=called, code=s, handler=h,
                          looped=bool(self.loopstack), again=self.events[hev0:])
            if self.st is not None:
                outs.append((exc, self.st))
        for x in sink.states:        # not matched by a handler (cannot happen)
            pass
        st = body
        for exc, o in outs:
            if st is None:
                st = o
            else:
                if exc not in o.pc:
                    pass
                b = st
                if not_(exc) not in b.pc and exc in o.pc:
                    b = State(b.heap, s0.pc + (not_(exc),) + b.pc[len(s0.pc):], b.ctx)
                st = self.merge(o, b)
        self.st = st
        if s.finalbody and leaves(s.finalbody):
            self.event_at(s, 'handler', types=('*',), body=body_events, reraises=False, dead=False, implicit=True, ends=False,
                          hbody=0, called=called, code=s, handler=None, looped=False, again=[])
        if s.finalbody:
            if self.st is None:
                # run it for its effects
                self.st = s0.fork()
                self.exec_block(s.finalbody)
                self.st = None
            else:
                self.exec_block(s.finalbody)

    x_TryStar = x_Try

    def suppose(self, s0, h, ts):
        """Would a handler that the analysis does not reach end in an exception?  -> (yes or None, its events)"""
        sv = self.st, self.tries, len(self.events), self.loopstack
        rets = self.frames[-1].rets
        n = len(rets)
        self.st, self.tries = s0.fork(), 1
        self.sinks.append(Sink(None))
        self.loopstack = list(self.loopstack) + [LoopRec(None)] if self.loopstack else self.loopstack
        try:
            if h.name:
                self.setvar(h.name, self.new(Opaque('exception', mk('excval'))))
            self.cur_exc = getattr(self, 'cur_exc', []) + [(ts[0] if ts else 'Exception', NONE)]
            try:
                self.exec_block(h.body)
            finally:
                self.cur_exc = self.cur_exc[:-1]
            l = self.loopstack[-1] if self.loopstack else None
            ends = self.st is None and len(rets) == n and not (l and (l.breaks or l.conts))
        except (Dead, Unmodelled):
            ends = None
        self.sinks.pop()
        again = self.events[sv[2]:]
        del self.events[sv[2]:]
        del rets[n:]
        self.st, self.tries, self.loopstack = sv[0], sv[1], sv[3]
        return ends, again

    def may_raise(self, body, events, types):
        return self.h.may_raise(self, body, events, types) if self.h is not None else True

    def event_at(self, node, kind_, **kw):
        sv, st = self.node, self.st
        self.node = node
        if self.st is None:
            self.st = State({})
        try:
            return self.event(kind_, **kw)
        finally:
            self.node, self.st = sv, st

    def x_With(self, s):
        entered = []
        for k, item in enumerate(s.items):
            e = item.context_expr
            if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and (
                    getattr(e.func, 'id', None) or e.func.attr) == 'suppress':
                f = self.eval(e.func)
                if isinstance(f, Ext) and f.path == 'contextlib.suppress':
                    # the same as a handler that discards
                    h = ast.ExceptHandler(type=ast.Tuple(elts=list(e.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
                    body = s.body if k + 1 == len(s.items) else [ast.With(items=s.items[k + 1:], body=s.body)]
                    t = ast.Try(body=body, handlers=[h], orelse=[], finalbody=[])
                    for n in ast.walk(t):
                        if not hasattr(n, 'lineno') and hasattr(n, '_attributes') and 'lineno' in n._attributes:
                            ast.copy_location(n, s)
                    if not entered:
                        return self.x_Try(t)
                    raise Unmodelled('suppress within a context', self.where())
        for item in s.items:
            v = self.eval(item.context_expr)
            r = self.lib.enter(self, v)
            entered.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r)
        rets, rec = self.frames[-1].rets if self.frames else [], self.loopstack[-1] if self.loopstack else None
        n = len(rets), len(rec.breaks) if rec else 0, len(rec.conts) if rec else 0
        self.exec_block(s.body)
        # paths that leave the block early leave the context as well
        for k in range(n[0], len(rets)):
            rets[k] = (self.leave(entered, rets[k][0]),) + tuple(rets[k][1:])
        if rec:
            for l, m in ((rec.breaks, n[1]), (rec.conts, n[2])):
                for k in range(m, len(l)):
                    l[k] = self.leave(entered, l[k])
        if self.st is None:
            return
        for v in reversed(entered):
            self.lib.exit_(self, v)

    def leave(self, entered, st):
        sv, self.st = self.st, st
        for v in reversed(entered):
            self.lib.exit_(self, v)
        st, self.st = self.st, sv
        return st

    def x_Break(self, s):
        self.loopstack[-1].breaks.append(self.st)
        self.st = None

    def x_Continue(self, s):
        self.loopstack[-1].conts.append(self.st)
        self.st = None

    def x_For(self, s):
        it = self.eval(s.iter)
        segs = self.lib.segments(self, it)
        broke = self.for_loop(segs, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body))
        if s.orelse:
            if broke is None:
                self.exec_block(s.orelse)
            else:
                raise Unmodelled('for-else with break', self.where())

    def x_Match(self, s):
        raise Unmodelled('match statement', self.where())

    # ---------------------------------------------------------------- loops
    def for_loop(self, segs, bindv, body):
        """Iterate over segments.  Returns None if no break can happen."""
        breaks = []
        outer = self.st
        for seg in segs:
            if self.st is None:
                break
            if seg[0] in ('v', 'g'):
                rec = LoopRec(False)
                self.loopstack.append(rec)

                def one():
                    try:
                        bindv(seg[-1])
                        body()
                    except Dead:
                        self.st = None
                if seg[0] == 'v':
                    one()
                else:
                    self.branch(seg[1], one, lambda: None)
                self.loopstack.pop()
                for c in rec.conts:
                    self.st = self.merge(c, self.st)
                breaks.extend(rec.breaks)
            else:
                self.sym_loop(seg, bindv, body, breaks)
        for b in breaks:
            self.st = self.merge(b, self.st)
        return breaks or None

    def snapshot_diff(self, s0, s1):
        """Locations of s0 changed in s1."""
        out = []
        for a, o0 in s0.heap.items():
            o1 = s1.heap.get(a)
            if o1 is o0 or o1 is None:
                continue
            if isinstance(o0, (Env, ModO)):
                self._kv(out, a, 'vars', o0.vars, o1.vars)
            elif isinstance(o0, DictO):
                self._kv(out, a, 'items', o0.items, o1.items)
                if o0.more != o1.more:
                    out.append(('more', a, None, None))
            elif isinstance(o0, ListO):
                if o0.segs != o1.segs:
                    out.append(('list', a, None, None))
            elif isinstance(o0, Arr):
                if o0.t is not o1.t and o0.base is None:
                    out.append(('t', a, None, None))
                self._kv(out, a, 'attrs', o0.attrs, o1.attrs)
            elif isinstance(o0, Frame):
                self._kv(out, a, 'cols', o0.cols, o1.cols)
                if o0.index != o1.index:
                    out.append(('index', a, None, None))
            elif isinstance(o0, Dset):
                self._kv(out, a, 'vars', o0.vars, o1.vars)
                self._kv(out, a, 'coords', o0.coords, o1.coords)
                self._kv(out, a, 'attrs', o0.attrs, o1.attrs)
            elif isinstance(o0, Opaque):
                if o0.t is not o1.t:
                    out.append(('ot', a, None, None))
                self._kv(out, a, 'attrs', o0.attrs, o1.attrs)
            else:
                for f in ('attrs', 'vars', 'dims'):
                    if hasattr(o0, f):
                        self._kv(out, a, f, getattr(o0, f), getattr(o1, f))
        return out

    def _kv(self, out, a, f, d0, d1):
        if not isinstance(d0, dict):
            return
        for k in d1:
            if k not in d0:
                out.append(('new', a, f, k))
            elif d0[k] is not d1[k] and d0[k] != d1[k]:
                out.append(('kv', a, f, k))
        for k in d0:
            if k not in d1:
                out.append(('kv', a, f, k))

    def loc_get(self, st, loc):
        kind_, a, f, k = loc
        o = st.heap[a]
        if kind_ == 't':
            return o.t
        if kind_ == 'ot':
            return o.t
        if kind_ == 'list':
            return o.segs
        if kind_ == 'more':
            return o.more
        if kind_ == 'index':
            return o.index
        return getattr(o, f).get(k, UNDEF)

    def loc_set(self, st, loc, v):
        kind_, a, f, k = loc
        o = st.heap[a].copy()
        st.heap[a] = o
        if kind_ in ('t', 'ot'):
            o.t = v
        elif kind_ == 'list':
            o.segs = v
        elif kind_ == 'more':
            o.more = v
        elif kind_ == 'index':
            o.index = v
        else:
            getattr(o, f)[k] = v

    def shape_like(self, m, t):
        """Register the placeholder m with the shape of t."""
        if isinstance(t, T) and is_arr(t):
            r = ops.rank(t)
            ops.SHAPES[m] = (length(t), ops.ncols(t)) if r > 1 else length(t)
        if isinstance(t, T) and is_int(t):
            pass
        return m

    def placeholder(self, uid, idx, st, loc):
        """Loop-carried placeholder for a location holding v0."""
        v0 = self.loc_get(st, loc)
        if isinstance(v0, T):
            m = mk('mu', uid, idx)
            self.shape_like(m, v0)
            return m, v0, m
        if isinstance(v0, Ref) and isinstance(st.heap.get(v0.a), Arr):
            sv = self.st
            self.st = st
            t0 = self.tof(v0)
            m = mk('mu', uid, idx)
            self.shape_like(m, t0)
            o = st.heap[v0.a].copy()
            o.t, o.base, o.origin = m, None, None
            r = self.new(o, v0.k)
            self.st = sv
            return r, t0, m
        if isinstance(v0, int) and loc[2] == 'cols':
            sv = self.st
            self.st = st
            t0 = self.tof(Ref(v0))
            m = mk('mu', uid, idx)
            self.shape_like(m, t0)
            o = st.heap[v0].copy()
            o.t, o.base = m, None
            r = self.new(o).a
            self.st = sv
            return r, t0, m
        return None, None, None

    def value_term(self, st, v):
        """Term of a scalar or array value in state st, or None."""
        if isinstance(v, T):
            return v
        sv = self.st
        self.st = st
        try:
            if isinstance(v, Ref) and isinstance(st.heap.get(v.a), Arr):
                return self.tof(v)
            if isinstance(v, int) and isinstance(st.heap.get(v), Arr):
                return self.tof(Ref(v))
            if isinstance(v, Phi):
                a, b = self.value_term(st, v.a), self.value_term(st, v.b)
                if a is not None and b is not None:
                    return ite(v.c, a, b)
        finally:
            self.st = sv
        return None

    def run_iter(self, s0, prep, body_once, n, i, sym_guard):
        """One abstract iteration from s0; returns (state, rec)."""
        st = s0.fork()
        self.st = st
        if prep:
            prep(st)
        rec = LoopRec(True)
        self.loopstack.append(rec)
        self.loops.append((n, i))
        try:
            if sym_guard is not None:
                g = sym_guard()
                self.branch(g, body_once, lambda: None)
            else:
                try:
                    body_once()
                except Dead:
                    self.st = None
        finally:
            self.loopstack.pop()
            self.loops.pop()
        st = self.st
        for c in rec.conts:
            st = self.merge(c, st)
        self.st = None
        return st, rec

    def sym_loop(self, seg, bindv, body, breaks):
        _, n, make, guard = seg
        if n is ZERO:
            return
        d = self.decide(cmp_('>', n, ZERO))
        if d is False:
            return
        i = mk('i', ops.fresh())
        ops.UPPER[i] = n
        s0 = self.st
        uid = ops.fresh()

        def once():
            bindv(make(i))
            body()
        sg = (lambda: guard(i)) if guard is not None else None
        self.generic_loop(s0, uid, n, i, once, sg, None, breaks)

    def generic_loop(self, s0, uid, n, i, once, sg, cond, breaks, induction=None):
        """Close a loop.  n/i: trip count and index (for) or cond (while)."""
        carried = {}        # loc -> (placeholder value, init term, mu)
        subst_ind = dict(induction or {})    # mu -> closed form in i

        def prep(st):
            for loc, (pv, t0, m) in carried.items():
                if m is None:
                    if loc[0] == 'list':
                        self.loc_set(st, loc, self.loc_get(s0, loc) + [('mark', uid)])
                    elif loc[0] == 'more':
                        self.loc_set(st, loc, self.loc_get(s0, loc) + [('mark', uid)])
                    continue
                if m in subst_ind:
                    if isinstance(pv, Ref):
                        o = st.heap[pv.a].copy()
                        o.t = subst_ind[m]
                        st.heap[pv.a] = o
                        self.loc_set(st, loc, pv)
                    elif isinstance(pv, int):
                        o = st.heap[pv].copy()
                        o.t = subst_ind[m]
                        st.heap[pv] = o
                        self.loc_set(st, loc, pv)
                    else:
                        self.loc_set(st, loc, subst_ind[m])
                else:
                    self.loc_set(st, loc, pv)
            if cond is not None:
                pass

        def iterate(events):
            if not events:
                self.quiet += 1
            try:
                if cond is None:
                    return self.run_iter(s0, prep, once, n, i, sg) + (TRUE,)
                box = []

                def w():
                    c = self.truth(cond())
                    box.append(c)
                    self.branch_into(c, once)
                st, rec = self.run_iter(s0, prep, w, NONE, i, None)
                return st, rec, box[0] if box else TRUE
            finally:
                if not events:
                    self.quiet -= 1

        ev0 = len(self.events)
        first = True
        s1 = rec = c = None
        nfr = len(self.frames[-1].rets) if self.frames else 0
        for rnd in range(8):
            if not self.quiet:
                del self.events[ev0:]
            if self.frames:
                rets0 = self.frames[-1].rets[:nfr]
                self.frames[-1].rets = rets0
            s1, rec, c = iterate(True)
            allst = [x for x in [s1] + rec.breaks if x is not None]
            if s1 is None and not rec.breaks:
                break
            changed = []
            for sx in allst:
                for loc in self.snapshot_diff(s0, sx):
                    if loc not in changed:
                        changed.append(loc)
            new = [l for l in changed if l[0] != 'new' and l not in carried]
            # induction variables
            newind = False
            if s1 is not None:
                mus = {m: l for l, (pv, t0, m) in carried.items() if m is not None}
                for m, l in mus.items():
                    if m in subst_ind:
                        continue
                    t0 = carried[l][1]
                    v1 = self.value_term(s1, self.loc_get(s1, l))
                    if v1 is None or is_arr(t0) and False:
                        continue
                    dl = self.delta(v1, m)
                    if dl is not None and not mentions(dl, i) and not any(mentions(dl, x) for x in mus) \
                            and (t0.op in ('num', 'sym', 'add', 'mul', 'len') or not is_arr(t0)) and not is_arr(dl):
                        if n is not None or is_num(dl):
                            subst_ind[m] = add(t0, mul(i, dl))
                            newind = True
            if not new and not newind:
                break
            for loc in new:
                if loc[0] in ('list', 'more'):
                    carried[loc] = (None, None, None)
                    continue
                pv, t0, m = self.placeholder(uid, len(carried), s0, loc)
                if m is None and pv is None:
                    carried[loc] = (self.loc_get(s0, loc), None, 0)
                    carried[loc] = (self.loc_get(s0, loc), None, None)
                    continue
                carried[loc] = (pv, t0, m)
        # close
        if s1 is None and not rec.breaks:
            # every iteration ends abruptly (return/raise)
            self.close_returns(s0, n, i, nfr)
            return
        if cond is not None and n is None:
            # while loop: recognise counting loops
            cnt = self.trip_count(c, carried, subst_ind, i, rec)
            if cnt is not None:
                n = cnt
                ops.UPPER[i] = n
        st = s0.fork()
        if rec.breaks and n is not None and cond is None or rec.breaks:
            bc = []
            for b in rec.breaks:
                bc.append(and_(*b.pc[len(s0.pc):]))
            brk = or_(*bc)
        else:
            brk = FALSE
        mus = {m: l for l, (pv, t0, m) in carried.items() if m is not None}
        steps = {}
        sx = s1
        if rec.breaks:
            for b in rec.breaks:
                sx = self.merge(b, sx) if sx is not None else b
        for l, (pv, t0, m) in carried.items():
            if m is None:
                continue
            v1 = self.loc_get(sx, l)
            steps[m] = self.value_term(sx, v1)
        for l, (pv, t0, m) in list(carried.items()):
            if l[0] == 'list':
                segs = self.loc_get(sx, l)
                self.close_list(st, sx, l, segs, uid, n, i, s0, brk, (steps, mus, subst_ind, carried, c))
                continue
            if l[0] == 'more':
                more = self.loc_get(sx, l)
                if ('mark', uid) in more:
                    p = more.index(('mark', uid))
                    st_more = more[:p]
                    for mm in more[p + 1:]:
                        st_more = st_more + [self.close_more(mm, n, i)]
                    self.loc_set(st, l, st_more)
                else:
                    self.loc_set(st, l, more)
                continue
            if m is None:
                # value without a term: last one
                v1 = self.loc_get(sx, l)
                v0 = self.loc_get(s0, l)
                st.heap.update({a: o for a, o in sx.heap.items() if a not in st.heap})
                self.st = st
                self.loc_set(st, l, v1 if not self.val_mentions(v1, {i: 1}, set()) else
                             self.vsubst(v1, {i: sub(n, ONE)} if n is not None else {}))
                continue
            if steps[m] is None:
                f = mk('opaque', 'loopvar', m)
            else:
                f = self.close_var(m, t0, steps, mus, subst_ind, carried, n, i, c, cond is not None and n is None, brk)
            pv1 = self.loc_get(sx, l)
            if isinstance(pv, Ref) or isinstance(pv, int):
                src = sx.heap.get(pv1.a if isinstance(pv1, Ref) else pv1 if isinstance(pv1, int) else -1)
                o = (src or st.heap[pv.a if isinstance(pv, Ref) else pv]).copy()
                o.t, o.base = f, None
                self.st = st
                r = self.new(o, pv.k if isinstance(pv, Ref) else None)
                self.loc_set(st, l, r if isinstance(pv, Ref) else r.a)
            else:
                self.loc_set(st, l, f)
        # locations first set inside the loop keep their last value
        for l in self.snapshot_diff(s0, sx):
            if l[0] == 'new':
                v = self.loc_get(sx, l)
                st.heap.update({a: o for a, o in sx.heap.items() if a not in st.heap})
                self.st = st
                self.set_last(st, sx, l, v, n, i, mus, subst_ind, steps, carried, c, cond is not None and n is None, brk)
        # objects allocated inside
        for a, o in sx.heap.items():
            if a not in st.heap:
                st.heap[a] = o
        st.pc = s0.pc
        st.ctx = s0.ctx
        self.st = st
        self.close_returns(s0, n, i, nfr, normal=st)

    def branch_into(self, c, f):
        """Enter a while body: the path where c fails leaves the loop."""
        d = self.decide(c)
        if d is False:
            self.st = None
            return
        if d is None:
            self.st = self.st.fork(c)
        try:
            f()
        except Dead:
            self.st = None

    def close_returns(self, s0, n, i, nfr, normal=None):
        """Returns inside a symbolic loop."""
        fr = self.frames[-1]
        new = fr.rets[nfr:]
        if not new:
            self.st = normal
            return
        fr.rets = fr.rets[:nfr]
        st = normal
        for rs, rv, lp in new:
            c = and_(*rs.pc[len(s0.pc):])
            if mentions(c, i):
                h, cb = bind(i, c)
                cc = mk('any', n if n is not None else NONE, h, cb)
            else:
                cc = c
            val = rv
            self.st = rs
            if self.val_mentions(rv, {i: 1}, set()):
                t = self.term(rv)
                h, cb, tb = bind(i, c, t)
                val = mk('first', n if n is not None else NONE, h, cb, tb)
            self.st = None
            rs2 = State(rs.heap, s0.pc + ((cc,) if cc is not TRUE else ()), s0.ctx)
            fr.rets.append((rs2, val, tuple(self.loops)))
            if st is not None:
                if cc is TRUE:
                    st = None
                else:
                    st = State(st.heap, st.pc + (not_(cc),), st.ctx)
        self.st = st

    def trip_count(self, c, carried, ind, i, rec):
        """Trip count of a while loop over an induction variable."""
        if rec.breaks:
            return None
        if c.op in ('lt0', 'le0') or c.op == 'not' and c.args[0].op == 'eq0' or \
                c.op == 'not' and c.args[0].op in ('lt0', 'le0'):
            neg_ = c.op == 'not'
            x = c.args[0].args[0] if neg_ else c.args[0]
            op = c.args[0].op if neg_ else c.op
            p = poly(x)
            co = Fraction(0)
            for m, k in p.items():
                if m == ((i, Fraction(1)),):
                    co = k
                elif any(mentions(a, i) for a, e in m):
                    return None
            rest = sub(x, mul(num(co), i))
            if any(s.op == 'mu' and s in [m for (_, _, m) in carried.values()] for s in subterms(rest)):
                return None
            if co == 0:
                return None
            if op == 'eq0':
                return canon(div(neg(rest), num(co)))
            if neg_:
                x, co, rest = neg(x), -co, neg(rest)
                op = 'le0' if op == 'lt0' else 'lt0'
            if co <= 0:
                return None
            q = canon(div(neg(rest), num(co)))     # i < q  or i <= q
            if op == 'lt0':
                return fn('ceil', q)
            return add(fn('floor', q), ONE)
        return None

    def delta(self, s, m):
        """s = m + delta with delta free of m, or None."""
        if s is m:
            return ZERO
        if s.op == 'add':
            rest, hit = [], False
            for a in s.args:
                if a is m and not hit:
                    hit = True
                else:
                    rest.append(a)
            if hit:
                r = add(*rest)
                return None if mentions(r, m) else r
        if s.op == 'ite':
            a, b = self.delta(s.args[1], m), self.delta(s.args[2], m)
            if a is not None and b is not None and not mentions(s.args[0], m):
                return ite(s.args[0], a, b)
        return None

    def stores_of(self, s, m):
        """s = m after guarded stores: list of (guard, idx, val), or None."""
        if s is m:
            return []
        if s.op == 'store':
            r = self.stores_of(s.args[0], m)
            if r is None:
                return None
            return r + [(TRUE, s.args[1], s.args[2])]
        if s.op == 'scatter':
            return None
        if s.op == 'ite':
            a, b = self.stores_of(s.args[1], m), self.stores_of(s.args[2], m)
            if a is None or b is None:
                return None
            c = s.args[0]
            if len(a) == len(b) == 1 and a[0][1] is b[0][1] and a[0][0] is TRUE and b[0][0] is TRUE:
                return [(TRUE, a[0][1], ite(c, a[0][2], b[0][2]))]
            return [(and_(c, g), x, v) for g, x, v in a] + [(and_(not_(c), g), x, v) for g, x, v in b]
        return None

    def close_var(self, m, t0, steps, mus, ind, carried, n, i, c, is_while, brk):
        s = steps[m]
        if m in ind:
            if n is not None and brk is FALSE:
                return canon(subst(ind[m], {i: n}))
        if s is m:
            return t0
        others = [x for x in mus if mentions(s, x) and not (x in ind)]
        if not is_while and brk is FALSE:
            d = self.delta(s, m)
            if d is not None and not any(mentions(d, x) for x in mus if x not in ind):
                return add(t0, canon(sum_over(n, i, d)))
            if s.op in ('or', 'and') and m in s.args:
                r = [a for a in s.args if a is not m]
                r = (or_ if s.op == 'or' else and_)(*r)
                if not any(mentions(r, x) for x in mus):
                    h, rb = bind(i, r)
                    if s.op == 'or':
                        return or_(t0, mk('any', n, h, rb))
                    return and_(t0, not_(mk('any', n, h, not_(rb))))
            if s.op == 'ite' and s.args[2] is m and is_const(s.args[1]) and not any(
                    mentions(s.args[0], x) for x in mus):
                # flag set when a condition holds
                h, cb = bind(i, s.args[0])
                return ite(mk('any', n, h, cb), s.args[1], t0)
            if is_arr(t0) or is_arr(s):
                r = self.close_row(m, t0, s, n, i, mus, ind)
                if r is not None:
                    return r
                st = self.stores_of(s, m)
                if st is not None:
                    r = self.close_stores(m, t0, st, n, i, mus, ind)
                    if r is not None:
                        return r
            if not others:
                last = subst(s, {i: sub(n, ONE)})
                d0 = self.decide_in(cmp_('>', n, ZERO))
                return last if d0 else ite(cmp_('>', n, ZERO), last, t0)
            if s.op in ('min', 'max') and m in s.args:
                r = [a for a in s.args if a is not m]
                if not any(mentions(a, x) for a in r for x in mus):
                    h, rb = bind(i, (min_ if s.op == 'min' else max_)(*r))
                    return (min_ if s.op == 'min' else max_)(t0, mk(s.op + 'L', n, h, rb))
        return self.close_rec(m, steps, mus, ind, carried, n, i, c if is_while else None, brk)

    def decide_in(self, c):
        sv = self.st
        if self.st is None:
            self.st = State({})
        try:
            return self.decide(c)
        finally:
            self.st = sv

    def close_row(self, m, t0, s, n, i, mus, ind):
        """Stores into one and the same row in every iteration."""
        if s.op != 'store' or s.args[0] is not m or is_arr(s.args[1]) or ops.rank(t0) < 2:
            return None
        a, r = s.args[1], s.args[2]
        if a.op in ('sl', 'tuple', 'labels', 'locs') or mentions(a, i) or any(mentions(a, x) for x in mus):
            return None
        old = ops.getitem(m, a)
        row = self.shape_like(mk('mu', -2 - ops.fresh(), 0), ops.getitem(t0, a))
        r2 = subst(r, {old: row})
        if mentions(r2, m) or any(mentions(r2, x) for x in mus if x not in ind):
            return None
        st = self.stores_of(r2, row)
        if st is None:
            return None
        c = self.close_stores(row, ops.getitem(t0, a), st, n, i, [x for x in mus if x in ind] + [row], ind)
        return ops.store(t0, a, c) if c is not None else None

    def close_stores(self, m, t0, st, n, i, mus, ind):
        others = [x for x in mus if x is not m and x not in ind]
        for g, idx, v in st:
            if any(mentions(z, x) for z in (g, idx, v) for x in others) or mentions(idx, m) or mentions(g, m):
                return None
        cur = t0
        for g, idx, v in st:
            if mentions(v, m) and not mentions(idx, i):
                return None
            if mentions(v, m):
                # reads of the element being written see its initial value
                if all(x is idx or diffcmp_never(x, idx) for _, x, _ in st):
                    init = t_getitem(t0, idx) if idx.op not in ('sl', 'tuple') else None
                    if idx.op == 'sl':
                        init = ops.slice_(t0, idx.args[0], idx.args[1])
                        mm = {self.slice_node(m, idx): init}
                    else:
                        mm = {ops.getitem(m, idx): init}
                    v = subst(v, mm)
                if mentions(v, m):
                    return None
            cur = ops.scatter(cur, n, i, idx, v, g)
        return cur

    def slice_node(self, m, idx):
        return ops.slice_(m, idx.args[0], idx.args[1])

    def close_rec(self, m, steps, mus, ind, carried, n, i, c, brk):
        init = {mm: carried[l][1] for mm, l in mus.items()}
        order, todo = [], []

        def visit(t):
            for s in self.preorder(t):
                if s in init and s not in order and s not in ind:
                    order.append(s)
                    todo.append(s)
        if c is not None:
            visit(c)
        if m not in order:
            order.append(m)
            todo.append(m)
        if brk is not FALSE:
            visit(brk)
        while todo:
            x = todo.pop(0)
            if steps.get(x) is None:
                return mk('opaque', 'rec', m)
            visit(steps[x])
        depth = 1 + max([0] + [rec_depth(steps[x]) for x in order] + [rec_depth(init[x]) for x in order])
        ren = {}
        for k, x in enumerate(order):
            sh = ()
            if is_arr(init[x]):
                sh = (length(init[x]),) + ((ops.ncols(init[x]),) if ops.rank(init[x]) > 1 else ())
            ren[x] = mk('rv', depth, k, *sh)
        ren[i] = mk('ri', depth)
        r = mk('rec', depth, order.index(m),
               subst(c, ren) if c is not None else mk('for', n if n is not None else NONE),
               subst(brk, ren), mk('tuple', *[init[x] for x in order]),
               mk('tuple', *[subst(steps[x], ren) for x in order]))
        return r

    def preorder(self, t):
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed([a for a in x.args if isinstance(a, T)]))

    def collect(self, new, steps, mus, ind, carried, n, i, c, brk):
        """Items that the iterations of a loop with an open end append to a list."""
        items = []
        for s in new:
            if s[0] not in ('v', 'g') or not isinstance(s[-1], T) or is_arr(s[-1]):
                return None
            items.append(mk('pair', TRUE if s[0] == 'v' else s[1], s[-1]))
        key = mk('mu', -1, 1)
        f = self.close_rec(key, dict(steps, **{}) | {key: mk('tuple', *items)}, dict(mus) | {key: ('x',)}, ind,
                           dict(carried) | {('x',): (None, mk('undef'), key)}, n, i, c, brk)
        return mk('collect', *f.args) if f.op == 'rec' else None

    def close_list(self, st, sx, l, segs, uid, n, i, s0, brk, how=None):
        mark = ('mark', uid)
        if mark not in segs:
            st.heap.update({a: o for a, o in sx.heap.items() if a not in st.heap})
            self.loc_set(st, l, segs)
            return
        p = segs.index(mark)
        out = list(segs[:p])
        st.heap.update({a: o for a, o in sx.heap.items() if a not in st.heap})
        # per-iteration appended items
        if how and segs[p + 1:] and (n is None or brk is not FALSE):
            x = self.collect(segs[p + 1:], *how[:4], n, i, how[4], brk)
            if x is not None:
                j = mk('i', ops.fresh())
                ops.LO[mk('len', x)] = 0
                self.loc_set(st, l, out + [('gen', mk('len', x), j, TRUE, ops.getitem(x, j))])
                return
        for s in segs[p + 1:]:
            if s[0] == 'v':
                out.append(('gen', n if n is not None else mk('trips', uid), i, TRUE, s[1]))
            elif s[0] == 'g':
                out.append(('gen', n if n is not None else mk('trips', uid), i, s[1], s[2]))
            elif s[0] == 'gen':
                # nested: flatten to a product index
                out.append(('gen2', (n, i), s))
            else:
                out.append(s)
        self.loc_set(st, l, out)

    def close_more(self, m, n, i):
        if m[0] == 'set':
            return ('gen', n, i, TRUE, m[1], m[2])
        if m[0] == 'if':
            x = self.close_more(m[2], n, i)
            if x[0] == 'gen':
                return x[:3] + (and_(m[1], x[3]),) + x[4:]
            return ('if', m[1], x)
        return m

    def set_last(self, st, sx, l, v, n, i, mus, ind, steps, carried, c, is_while, brk):
        sv = self.st
        self.st = st
        try:
            if l[2] == 'items' and isinstance(l[3], T) and mentions(l[3], i):
                # a dictionary entry per iteration
                o = self.st.heap[l[1]].copy()
                o.more = o.more + [('gen', n, i, TRUE, l[3], v)]
                self.st.heap[l[1]] = o
                return
            t = self.value_term(sx, v)
            if t is not None:
                if is_while or brk is not FALSE or any(mentions(t, x) for x in mus):
                    steps2 = dict(steps)
                    key = mk('mu', -1, 0)
                    steps2[key] = t
                    mus2 = dict(mus)
                    mus2[key] = ('x',)
                    carried2 = dict(carried)
                    carried2[('x',)] = (None, mk('undef'), key)
                    f = self.close_rec(key, steps2, mus2, ind, carried2, n, i, c if is_while else None, brk)
                    f = subst(f, {})
                else:
                    f = subst(t, {i: sub(n, ONE)})
                if isinstance(v, Ref):
                    o = sx.heap[v.a].copy()
                    o.t, o.base = f, None
                    self.loc_set(st, l, self.new(o, v.k))
                elif isinstance(v, int):
                    o = sx.heap[v].copy()
                    o.t, o.base = f, None
                    self.loc_set(st, l, self.new(o).a)
                else:
                    self.loc_set(st, l, f)
                return
            if n is not None and isinstance(v, (Val,)):
                v = self.vsubst(v, {i: sub(n, ONE)})
            self.loc_set(st, l, v)
        finally:
            self.st = sv

    def x_While(self, s):
        brks = []
        for k in range(5000):
            c = self.truth(self.eval(s.test))
            d = self.decide(c)
            if d is False:
                break
            if d is None:
                self.sym_while(s, brks)
                break
            # condition certainly true: one concrete iteration, unless a break is undecided
            s0 = self.st.fork()
            ev0 = len(self.events)
            rec = LoopRec(False)
            self.loopstack.append(rec)
            nfr = len(self.frames[-1].rets)
            self.exec_block(s.body)
            self.loopstack.pop()
            for cst in rec.conts:
                self.st = self.merge(cst, self.st)
            if self.st is not None and (rec.breaks or len(self.frames[-1].rets) > nfr):
                # undecided exit
                if not self.quiet:
                    del self.events[ev0:]
                self.frames[-1].rets = self.frames[-1].rets[:nfr]
                self.st = s0
                self.sym_while(s, brks)
                break
            brks.extend(rec.breaks)
            if self.st is None:
                break
        else:
            raise Unmodelled('loop does not end', self.where())
        for b in brks:
            self.st = self.merge(b, self.st)
        if s.orelse and not brks:
            self.exec_block(s.orelse)

    def sym_while(self, s, brks):
        i = mk('i', ops.fresh())
        s0 = self.st
        self.event('while', test=None)
        self.generic_loop(s0, ops.fresh(), None, i, lambda: self.exec_block(s.body), None,
                          lambda: self.eval(s.test), brks)

    # ---------------------------------------------------------- expressions
    def eval(self, e):
        sv = self.node
        if hasattr(e, 'lineno'):
            self.node = e
        try:
            m = getattr(self, 'e_' + type(e).__name__, None)
            if m is None:
                raise Unmodelled('expression ' + type(e).__name__, self.where())
            r = m(e)
            if self.st is None:
                raise Dead()
            return r
        finally:
            self.node = sv

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return Tup(self.eval_list(e.elts))

    def e_List(self, e):
        return self.list_(self.eval_list(e.elts))

    def e_Set(self, e):
        return self.list_(self.eval_list(e.elts), 'set')

    def eval_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.lib.seq_items(self, v)
                if items is None:
                    raise Unmodelled('star expression', self.where())
                out.extend(items)
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        r = self.dict_()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(self, r, self.eval(v))
            else:
                kv = self.eval(k)
                self.lib.dict_set(self, r, kv, self.eval(v), fresh=True)
        return r

    def e_UnaryOp(self, e):
        op = type(e.op).__name__
        v = self.eval(e.operand)
        if op == 'Not':
            return not_(self.truth(v))
        return self.lib.unary(self, op, v)

    def e_BinOp(self, e):
        return self.lib.binop(self, type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isand:
                r = self.choose(c, lambda: go(vals[1:]), lambda: v)
            else:
                r = self.choose(c, lambda: v, lambda: go(vals[1:]))
            return r
        return go(e.values)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            c = self.lib.compare(self, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = and_(self.truth(res), self.truth(c))
            left = right
        return res

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.choose(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Lambda(self, e):
        f = self.make_func(e, '<lambda>')
        return f

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unmodelled('star expression', self.where())

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                spec = NONE
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                if v.conversion not in (-1, 115):
                    x = mk('repr', self.term(x))
                parts.append(self.lib.fmt_value(self, x, spec))
        return self.lib.fmt_join(parts)

    def e_FormattedValue(self, e):
        return self.lib.fmt_value(self, self.eval(e.value), NONE)

    def eval_index(self, s):
        return self.eval(s)

    def e_Slice(self, e):
        f = lambda x: self.scalar(self.eval(x)) if x is not None else NONE
        return Slc(f(e.lower), f(e.upper), f(e.step))

    def scalar(self, v):
        if isinstance(v, T):
            return v
        return self.term(v)

    def e_Subscript(self, e):
        return self.lib.getitem(self, self.eval(e.value), self.eval_index(e.slice))

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def e_Call(self, e):
        # super().__init__ etc.
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.lib.seq_items(self, v)
                if items is None:
                    args.append(('*', v))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.resolve(self.eval(k.value))
                kw.update(self.lib.kwargs_of(self, v))
            else:
                kw[k.arg] = self.eval(k.value)
        self.callsites += 1
        return self.call(f, args, kw, e)

    # ------------------------------------------------------- comprehensions
    def comp(self, e, emit):
        env = Env(self.modname, self.frames[-1].env)
        a = self.new(env).a
        fr = FnRec(a, self.frames[-1].fn)
        self.frames.append(fr)
        try:
            def gen(k):
                if k == len(e.generators):
                    emit()
                    return
                g = e.generators[k]
                it = self.eval(g.iter)
                segs = self.lib.segments(self, it)

                def body():
                    def inner(j):
                        if j == len(g.ifs):
                            gen(k + 1)
                            return
                        c = self.truth(self.eval(g.ifs[j]))
                        self.branch(c, lambda: inner(j + 1), lambda: None)
                    inner(0)
                self.for_loop(segs, lambda v: self.assign(g.target, v), body)
            gen(0)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()

    def e_ListComp(self, e, kind_='list'):
        r = self.list_((), kind_)

        def emit():
            v = self.eval(e.elt)
            self.mut(r).segs.append(('v', v))
        self.comp(e, emit)
        return r

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e, 'gen')

    def e_SetComp(self, e):
        return self.e_ListComp(e, 'set')

    def e_DictComp(self, e):
        r = self.dict_()

        def emit():
            k = self.eval(e.key)
            v = self.eval(e.value)
            self.lib.dict_set(self, r, k, v, fresh=True)
        self.comp(e, emit)
        return r

    def e_Yield(self, e):
        fr = self.frames[-1]
        v = self.eval(e.value) if e.value is not None else NONE
        self.mut(fr.yields).segs.append(('v', v))
        return NONE

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        v = self.eval(e.value)
        r = fr.yields
        self.for_loop(self.lib.segments(self, v), lambda x: self.mut(r).segs.append(('v', x)), lambda: None)
        return NONE

    def e_Await(self, e):
        raise Unmodelled('await', self.where())

    # ------------------------------------------------------------ attributes
    def find_attr(self, cls, name):
        o = self.get(cls.a)
        if name in o.attrs:
            return o.attrs[name]
        for b in cls.bases:
            if isinstance(b, Cls):
                v = self.find_attr(b, name)
                if v is not None:
                    return v
        return None

    def getattr(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return self.choose(v.c, lambda: self.getattr(v.a, name), lambda: self.getattr(v.b, name))
        if isinstance(v, Mod):
            r = self.mod_attr(v.name, name)
            if r is None:
                self.raise_('AttributeError', const(name))
            return self.resolve(r)
        if isinstance(v, Ext):
            return self.lib.ext_attr(self, v.path, name)
        if isinstance(v, Cls):
            r = self.find_attr(v, name)
            if r is None:
                if name == '__name__':
                    return const(v.name)
                return Meth(v, name)
            if isinstance(r, Func) and 'classmethod' in r.flags:
                return Bound(v, r)
            return r
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, Inst):
                if name in o.attrs:
                    return self.resolve(o.attrs[name])
                r = self.find_attr(o.cls, name)
                if r is None:
                    if name == '__class__':
                        return o.cls
                    if name == '__dict__':
                        return self.dict_({const(k): x for k, x in o.attrs.items()})
                    g = self.find_attr(o.cls, '__getattr__')
                    if g is not None:
                        return self.call(Bound(v, g), [const(name)], {})
                    self.raise_('AttributeError', const(name))
                if isinstance(r, Prop):
                    return self.call(r.fget, [v], {})
                if isinstance(r, Func):
                    if 'staticmethod' in r.flags:
                        return r
                    if 'classmethod' in r.flags:
                        return Bound(o.cls, r)
                    return Bound(v, r)
                return r
        return self.lib.attr(self, v, name)

    def setattr(self, v, name, x):
        v = self.resolve(v)
        if isinstance(v, Phi):
            return self.branch(v.c, lambda: self.setattr(v.a, name, x), lambda: self.setattr(v.b, name, x))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, Inst):
                self.mut(v, 'attribute ' + name).attrs[name] = x
                return
        if isinstance(v, Cls):
            self.mut(v.a, 'class attribute %s.%s' % (v.name, name)).attrs[name] = x
            return
        if isinstance(v, Mod):
            self.mut(self.module(v.name), 'module variable %s.%s' % (v.name, name)).vars[name] = x
            return
        self.lib.set_attr(self, v, name, x)

    # ----------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        f = self.resolve(f)
        if isinstance(f, Phi):
            return self.choose(f.c, lambda: self.call(f.a, args, kw, node), lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, Native):
            return f.fn(self, args, kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kw, node)
        if isinstance(f, Meth):
            return self.lib.call_method(self, f.obj, f.name, args, kw, node)
        if isinstance(f, Ref):
            o = self.get(f)
            if isinstance(o, Inst):
                c = self.find_attr(o.cls, '__call__')
                if c is not None:
                    return self.call(Bound(f, c), args, kw, node)
            return self.lib.call_obj(self, f, args, kw, node)
        if isinstance(f, T):
            if f is NONE or is_const(f):
                self.raise_('TypeError', const('not callable'))
            return self.lib.opaque_call(self, mk('call', f), args, kw)
        raise Unmodelled('call of %r' % (f,), self.where())

    def instantiate(self, c, args, kw):
        isexc = any(isinstance(b, Ext) and (b.path.split('.')[-1] in EXC_PARENTS) for b in c.bases)
        r = self.new(Inst(c))
        init = self.find_attr(c, '__init__')
        if isinstance(init, Func):
            self.call_func(init, [r] + list(args), kw)
        elif isexc:
            EXC_PARENTS.setdefault(c.name, self.exc_bases(c))
        elif self.get(c.a).attrs.get('__dataclass__'):
            pass
        return r

    def call_func(self, f, args, kw):
        node = f.node
        if self.depth > 60:
            raise Unmodelled('call depth', self.where())
        if 'jit' in f.flags or 'njit' in f.flags:
            key = (f.mod, id(node)) + tuple(args) + tuple(sorted(kw.items()))
            if all(isinstance(a, T) for a in args) and all(isinstance(a, T) for a in kw.values()):
                hit = self.jitcache.get(key)
                if hit is not None:
                    return self.replay(hit)
                a0, ev0 = self.next, len(self.events)
                v = self.call_func2(f, args, kw)
                if not self.quiet:
                    self.jitcache[key] = (v, {a: self.st.heap[a] for a in range(a0, self.next) if a in self.st.heap
                                              and self.reachable(v, a)}, self.events[ev0:])
                return v
        return self.call_func2(f, args, kw)

    def reachable(self, v, a):
        if isinstance(v, Ref):
            return v.a == a
        if isinstance(v, Tup):
            return any(self.reachable(x, a) for x in v.items)
        return False

    jitcache = {}

    def replay(self, hit):
        v, objs, evs = hit
        m = {}
        for a, o in objs.items():
            n = self.new(o.copy())
            m[a] = n.a

        def ren(x):
            if isinstance(x, Ref):
                return Ref(m.get(x.a, x.a), x.k)
            if isinstance(x, Tup):
                return Tup([ren(y) for y in x.items])
            return x
        return ren(v)

    def call_func2(self, f, args, kw):
        node = f.node
        env = Env(f.mod, f.env)
        env.fn = f
        a = self.new(env).a
        self.st.heap[a].origin = None
        self.bind_args(f, a, list(args), dict(kw))
        rec = FnRec(a, f)
        is_gen = isinstance(node, ast.FunctionDef) and has_yield(node)
        if is_gen:
            rec.yields = self.list_((), 'gen')
        svm, svn, svl = self.modname, self.node, self.loopstack
        pc0, ctx0 = self.st.pc, self.st.ctx
        self.frames.append(rec)
        self.calls.add((f.mod, f.name, getattr(node, 'lineno', 0)))
        if self.tries:
            self.entered.append((f.mod, f.name))
        self.modname = f.mod
        self.loopstack = []
        self.depth += 1
        svload = self.loading
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body)
                return v
            self.exec_block(node.body)
            if self.st is not None:
                rec.rets.append((self.st, NONE, tuple(self.loops)))
        finally:
            self.frames.pop()
            self.modname, self.node, self.loopstack = svm, svn, svl
            self.depth -= 1
        if not rec.rets:
            self.st = None
            raise Dead()
        rets = rec.rets
        st, v, _ = rets[-1]
        for s2, v2, _ in reversed(rets[:-1]):
            self.st = None
            v = self.merge_val(None, s2, v2, st, v)
            st = self.st
        self.st = st
        if len(rets) > 1 and False:
            self.st.pc = pc0
        self.st.heap.pop(a, None) if not self.env_escapes(a, v) else None
        if is_gen:
            return rec.yields
        return v

    def env_escapes(self, a, v):
        return True

    def bind_args(self, f, a, args, kw):
        node = f.node
        A = node.args
        names = [p.arg for p in A.posonlyargs + A.args]
        vals = {}
        rest = []
        if any(isinstance(x, tuple) for x in args):
            raise Unmodelled('star argument', self.where())
        for k, v in enumerate(args):
            if k < len(names):
                vals[names[k]] = v
            else:
                rest.append(v)
        if rest and not A.vararg:
            self.raise_('TypeError', const('arguments of ' + f.name))
        extra = {}
        for k, v in kw.items():
            if k in names or k in [p.arg for p in A.kwonlyargs]:
                vals[k] = v
            elif A.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', const('argument %s of %s' % (k, f.name)))
        nd = len(f.defaults)
        for k, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(k, d)
        for k, d in f.kwdefaults.items():
            vals.setdefault(k, d)
        for k in names + [p.arg for p in A.kwonlyargs]:
            if k not in vals:
                self.raise_('TypeError', const('missing argument %s of %s' % (k, f.name)))
        o = self.get(a)
        o.vars.update(vals)
        if A.vararg:
            o.vars[A.vararg.arg] = Tup(rest)
        if A.kwarg:
            o.vars[A.kwarg.arg] = self.dict_({const(k): v for k, v in extra.items()})


def diffcmp_never(x, y):
    d = canon(sub(x, y)) if x.op not in ('sl', 'tuple') and y.op not in ('sl', 'tuple') else None
    return d is not None and d.op == 'num' and d.args[0] != 0


def rec_depth(t):
    return max([0] + [s.args[0] for s in subterms(t) if s.op in ('rec', 'rv', 'ri', 'collect')])


_YIELD = {}


def has_yield(node):
    r = _YIELD.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _YIELD[node] = r
    return r
