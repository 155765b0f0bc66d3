"""Analyses of single public functions: symbolic daily records and parameters."""
from . import terms as tm
from .terms import *
from . import ops
from .ops import arr_sym
from .values import *
from .interp import Interp, Dead, Unmodelled, FnRec

REPO = '/repo'


class K(object):
    """One interpreter with the package loaded, and helpers to call into it."""

    def __init__(self, repo=REPO, harness=None):
        self.I = Interp(repo, harness=harness)
        self.n = sym('n_days', 'int')
        ops.LO[self.n] = 1

    def fn(self, dotted):
        m, f = dotted.rsplit('.', 1)
        v = self.I.mod_attr(m, f)
        if v is None:
            raise Unmodelled('%s is gone' % dotted, '')
        return v

    def call(self, f, *args, **kw):
        I = self.I
        if isinstance(f, str):
            f = self.fn(f)
        return I.call(f, list(args), kw)

    def params(self, **kw):
        return self.I.dict_({const(k): (const(v) if not isinstance(v, (T, Val)) else v) for k, v in kw.items()})

    def nd(self, name, n=None):
        return self.I.arr(arr_sym(name, n or self.n))

    def frame(self, cols, start='T0'):
        from . import libpd
        I = self.I
        ax = arr_sym('days', self.n)
        ops.TIME_AXES.add(ax)
        idx = I.arr(ax, k='idx')
        fr = libpd.new_frame(I, idx)
        for c in cols:
            I.mut(fr).cols[c] = self.nd(c)
        return fr

    def col(self, fr, c):
        v = self.I.get(fr).cols[c]
        return self.I.tof(self.I.resolve(v))
