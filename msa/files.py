"""The output files of one valuation: the file events of the analysed program evaluated on it,
loops over files and chunks unrolled.  No statement of the program is executed."""
import numpy as np
from .terms import *
from . import ops
from .val import Lab, Unknown, truth


class Var(object):
    def __init__(self, name, dtype, dims):
        self.name, self.dtype, self.dims = name, dtype, dims
        self.a = None           # values
        self.n = None           # number of writes by distinct pieces
        self.attrs = {}
        self.writes = []        # (piece, index, at)


class File(object):
    def __init__(self, path):
        self.path = path
        self.dims, self.vars, self.attrs = {}, {}, {}
        self.created = []       # where it was created

    def size(self, d):
        n = self.dims.get(d)
        if n is None and d in self.vars and self.vars[d].a is not None:
            return len(self.vars[d].a)
        return n


class Bad(Exception):
    """The files cannot be written as the program does."""

    def __init__(self, what, at):
        Exception.__init__(self, what)
        self.at = at


def unroll(e, loops, k=0, env=None, pos=(), once=False):
    """Environments of the iterations of nested loops."""
    env = env or {}
    if k == len(loops):
        yield env, pos
        return
    n, i = loops[k]
    # of a loop of unknown length, the first iteration
    m = 1 if n is NONE and once else e.int(n, env) if n is not NONE else None
    if m is None:
        raise Unknown('a loop of unknown length')
    if m > 400:
        raise Unknown('%d iterations' % m)
    for j in range(m):
        e2 = dict(env)
        e2[('i', i)] = float(j)
        for t in unroll(e, loops, k + 1, e2, pos + (j,), once):
            yield t


def happens(e, pc, env):
    for c in pc:
        try:
            if not truth(e.ev(c, env)):
                return False
        except Unknown:
            pass
    return True


def simulate(p, e, values=None):
    """Files of program p under valuation e: path -> File.  values: names of output variables
    whose values are wanted (all by default)."""
    files = {}
    once = set()
    for ev in p.events:
        kind = ev['kind']
        if kind == 'shape' and ev['what'] in ('assignment', 'column', 'coordinate', 'index', 'operands', 'bincount'):
            lengths(e, ev)
            continue
        if kind not in ('nc_open', 'nc_dim', 'nc_var', 'nc_attr', 'nc_write'):
            continue
        for env, pos in unroll(e, ev['loops']):
            if not happens(e, ev['pc'], env):
                continue
            path = e.ev(ev['file'], env)
            at = ev['at']
            if kind == 'nc_open':
                m = e.ev(ev['mode'], env)
                if m[0] in 'wx' or path not in files:
                    if m[0] not in 'wx':
                        if m[0] == 'a':
                            files[path] = File(path)
                            continue
                        raise Bad('%s is opened but was never created' % path, at)
                    f = files.get(path)
                    if f is not None:
                        raise Bad('%s is created twice' % path, at)
                    files[path] = f = File(path)
                    f.created.append((at, ev['ctx']))
                continue
            f = files.get(path)
            if f is None:
                raise Bad('%s is written but was never created' % path, at)
            if kind == 'nc_dim':
                s = ev['size']
                f.dims[e.ev(ev['name'], env)] = None if s is NONE else e.int(s, env)
            elif kind == 'nc_var':
                n = e.ev(ev['name'], env)
                if n in f.vars:
                    raise Bad('variable %s is created twice' % n, at)
                f.vars[n] = Var(n, ev['dtype'], tuple(e.ev(d, env) for d in ev['dims']))
            elif kind == 'nc_attr':
                k = e.ev(ev['name'], env)
                try:
                    v = e.ev(ev['value'], env)
                except Unknown:
                    v = None
                if ev['var'] is None:
                    f.attrs[k] = v
                else:
                    f.vars[e.ev(ev['var'], env)].attrs[k] = v
            else:
                n = e.ev(ev['var'], env)
                if values is not None and n not in values and str(n).startswith('N_'):
                    continue
                write(e, f, f.vars[n], ev, env, pos, at)
    return files


def lengths(e, ev):
    """Values are put where as many fit."""
    try:
        for env, pos in unroll(e, ev['loops'], once=True):
            try:
                if not happens(e, ev['pc'], env):
                    continue
                a, b = e.int(ev['a'], env), e.int(ev['b'], env)
            except (IndexError, Unknown):
                continue        # cells are counted within their chunk
            if ev['what'] in ('operands', 'bincount'):
                if a != b and (ev['what'] == 'bincount' or a != 1 and b != 1):
                    raise Bad('%d values are combined with %d' % (max(a, 0), max(b, 0)), ev['at'])
            elif a != b and (a != 1 or ev['what'] == 'column'):
                raise Bad('%d values are put into %d places' % (a, b), ev['at'])
    except Unknown:
        pass


def write(e, f, v, ev, env, pos, at):
    idx = ev['idx']
    idx = list(idx.args) if idx.op == 'tuple' else [idx]
    x = e.ev(ev['value'], env)
    x = np.asarray(x.a if isinstance(x, Lab) else x, dtype=float)
    sizes = [f.size(d) for d in v.dims]
    if v.a is None:
        sh = [n if n is not None else (x.shape[k] if x.ndim == len(v.dims) else 0) for k, n in enumerate(sizes)]
        v.a = np.full(sh, np.nan)
        v.n = np.zeros(sh)
    sel = []
    for k, i in enumerate(idx):
        if i.op == 'sl':
            a, b = [None if q is NONE else e.int(q, env) for q in i.args[:2]]
            sel.append(slice(a, b))
        else:
            sel.append(e.int(i, env))
    sel = tuple(sel)
    t = v.a[sel]
    if x.ndim and t.shape != x.shape:
        raise Bad('%s: a piece of shape %s is written to a place of shape %s' % (v.name, x.shape, t.shape), at)
    key = (sel_key(sel), ev['at'])
    v.writes.append((pos, sel, at))
    # the same piece again is the same task evaluated again
    if not any(k == key and same_values(x, y) for k, y in getattr(v, 'seen', ())):
        v.n[sel] += 1
    v.seen = getattr(v, 'seen', []) + [(key, x)]
    v.a[sel] = x


def sel_key(s):
    return tuple((q.start, q.stop) if isinstance(q, slice) else q for q in s)


def same_values(a, b):
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
