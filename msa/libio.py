"""Models of the input/output libraries: netCDF4, dask, locks, files, configuration
parsers, the command line, logging."""
from .terms import *
from . import ops
from . import lib
from .values import *

QUIET = {'logger', 'handler', 'formatter', 'client', 'cluster', 'quiet'}


def scal(I, v):
    v = I.resolve(v)
    return I.term(v)


# ---------------------------------------------------------------- netCDF4
def new_file(I, path, mode):
    f = I.new(NcFile(path, mode))
    o = I.get(f)
    o.vars, o.dims, o.attrs = I.dict_(), I.dict_(), I.dict_()
    return f


def nc_dataset(I, a, kw, node):
    path = scal(I, a[0] if a else kw['filename'])
    mode = a[1] if len(a) > 1 else kw.get('mode', const('r'))
    mode = scal(I, mode)
    I.event('nc_open', file=path, mode=mode)
    files = I.files
    m = mode.args[0] if mode.op == 'str' else '?'
    old = None
    for p, r, lp in files:
        if equal(p, path):
            old = r
        elif lp and I.loops and len(lp) <= len(I.loops):
            # created by an iteration over the same sequence
            for cur in (I.loops[:len(lp)], I.loops[-len(lp):]):
                mp = {b: d for (a, b), (c, d) in zip(lp, cur) if equal(a, c)}
                if mp and equal(subst(p, mp), path):
                    old = r
    if m.startswith('w') or m == 'x' or old is None:
        r = new_file(I, path, mode)
        I.get(r).known = m.startswith('w') or m == 'x'
        if old is None and not I.get(r).known and files:
            like(I, r, files[-1][1])
        files.append((path, r, list(I.loops)))
        return r
    if I.get(old).path is not path:
        I.mut(old).path = path
    return old


def like(I, r, other):
    """A file opened under a name that is not evidently the name of a file created: it is
    taken to have the content of the last one; whether it exists is left to the evaluation of
    the two names."""
    o, x = I.get(r), I.get(other)
    for k, v in I.get(x.vars).items.items():
        v = I.resolve(v)
        y = I.get(v) if isinstance(v, Ref) else None
        if isinstance(y, NcVar):
            n = I.new(NcVar(r.a, y.name, y.dtype, y.dims))
            I.get(n).attrs = dict(y.attrs)
            lib.dict_set(I, o.vars, k, n)
    for k, v in I.get(x.dims).items.items():
        lib.dict_set(I, o.dims, k, v)


def nc_attr(I, v, name):
    o = I.get(v)
    if isinstance(o, NcFile):
        if name == 'variables':
            return o.vars
        if name == 'dimensions':
            return o.dims
        k = const(name)
        if k in I.get(o.attrs).items:
            return I.get(o.attrs).items[k]
        return Meth(v, name)
    if name == 'dimensions':
        return Tup(o.dims)
    if name in ('name', '_name'):
        return o.name
    if name in o.attrs:
        return I.resolve(o.attrs[name])
    if name == 'shape':
        return mk('ncshape', I.term(v))
    return Meth(v, name)


def nc_set_attr(I, v, name, x):
    o = I.get(v)
    k = name if isinstance(name, T) else const(name)
    if isinstance(o, NcFile):
        I.event('nc_attr', file=o.path, var=None, name=k, value=I.term(x))
        lib.dict_set(I, o.attrs, k, x)
        return
    I.event('nc_attr', file=I.get(o.file).path, var=o.name, name=k, value=I.term(x))
    if k.op == 'str':
        I.mut(v).attrs[k.args[0]] = x


def nc_getitem(I, v, idx):
    o = I.get(v)
    if isinstance(o, NcFile):
        return lib.getitem(I, o.vars, idx)
    return I.arr(mk('ncread', I.term(v), I.term(idx)))


def nc_setitem(I, v, idx, x):
    o = I.get(v)
    if isinstance(o, NcFile):
        raise I.Unmodelled('item of a netCDF file', I.where())
    I.event('nc_write', file=I.get(o.file).path, var=o.name, dims=o.dims, idx=I.term(idx), value=num_term(I, x),
            dtype=o.dtype)


def num_term(I, x):
    return I.term(I.resolve(x))


def nc_method(I, obj, name, args, kw):
    o = I.get(obj)
    if isinstance(o, NcFile):
        if name == 'createDimension':
            n = scal(I, args[0] if args else kw['dimname'])
            s = scal(I, args[1] if len(args) > 1 else kw.get('size', NONE))
            I.event('nc_dim', file=o.path, name=n, size=s)
            lib.dict_set(I, o.dims, n, s)
            return NONE
        if name == 'createVariable':
            n = scal(I, args[0] if args else kw['varname'])
            t = scal(I, args[1] if len(args) > 1 else kw['datatype'])
            d = args[2] if len(args) > 2 else kw.get('dimensions', Tup(()))
            ds = lib.seq_items(I, I.resolve(d))
            if ds is None:
                raise I.Unmodelled('dimensions of a variable', I.where())
            ds = tuple(I.scalar(x) for x in ds)
            r = I.new(NcVar(obj.a, n, t, ds))
            I.event('nc_var', file=o.path, name=n, dtype=t, dims=ds, kw={k: I.term(x) for k, x in kw.items()})
            lib.dict_set(I, o.vars, n, r)
            return r
        if name in ('close', 'sync'):
            I.event('nc_close', file=o.path)
            return NONE
        if name in ('setncattr', 'setncattr_string'):
            nc_set_attr(I, obj, I.scalar(args[0]), args[1])
            return NONE
        if name == 'setncatts':
            for e in lib.dict_entries(I, I.resolve(args[0])):
                nc_set_attr(I, obj, e[2] if isinstance(e[2], T) else I.term(e[2]), e[3])
            return NONE
        if name in ('set_auto_mask', 'set_auto_scale', 'set_auto_maskandscale', 'set_always_mask', 'set_fill_off',
                    'set_fill_on'):
            I.event('nc_setting', name=name)
            return NONE
    else:
        if name in ('setncattr', 'setncattr_string'):
            nc_set_attr(I, obj, I.scalar(args[0]), args[1])
            return NONE
        if name == 'setncatts':
            for e in lib.dict_entries(I, I.resolve(args[0])):
                nc_set_attr(I, obj, e[2], e[3])
            return NONE
        if name in ('set_auto_mask', 'set_auto_scale', 'set_auto_maskandscale'):
            I.event('nc_setting', name=name)
            return NONE
    raise I.Unmodelled('netCDF4 %s' % name, I.where())


# ------------------------------------------------------------------- dask
def delayed(I, f):
    def call(I, args, kw, node):
        kw = {k: v for k, v in kw.items() if k not in ('dask_key_name', 'pure')}
        t = I.new(Opaque('task', mk('task', I.term(f), ops.fresh()), {'fn': f, 'args': Tup(args), 'done': FALSE}))
        I.get(t).kwargs = kw
        I.event('task', fn=I.term(f))
        return t
    if not isinstance(f, (Func, Bound, Native, Cls, Ext, Meth, Phi)):
        return f
    return I.new(Opaque('delayedfn', mk('delayedfn', I.term(f)), {'call': call}))


def b_delayed(I, a, kw, node):
    if a:
        return delayed(I, I.resolve(a[0]))
    return Native('decorator:', lambda I, a, kw, n: delayed(I, I.resolve(a[0])))


def run_tasks(I, v, how):
    """Evaluates every task in a collection once."""
    v = I.resolve(v)
    if isinstance(v, Phi):
        I.branch(v.c, lambda: run_tasks(I, v.a, how), lambda: run_tasks(I, v.b, how))
        return
    if isinstance(v, Tup):
        for x in v.items:
            run_tasks(I, x, how)
        return
    if not isinstance(v, Ref):
        return
    o = I.get(v)
    if isinstance(o, ListO):
        cell = []
        I.for_loop(lib.segments(I, v), lambda x: cell.append(x), lambda: run_tasks(I, cell.pop(), how))
        return
    if isinstance(o, DictO):
        for e in lib.dict_entries(I, v):
            run_tasks(I, e[3], how)
        return
    if isinstance(o, Opaque) and o.cls == 'task':
        if how == 'compute':
            I.event('task_wait', fn=I.term(o.attrs['fn']))
        if o.attrs['done'] is TRUE:
            return
        I.get(v).attrs = dict(o.attrs, done=TRUE)
        I.event('task_run', how=how, fn=I.term(o.attrs['fn']))
        sv = I.st.ctx
        I.st.ctx = sv + (('task', v.a),)
        r = I.call(o.attrs['fn'], list(o.attrs['args'].items), o.kwargs)
        if I.st is not None:
            I.st.ctx = sv
            I.get(v).attrs = dict(I.get(v).attrs, result=r)


def result_of(I, v):
    v = I.resolve(v)
    if isinstance(v, Tup):
        return Tup([result_of(I, x) for x in v.items])
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO) and all(s[0] == 'v' for s in o.segs):
            return I.list_([result_of(I, s[1]) for s in o.segs])
        if isinstance(o, Opaque) and o.cls == 'task':
            return o.attrs.get('result', NONE)
    return v


def d_persist(I, a, kw, node):
    for x in a:
        run_tasks(I, x, 'persist')
    I.event('dask_eval', how='persist', kw={k: I.term(v) for k, v in kw.items()})
    return Tup([I.resolve(x) for x in a])


def d_compute(I, a, kw, node):
    for x in a:
        run_tasks(I, x, 'compute')
    I.event('dask_eval', how='compute', kw={k: I.term(v) for k, v in kw.items()})
    return Tup([result_of(I, x) for x in a])


def d_config_set(I, a, kw, node):
    for k, v in kw.items():
        I.event('dask_config', name=k, value=I.term(v))
    for x in a:
        I.event('dask_config', name='?', value=I.term(x))
    return I.new(Opaque('quiet', mk('ext', 'dask.config.set')))


def client(I, a, kw, node):
    I.event('client', args=[I.term(x) for x in a], kw={k: I.term(v) for k, v in kw.items()})
    return I.new(Opaque('client', mk('client', *([I.term(x) for x in a] + [mk('pair', const(k), I.term(v))
                                                                           for k, v in kw.items()])),
                        {'cluster': I.new(Opaque('cluster', mk('ext', 'cluster')))}))


# ------------------------------------------------------------------ locks
def lock_for(I, a, kw, node):
    return I.new(Opaque('lock', mk('lock', scal(I, a[0]) if a else NONE)))


def new_lock(I, a, kw, node):
    if a:
        return I.new(Opaque('lock', mk('lock', scal(I, a[0]))))
    return I.new(Opaque('lock', mk('newlock', num(I.next), boolT(any(c[0] == 'task' for c in I.st.ctx)),
                                   *[l[1] for l in I.loops])))


def combine(I, a, kw, node):
    v = I.resolve(a[0])
    items = lib.seq_items(I, v)
    if items is None:
        return I.new(Opaque('lock', mk('locks', I.term(v))))
    return I.new(Opaque('lock', mk('locks', *[lock_term(I, x) for x in items])))


def lock_term(I, x):
    x = I.resolve(x)
    return I.term(x)


def enter(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: enter(I, v.a), lambda: enter(I, v.b))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Opaque):
            if o.cls == 'lock':
                I.st.ctx = I.st.ctx + (('lock', o.t),)
                I.event('acquire', lock=o.t)
                return TRUE
            return v
        if isinstance(o, NcFile):
            return v
        if isinstance(o, Dset):
            return v
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__enter__')
            if f is None:
                I.raise_('AttributeError', const('__enter__'))
            return I.call(Bound(v, f), [], {})
    if isinstance(v, Ext):
        if 'LOCK' in v.path.upper():
            I.st.ctx = I.st.ctx + (('lock', mk('ext', v.path)),)
        return TRUE
    if isinstance(v, T):
        if v.op == 'ncopen':
            return v
        return v
    raise I.Unmodelled('with %r' % (v,), I.where())


def exit_(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: exit_(I, v.a), lambda: exit_(I, v.b))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, Opaque) and o.cls == 'lock':
            release(I, o.t)
        if isinstance(o, NcFile):
            I.event('nc_close', file=o.path)
        if isinstance(o, Inst):
            f = I.find_attr(o.cls, '__exit__')
            if f is not None:
                I.call(Bound(v, f), [NONE, NONE, NONE], {})
    if isinstance(v, Ext) and 'LOCK' in v.path.upper():
        release(I, mk('ext', v.path))
    return NONE


def release(I, t):
    c = list(I.st.ctx)
    for k in range(len(c) - 1, -1, -1):
        if c[k] == ('lock', t):
            del c[k]
            break
    I.st.ctx = tuple(c)
    I.event('release', lock=t)


# ------------------------------------------------------------------ files
def b_open(I, a, kw, node):
    path = scal(I, a[0])
    mode = scal(I, a[1] if len(a) > 1 else kw.get('mode', const('r')))
    I.event('open', path=path, mode=mode)
    if I.h is not None and path in I.h.missing and not any(m in str(mode.args[0]) for m in 'wax'):
        I.raise_('FileNotFoundError', path)
    lines = None
    if I.h is not None and hasattr(I.h, 'lines'):
        lines = I.h.lines(I, path)
    return I.new(Opaque('file', mk('openfile', path, mode), {'path': path, 'mode': mode, 'pos': ZERO,
                                                             'lines': Tup(lines) if lines is not None else NONE}))


def file_method(I, obj, name, args, kw):
    o = I.get(obj)
    if name == 'read':
        n = scal(I, args[0]) if args else NONE
        pos = I.resolve(o.attrs['pos'])
        if args:
            I.mut(obj).attrs['pos'] = add(pos, n)
        I.event('decode', what='read')
        return mk('fread', o.attrs['path'], pos, n)
    if name == 'readline':
        pos = I.resolve(o.attrs['pos'])
        I.mut(obj).attrs['pos'] = add(pos, ONE)
        ls = o.attrs['lines']
        if isinstance(ls, Tup) and is_num(pos):
            k = int(pos.args[0])
            return ls.items[k] if k < len(ls.items) else const('')
        return mk('readline', o.attrs['path'], pos)
    if name in ('readlines',) and isinstance(o.attrs['lines'], Tup):
        return I.list_(o.attrs['lines'].items)
    if name == 'seek':
        I.mut(obj).attrs['pos'] = scal(I, args[0])
        return NONE
    if name == 'tell':
        return I.resolve(o.attrs['pos'])
    if name in ('close', 'flush'):
        return NONE
    if name == 'write':
        I.event('file_write', path=o.attrs['path'])
        return NONE
    raise I.Unmodelled('file %s' % name, I.where())


def unpack(I, a, kw, node):
    f, b = scal(I, a[0]), scal(I, a[1])
    I.event('decode', what='unpack')
    return Tup([mk('unpack', f, b)])


def fromfile(I, a, kw, node):
    raise I.Unmodelled('numpy.fromfile', I.where())


# --------------------------------------------------------------------- os
def isfile(which):
    def f(I, a, kw, node):
        p = scal(I, a[0])
        return mk('truth', mk(which, p))
    return f


def plain(p):
    """A path however it is written."""
    while p.op == 'abspath' or p.op == 'joinpath' and len(p.args) == 1:
        p = p.args[0]
    return p


def makedirs(I, a, kw, node):
    p, ok = scal(I, a[0]), I.term(kw.get('exist_ok', a[2] if len(a) > 2 else FALSE))
    I.event('makedirs', path=p, exist_ok=ok)
    if I.h is not None and I.h.folders.get(plain(p)) == 'present' and I.decide(I.truth(ok)) is not True:
        I.raise_('FileExistsError', p)
    return NONE


def mkdir(I, a, kw, node):
    p = scal(I, a[0])
    I.event('mkdir', path=p)
    s = I.h.folders.get(plain(p)) if I.h is not None else None
    if s:
        I.raise_('FileExistsError' if s == 'present' else 'FileNotFoundError', p)
    return NONE


def abspath(I, a, kw, node):
    p = scal(I, a[0])
    return p if p.op == 'abspath' or p.op == 'joinpath' and p.args[0].op == 'abspath' else mk('abspath', p)


def basename(I, a, kw, node):
    t = scal(I, a[0])
    if t.op == 'str':
        return const(t.args[0].split('/')[-1])
    if t.op == 'joinpath':
        return basename(I, [t.args[-1]], {}, node) if t.args[-1].op == 'str' else mk('basename', t.args[-1])
    return mk('basename', t)


def dirname(I, a, kw, node):
    p = scal(I, a[0])
    if p.op == 'joinpath' and len(p.args) > 1 and not (p.args[-1].op == 'str' and '/' in p.args[-1].args[0]):
        return p.args[0] if len(p.args) == 2 else mk('joinpath', *p.args[:-1])
    return mk('joinpath', mk('dirname', p))


def join(I, a, kw, node):
    ps = [scal(I, x) for x in a]
    if all(p.op == 'str' for p in ps):
        import os
        return const(os.path.join(*[p.args[0] for p in ps]))
    out = []
    for p in ps:
        if p.op == 'joinpath':
            out.extend(p.args)
        else:
            out.append(p)
    return mk('joinpath', *out)


def dir_files(I, p):
    known = getattr(I.h, 'listing', None) or {}
    if p in known:
        return I.list_(known[p])
    n = mk('len', mk('listdir', p))
    ops.LO[n] = 0
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    l = I.list_()
    I.get(l).segs = [('gen', n, i, TRUE, mk('basename', mk('item', mk('listdir', p), i)))]
    return l


def walk(I, a, kw, node):
    p = scal(I, a[0])
    return I.list_([Tup([p, I.list_(), dir_files(I, p)])])


def listdir(I, a, kw, node):
    return dir_files(I, scal(I, a[0]) if a else const('.'))


def glob(I, a, kw, node):
    p = scal(I, a[0])
    known = getattr(I.h, 'listing', None) or {}
    if p.op == 'joinpath' and p.args[-1] is const('*') and len(p.args) == 2 and p.args[0] in known:
        return I.list_([mk('joinpath', p.args[0], x) for x in known[p.args[0]]])
    n = mk('len', mk('glob', p))
    ops.LO[n] = 0
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    l = I.list_()
    I.get(l).segs = [('gen', n, i, TRUE, mk('abspath', mk('item', mk('glob', p), i)))]
    return l


# ---------------------------------------------------------- configuration
def configparser(I, a, kw, node):
    r = I.new(Opaque('ini', mk('ini', num(I.next)), {'optionxform': NONE}))
    return r


def ini_read(I, obj, path):
    I.event('read_config', path=path)
    d = I.dict_()
    o = I.get(obj)
    ident = isinstance(o.attrs['optionxform'], Ext) and o.attrs['optionxform'].path == 'builtins.str' or \
        isinstance(o.attrs['optionxform'], Func)
    for s, kv in I.h.ini(I, path):
        sec = I.dict_()
        for k, v in kv:
            if not ident:
                if k != k.lower():
                    I.event('inicase', key=k)
                k = k.lower()
            lib.dict_set(I, sec, const(k), v)
        lib.dict_set(I, d, const(s), sec)
    I.mut(obj).attrs['dict'] = d


def ini_method(I, obj, name, args, kw):
    o = I.get(obj)
    if name == 'read':
        ini_read(I, obj, scal(I, args[0]))
        return I.list_([args[0]])
    if name == 'read_file':
        f = I.resolve(args[0])
        ini_read(I, obj, I.get(f).attrs['path'])
        return NONE
    d = o.attrs.get('dict')
    if d is None:
        d = I.dict_()
    if name == 'has_section':
        return lib.dict_has(I, d, args[0])
    if name == 'sections' or name == 'keys':
        return I.list_([e[2] for e in lib.dict_entries(I, d)])
    if name == 'has_option':
        if I.decide(lib.dict_has(I, d, args[0])) is False:
            return FALSE
        return lib.dict_has(I, I.resolve(lib.dict_lookup(I, d, args[0])), args[1])
    if name == 'items' and args:
        return lib.dict_method(I, I.resolve(lib.getitem(I, d, args[0])), 'items', [], {})
    if name in ('get', 'getint', 'getfloat', 'getboolean') and len(args) >= 2:
        s = I.resolve(lib.getitem(I, d, args[0]))
        v = lib.dict_get(I, s, args[1], kw.get('fallback'))
        if name == 'getint':
            return lib.numof(I, v, 'int')
        if name == 'getfloat':
            return lib.numof(I, v, 'float')
        if name == 'getboolean':
            t = scal(I, v)
            if t.op in ('true', 'false', 'none'):
                return t
            return mk('eq', mk('lower', t), const('true'))
        return v
    raise I.Unmodelled('ConfigParser.%s' % name, I.where())


def yaml_load(I, a, kw, node):
    f = I.resolve(a[0])
    o = I.get(f)
    path = o.attrs['path'] if isinstance(o, Opaque) and 'path' in o.attrs else NONE
    I.event('read_config', path=path)
    return I.h.yaml(I, path)


# ------------------------------------------------------------- arguments
def argparser(I, a, kw, node):
    return I.new(Opaque('argparser', mk('argparser', num(I.next)), {'specs': Tup(())}))


def arg_method(I, obj, name, args, kw):
    o = I.get(obj)
    if name == 'add_argument':
        I.mut(obj).attrs['specs'] = Tup(o.attrs['specs'].items + (Tup([Tup(args), I.dict_(
            {const(k): v for k, v in kw.items()})]),))
        return NONE
    if name in ('add_argument_group', 'add_mutually_exclusive_group'):
        return obj
    if name == 'print_help' or name == 'print_usage':
        return NONE
    if name == 'exit':
        st = args[0] if args else kw.get('status', ZERO)
        I.event('exit', status=I.term(st))
        I.raise_('SystemExit', I.term(st))
    if name == 'error':
        I.event('exit', status=num(2))
        I.raise_('SystemExit', num(2))
    if name == 'set_defaults':
        I.mut(obj).attrs['defaults'] = I.dict_({const(k): v for k, v in kw.items()})
        return NONE
    if name in ('parse_args', 'parse_known_args'):
        ns = I.new(Opaque('namespace', mk('namespace', num(I.next))))
        I.event('parse_args', args=I.term(args[0]) if args else NONE)
        for s in o.attrs['specs'].items:
            flags = [I.scalar(x).args[0] for x in s.items[0].items]
            kws = I.get(s.items[1]).items
            dest = kws.get(const('dest'))
            if dest is not None:
                dest = I.scalar(dest).args[0]
            elif not flags[0].startswith('-'):
                dest = flags[0]
            else:
                lo = [f for f in flags if f.startswith('--')] or flags
                dest = lo[0].lstrip('-').replace('-', '_')
            action = kws.get(const('action'))
            action = I.scalar(action).args[0] if action is not None else 'store'
            typ = kws.get(const('type'))
            default = kws.get(const('default'), NONE)
            key = [f for f in flags if f.startswith('--')] or flags
            name_ = key[0].lstrip('-')
            I.event('argspec', dest=dest, flags=tuple(flags), action=action, default=I.term(default))
            if action in ('version', 'help'):
                continue
            if action == 'store_true':
                v = sym('cli_' + name_, 'bool')
            elif action == 'store_false':
                v = not_(sym('cli_' + name_, 'bool'))
            elif action == 'count':
                v = sym('cli_' + name_, 'int')
            else:
                v = sym('cli_' + name_, 'path' if name_ == 'config' else 'text')
                if typ is not None:
                    v = I.call(typ, [v], {})
            if I.h is not None and name_ in getattr(I.h, 'cli', {}):
                v = I.h.cli[name_]
                if v.op == 'sym' and v.args[1] == 'int' and action == 'store':
                    # as typed
                    v = sym(v.args[0], 'inttext')
                if typ is not None:
                    v = I.call(typ, [v], {})
            I.mut(ns).attrs[dest] = v
        if name == 'parse_known_args':
            return Tup([ns, I.list_()])
        return ns
    return NONE


# -------------------------------------------------------- opaque objects
def obj_method(I, obj, name, args, kw, node):
    o = I.get(obj)
    c = o.cls
    if 'method' in o.attrs:
        r = o.attrs['method'](I, obj, name, args, kw)
        if r is not None:
            return r
    if c in QUIET:
        if name == 'setLevel':
            I.event('level', of=c, value=I.term(args[0]) if args else I.term(kw.get('level', NONE)))
        if name in ('isEnabledFor', 'hasHandlers'):
            return sym('log_%s' % name, 'bool')
        if name == 'submit' or name == 'map' or name == 'compute' or name == 'persist' or name == 'gather':
            if c == 'client':
                return client_method(I, obj, name, args, kw)
        if c == 'client' and name in ('close', 'shutdown'):
            I.event('client_close')
        return NONE
    if c in ('progressbar', 'progress'):
        return NONE
    if c == 'file':
        return file_method(I, obj, name, args, kw)
    if c == 'ini':
        return ini_method(I, obj, name, args, kw)
    if c == 'argparser':
        return arg_method(I, obj, name, args, kw)
    if c == 'task':
        if name == 'compute':
            run_tasks(I, obj, 'compute')
            return I.get(obj).attrs.get('result', NONE)
        if name == 'persist':
            run_tasks(I, obj, 'persist')
            return obj
    if c == 'lock':
        if name == 'acquire':
            I.st.ctx = I.st.ctx + (('lock', o.t),)
            I.event('acquire', lock=o.t)
            return TRUE
        if name == 'release':
            release(I, o.t)
            return NONE
        if name == '__enter__':
            return enter(I, obj)
        if name == '__exit__':
            return exit_(I, obj)
    if c == 'super':
        return NONE
    if c == 'exception':
        return NONE
    if 'dict' in o.attrs and isinstance(o.attrs['dict'], Ref):
        return lib.dict_method(I, o.attrs['dict'], name, args, kw)
    return lib.opaque_call(I, mk('meth', o.t, name), args, kw)


def client_method(I, obj, name, args, kw):
    if name in ('compute', 'persist'):
        for x in args:
            run_tasks(I, x, 'client ' + name)
        I.event('dask_eval', how=name, kw={})
        return args[0]
    if name == 'gather':
        if I.term(kw.get('errors', const('raise'))) is const('raise'):
            run_tasks(I, args[0], 'compute')
        return result_of(I, args[0])
    if name == 'submit':
        t = I.new(Opaque('task', mk('task', I.term(args[0]), ops.fresh()),
                         {'fn': args[0], 'args': Tup(args[1:]), 'done': FALSE}))
        I.get(t).kwargs = kw
        run_tasks(I, t, 'submit')
        return t
    raise I.Unmodelled('client.%s' % name, I.where())


def quiet(cls):
    def f(I, a, kw, node):
        return I.new(Opaque(cls, mk('ext', cls)))
    return f


def none(I, a, kw, node):
    return NONE


def date2num(I, a, kw, node):
    t = I.term(I.resolve(a[0]))
    u = kw.get('units', a[1] if len(a) > 1 else None)
    c = kw.get('calendar', a[2] if len(a) > 2 else None)
    I.event('date2num', dates=t, units=I.term(u) if u is not None else NONE,
            calendar=I.term(c) if c is not None else NONE)
    r = mk('date2num', t, I.term(u) if u is not None else NONE, I.term(c) if c is not None else NONE)
    return r


def opaque_text(name):
    def f(I, a, kw, node):
        return sym(name, 'text')
    return f


TABLE = {
    'netCDF4.Dataset': nc_dataset,
    'dask.delayed': b_delayed, 'dask.delayed.delayed': b_delayed, 'dask.persist': d_persist,
    'dask.compute': d_compute, 'dask.config.set': d_config_set, 'dask.base.compute': d_compute,
    'distributed.Client': client, 'dask.distributed.Client': client, 'distributed.progress': none,
    'dask.diagnostics.ProgressBar': quiet('progressbar'),
    'xarray.backends.locks.get_write_lock': lock_for, 'xarray.backends.locks.combine_locks': combine,
    'xarray.backends.locks.SerializableLock': new_lock, 'dask.utils.SerializableLock': new_lock,
    'threading.Lock': new_lock, 'threading.RLock': new_lock, 'multiprocessing.Lock': new_lock,
    'distributed.Lock': new_lock, 'dask.distributed.Lock': new_lock,
    'builtins.open': b_open, 'io.open': b_open,
    'struct.unpack': unpack,
    'os.path.isfile': isfile('isfile'), 'os.path.isdir': isfile('isdir'), 'os.path.exists': isfile('exists'),
    'os.path.islink': isfile('islink'), 'os.access': isfile('access'),
    'os.makedirs': makedirs, 'os.mkdir': mkdir, 'os.path.abspath': abspath, 'os.path.realpath': abspath,
    'os.path.expanduser': lambda I, a, kw, n: mk('abspath', mk('expanduser', scal(I, a[0]))),
    'os.path.basename': basename, 'os.path.dirname': dirname, 'os.path.join': join, 'os.walk': walk,
    'os.listdir': listdir, 'glob.glob': glob, 'os.getcwd': opaque_text('cwd'), 'os.getpid': opaque_text('pid'),
    'configparser.ConfigParser': configparser, 'configparser.RawConfigParser': configparser,
    'yaml.load': yaml_load, 'yaml.safe_load': yaml_load, 'yaml.full_load': yaml_load,
    'argparse.ArgumentParser': argparser,
    'logging.getLogger': quiet('logger'), 'logging.StreamHandler': quiet('handler'),
    'logging.FileHandler': quiet('handler'), 'logging.Formatter': quiet('formatter'),
    'logging.captureWarnings': none, 'logging.basicConfig': none, 'logging.info': none, 'logging.debug': none,
    'logging.warning': none, 'logging.error': none, 'logging.warn': none, 'logging.critical': none,
    'logging.getLevelName': opaque_text('level'), 'logging.disable': none,
    'cftime.date2num': date2num, 'netCDF4.date2num': date2num,
    'metsim._version.get_versions': lambda I, a, kw, n: I.dict_({const('version'): sym('version', 'text')}),
    'getpass.getuser': opaque_text('user'), 'time.time': lambda I, a, kw, n: sym('now'),
    'time.ctime': opaque_text('ctime'), 'time.strftime': opaque_text('strftime'), 'time.sleep': none,
    'time.perf_counter': lambda I, a, kw, n: sym('now'), 'gc.collect': none, 'os.environ.get': none,
}


def family(I, path, args, kw, node):
    return None
