"""Transfer functions of pandas and xarray."""
from .terms import *
from . import terms as tm
from . import ops
from .ops import is_arr, length, rank
from .values import *
from . import lib, libnp
from .libnp import tv, num_arg, fn_view, isnull

TABLE = {}
DAY = mul(num(1440), MIN)
UNITS = {'D': 1440, 'd': 1440, 'day': 1440, 'days': 1440, 'h': 60, 'H': 60, 'hour': 60, 'hours': 60, 'hr': 60,
         'm': 1, 'min': 1, 'T': 1, 'minute': 1, 'minutes': 1, 's': Fraction(1, 60), 'S': Fraction(1, 60),
         'sec': Fraction(1, 60), 'second': Fraction(1, 60), 'seconds': Fraction(1, 60), 'W': 10080, 'weeks': 10080,
         'week': 10080, 'ms': Fraction(1, 60000), 'L': Fraction(1, 60000)}


# ------------------------------------------------------------ scalar times
def unit_of(s):
    return UNITS.get(s.strip())


def parse_td(t):
    """Minutes of a time-difference text, or None."""
    parts = list(t.args) if t.op == 'fmt' else [t]
    val, unit = None, ''
    for p in parts:
        if p.op == 'str':
            s = p.args[0].strip()
            if val is None:
                k = 0
                while k < len(s) and (s[k].isdigit() or s[k] in '.-+'):
                    k += 1
                if k:
                    val = num(Fraction(s[:k]))
                    s = s[k:]
            unit += s.strip()
        else:
            if val is not None:
                return None
            val = number_of(p)
            if val is None:
                return None
    u = unit_of(unit) if unit else None
    if u is None and ':' in unit:
        return None
    if u is None:
        return None
    return mul(val if val is not None else ONE, num(u))


def number_of(p):
    if p.op == 'fv':
        v = p.args[0]
        if p.args[1].op == 'str' and p.args[1].args[0] in ('', 'd', '.0f'):
            return mk('numof', v) if lib.is_text(v) else v
        return None
    if lib.is_text(p):
        return mk('numof', p)
    return None


def freq_minutes(t):
    """Step of a frequency text in minutes, or None."""
    if t.op == 'str' and t.args[0] in ('D', 'd', 'H', 'h', 'T', 'min', 'S', 's'):
        return num(UNITS[t.args[0]])
    return parse_td(t)


def timedelta(I, args, kw):
    tot = ZERO
    if args:
        v = I.term(args[0])
        if len(args) > 1 or 'unit' in kw:
            u = I.term(args[1] if len(args) > 1 else kw['unit'])
            f = unit_of(u.args[0]) if is_str(u) else None
            if f is None:
                raise I.Unmodelled('time unit', I.where())
            return mul(num_arg(I, args[0]), num(f), MIN)
        if lib.is_text(v):
            m = parse_td(v)
            if m is None:
                if v.op == 'str':
                    I.raise_('ValueError', v)
                return mul(mk('tdmin', v), MIN)
            return mul(m, MIN)
        if v.op == 'sym' and v.args[1] == 'td' or mentions(v, MIN):
            return v
        if is_num(v):
            return mul(v, num(Fraction(1, 60 * 10 ** 9)), MIN)      # nanoseconds
        raise I.Unmodelled('time difference %r' % (v,), I.where())
    for k, x in kw.items():
        if k not in UNITS:
            raise I.Unmodelled('time unit ' + k, I.where())
        tot = add(tot, mul(num_arg(I, x), num(UNITS[k]), MIN))
    return tot


def f_timedelta(I, a, kw, node):
    return timedelta(I, a, kw)


def f_pytimedelta(I, a, kw, node):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    return timedelta(I, [], dict(dict(zip(names, a)), **kw))


def timestamp(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: timestamp(I, v.a), lambda: timestamp(I, v.b))
    if isinstance(v, Ref) and isinstance(I.get(v), Arr):
        t = I.tof(v)
        if not is_arr(t):
            return t
        return v
    items = lib.seq_items(I, v) if isinstance(v, (Ref, Tup)) else None
    if items is not None:
        return I.arr(libnp.ops.concat([ops.full(ONE, timestamp(I, x)) for x in items]), k='idx')
    t = I.term(v)
    if t is NONE:
        return NONE
    if t.op == 'str' or lib.is_text(t):
        return parse_date(I, t)
    return t


def parse_date(I, t):
    if t.op == 'str':
        s = t.args[0]
        for sep in ('/', '-'):
            p = s.split(' ')[0].split(sep)
            if len(p) == 3 and all(x.isdigit() for x in p):
                return mk('date', *[num(int(x)) for x in p])
        I.event('convert', value=t, how='date')
        return mk('todate', t)
    return mk('todate', t)


def f_timestamp(I, a, kw, node):
    if not a and kw:
        return make_date(I, [kw[k] for k in ('year', 'month', 'day') if k in kw])
    if len(a) >= 3:
        return make_date(I, a)
    return timestamp(I, a[0])


def make_date(I, a):
    xs = [num_arg(I, x) for x in a]
    # the three fields of one text
    srcs = []
    for k, x in enumerate(xs[:3]):
        y = x.args[0] if x.op == 'numof' else None
        if y is not None and y.op in ('splititem', 'item') and is_num(y.args[-1]) and y.args[-1].args[0] == k:
            srcs.append(y)
    if len(srcs) == 3 and all(s.op == srcs[0].op and s.args[:-1] == srcs[0].args[:-1] for s in srcs):
        base = srcs[0].args[0]
        while base.op in ('split', 'strcall', 'call') and base.args and isinstance(base.args[0], T) and not \
                lib.is_text(base):
            base = base.args[0]
        if lib.is_text(base):
            r = mk('todate', base)
            return r if len(xs) == 3 else add(r, *[mul(num(m), x, MIN) for m, x in zip((60, 1), xs[3:])])
    return mk('date', *xs) if len(xs) == 3 else add(mk('date', *xs[:3]), *[
        mul(num(m), x, MIN) for m, x in zip((60, 1), xs[3:])])


def f_datetime(I, a, kw, node):
    return make_date(I, list(a) + [kw[k] for k in ('year', 'month', 'day', 'hour', 'minute') if k in kw])


def f_date_range(I, a, kw, node):
    names = ['start', 'end', 'periods', 'freq']
    p = dict(zip(names, a))
    p.update(kw)
    g = lambda k: I.resolve(p.get(k, NONE))
    start, end, per, fr = g('start'), g('end'), g('periods'), g('freq')
    ft = I.term(fr)
    inc = I.term(p.get('inclusive', const('both')))
    st = freq_minutes(ft) if ft is not NONE and lib.is_text(ft) else (
        num(1440) if ft is NONE else canon(div(ft, MIN)))
    if st is None:
        raise I.Unmodelled('frequency %r' % ft, I.where())
    step = mul(st, MIN)
    s = timestamp(I, start)
    e = timestamp(I, end)
    s = I.term(s)
    e = I.term(e)
    per = I.scalar(per)
    if s is NONE:
        s = sub(e, mul(sub(per, ONE), step))
        n = per
    elif e is NONE:
        n = per
    else:
        q = canon(div(sub(e, s), step))
        n = add(q, ONE) if is_int(q) else add(fn('floor', q), ONE)
        if per is not NONE:
            n = per
            step = div(sub(e, s), sub(per, ONE))
    if is_str(inc) and inc.args[0] != 'both':
        if inc.args[0] in ('left', 'neither'):
            n = sub(n, ONE)
        if inc.args[0] in ('right', 'neither'):
            s = add(s, step)
            n = sub(n, ONE) if inc.args[0] == 'neither' else n
            n = sub(n, ONE) if inc.args[0] == 'right' else n
    n = canon(n)
    I.event('date_range', start=s, end=e, step=step, n=n)
    if is_time_axis_start(s) is not None and equal(step, DAY):
        ax = is_time_axis_start(s)
        if equal(n, length(ax)):
            return I.arr(ax, k='idx')
    return I.arr(mk('drange', s, step, n), k='idx')


def is_time_axis_start(s):
    if s.op == 'getitem' and s.args[1] is ZERO and ops.is_time(s.args[0]):
        return s.args[0]
    return None


DATEF = {'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'dayofyear', 'day_of_year', 'quarter',
         'weekday', 'dayofweek'}


def datefield(name, t):
    if name in ('dayofyear', 'day_of_year'):
        return push_doy(t)
    if is_arr(t):
        if name == 'month':
            return mk('month', t)
        return mk('fext', 'datefield', name, t)
    if name == 'month':
        return mk('month', t)
    if t.op == 'date' and name in ('year', 'month', 'day'):
        return t.args[('year', 'month', 'day').index(name)]
    return mk('datefield', name, t)


def push_doy(t):
    return mk('doy', t)


def scalar_attr(I, v, name):
    if name in DATEF:
        if is_date(v):
            return datefield(name, v)
    if name in ('days', 'seconds'):
        if name == 'days':
            return fn('floor', canon(div(v, DAY)))
    if name in ('real',):
        return v
    if name == 'size':
        return ONE if not is_arr(v) else length(v)
    if name == 'shape':
        return Tup([]) if not is_arr(v) else libnp.shape_tuple(v, libnp.shape_list(v))
    if name == 'ndim':
        return num(0 if not is_arr(v) else rank(v))
    if name == 'dtype':
        return I.new(Opaque('dtype', mk('dtype', v)))
    if name == 'values':
        if v.op == 'sym' and v.args[1] in ('any', 'obj'):
            return v
    if v is NONE:
        I.raise_('AttributeError', const('None has no attribute ' + name))
    return Meth(v, name)


def is_date(t):
    return t.op in ('date', 'todate', 'getitem', 'add', 'item') or t.op == 'sym' and t.args[1] in (
        'date', 'any', 'obj') or t.op == 'ite'


def scalar_method(I, v, name, args, kw):
    if name in ('to_pydatetime', 'to_datetime64', 'to_numpy', 'item', 'copy', 'to_timestamp', 'tz_localize',
                '__enter__', 'squeeze'):
        return v
    if name == 'total_seconds':
        return canon(div(mul(v, num(60)), MIN))
    if name in ('strftime',):
        return lib.strftime(v, I.term(args[0]).args[0])
    if name in ('isoformat', '__str__'):
        return mk('fv', v, const(''))
    if name == 'timetuple':
        return I.new(Opaque('timetuple', mk('timetuple', v), {'tm_yday': datefield('dayofyear', v)}))
    if name == 'normalize':
        return mk('normalize', v)
    if name == 'replace' and is_date(v):
        return mk('call', 'replace', v, *[mk('pair', const(k), I.term(x)) for k, x in kw.items()])
    if name in ('date',):
        return v
    if name in ('flatten', 'ravel'):
        return I.arr(ops.full(ONE, v))
    if name == 'any' or name == 'all':
        return I.truth(v)
    if name in ('astype',):
        return libnp.astype(I, v, args[0])
    if name in ('sum', 'mean', 'min', 'max', 'isel', 'sel', 'load', 'compute') and not is_const(v):
        return v
    if name == 'is_integer':
        return mk('truth', mk('call', 'is_integer', v))
    if name in ('sel',) and v is NONE:
        I.raise_('AttributeError', const(name))
    if is_const(v):
        I.raise_('AttributeError', const('%r has no attribute %s' % (v, name)))
    if v.op == 'sym' and v.args[1] in ('inttext',):
        return lib.text_method(I, v, name, args, kw, None)
    ts = [I.term(a) for a in args] + [mk('pair', const(k), I.term(x)) for k, x in kw.items()]
    return I.new(Opaque('?', mk('call', mk('meth', v, name), *ts)))


# ------------------------------------------------------------------- Series
def index_term(I, ref):
    o = I.get(ref)
    if o.index is None:
        return None
    return I.tof(o.index)


def label_pos(idx, lab):
    """Position of a label in an index."""
    if idx is None:
        return lab
    st = None
    if idx.op == 'drange':
        st, s0 = idx.args[1], idx.args[0]
    elif ops.is_time(idx):
        st, s0 = DAY, ops.getitem(idx, ZERO)
    if st is not None:
        q = canon(div(sub(lab, s0), st))
        if is_int(q) or q.op in ('bi', 'i', 'pi'):
            return q
    return mk('labelpos', idx, lab)


def ser_getitem(I, ref, idx):
    t = I.tof(ref)
    o = I.get(ref)
    if isinstance(idx, Slc):
        return slice_labels_or_pos(I, ref, idx)
    if isinstance(idx, Ref):
        it = tv(I, idx)
        if is_arr(it) and kind(it) == 'bool':
            r = Arr(ops.select(t, it))
            r.index = I.arr(ops.select(I.tof(o.index), it), k='idx') if o.index is not None else None
            return I.new(r, 'ser')
        if not is_arr(it):
            idx = it
        else:
            p = mk('labelpos', index_term(I, ref) or NONE, it)
            r = Arr(mk('take', t, p))
            return I.new(r, 'ser')
    lab = I.scalar(idx)
    it = index_term(I, ref)
    if is_num(lab) and it is not None and it.op == 'drange' and not mentions(it, MIN) is False:
        return ops.getitem(t, lab)
    if is_num(lab):
        return ops.getitem(t, lab)
    return ops.getitem(t, label_pos(it, lab))


def slice_labels_or_pos(I, ref, s):
    o = I.get(ref)
    a, b = s.a, s.b
    if all(x is NONE or is_num(x) for x in (a, b)):
        t = I.tof(ref)
        x, y, st = libnp.bounds_of(I, s, length(t))
        r = Arr(ops.slice_(t, x, y) if st is ONE else libnp.strided(t, x, y, st))
        r.index = I.arr(ops.slice_(I.tof(o.index), x, y), k='idx') if o.index is not None and st is ONE else None
        return I.new(r, 'ser')
    return loc_series(I, ref, s)


def loc_series(I, ref, s):
    o = I.get(ref)
    x, y = loc_bounds(I, index_term(I, ref), s)
    r = Arr(ops.slice_(I.tof(ref), x, y))
    r.index = I.arr(ops.slice_(I.tof(o.index), x, y), k='idx')
    return I.new(r, 'ser')


def loc_bounds(I, it, s):
    """Positions of a (closed) label slice."""
    n = length(it)
    x = ZERO if s.a is NONE else label_pos(it, date_of(I, s.a))
    y = n if s.b is NONE else add(label_pos(it, date_of(I, s.b)), ONE)
    return canon(x), canon(y)


def date_of(I, t):
    t = I.term(t)
    return parse_date(I, t) if lib.is_text(t) else t


def ser_setitem(I, ref, idx, x):
    t = I.tof(ref)
    v = num_arg(I, x)
    if isinstance(idx, Ref):
        it = tv(I, idx)
        if is_arr(it):
            return I.setarr(ref, ops.store(t, it if kind(it) == 'bool' else mk(
                'labelpos', index_term(I, ref) or NONE, it), v))
        idx = it
    if isinstance(idx, Slc):
        if idx.a is NONE and idx.b is NONE:
            return I.setarr(ref, v if is_arr(v) else ops.full(length(t), v))
        a, b, st = libnp.bounds_of(I, idx, length(t))
        return I.setarr(ref, ops.store_slice(t, a, b, v))
    lab = I.scalar(idx)
    p = lab if is_num(lab) else label_pos(index_term(I, ref), lab)
    return I.setarr(ref, ops.store(t, p, v))


# ---------------------------------------------------------------- DataFrame
def new_frame(I, index):
    return I.new(Frame(index))


def f_dataframe(I, a, kw, node):
    index = kw.get('index')
    if index is None and len(a) > 1:
        index = a[1]
    data = a[0] if a else kw.get('data')
    if index is not None:
        index = as_index(I, index)
    fr = new_frame(I, index)
    if data is not None and I.term(data) is not NONE:
        data = I.resolve(data)
        if I.is_obj(data, DictO):
            for e in lib.dict_entries(I, data):
                setitem(I, fr, e[2], e[3])
        elif I.is_obj(data, Frame):
            o = I.get(data)
            m = I.mut(fr)
            m.index = m.index if m.index is not None else o.index
            m.cols = {k: I.copy_obj(v) for k, v in o.cols.items()}
        else:
            raise I.Unmodelled('DataFrame of %r' % (data,), I.where())
    return fr


def as_index(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref) and isinstance(I.get(v), Arr):
        return I.arr(I.tof(v), k='idx')
    return I.arr(tv(I, v), k='idx')


def col_array(I, fr, x):
    """Column stored for an assigned value."""
    o = I.get(fr)
    x = I.resolve(x)
    n = length(I.tof(o.index)) if o.index is not None else None
    t = num_arg(I, x)
    if isinstance(x, Ref) and isinstance(I.get(x), Arr) and x.k == 'ser' and I.get(x).index is not None and \
            o.index is not None:
        it = I.tof(I.get(x).index)
        if not equal(it, I.tof(o.index)):
            I.event('align', dim='index', a=it, b=I.tof(o.index))
            if not equal(length(it), n):
                t = mk('reindex', t, it, I.tof(o.index))
    elif is_arr(t) and n is not None:
        if t.op == 'full' and t.args[0] is ONE and n is not ONE:
            t = t.args[1]
        elif not equal(length(t), n):
            I.event('shape', what='column', a=length(t), b=n)
    if not is_arr(t):
        t = ops.full(n if n is not None else ONE, t)
    return I.arr(t)


def frame_names(I, fr):
    return [k for k, v in I.get(fr).cols.items()]


def frame_has(I, fr, name):
    o = I.get(fr)
    v = o.cols.get(name)
    if v is None:
        return FALSE
    return present(v)


def present(v):
    if v is UNDEF:
        return FALSE
    if isinstance(v, Phi):
        return ite(v.c, present(v.a), present(v.b))
    return TRUE


def get_col(I, fr, name):
    o = I.get(fr)
    if name not in o.cols:
        I.raise_('KeyError', const(name))
    v = o.cols[name]
    p = present(v)
    if p is not TRUE:
        d = I.decide(p)
        if d is False:
            I.raise_('KeyError', const(name))
        if d is None:
            I.may('KeyError', not_(p))
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.choose(v.c, lambda: as_series(I, fr, I.resolve(v.a)), lambda: as_series(I, fr, I.resolve(v.b)))
    return as_series(I, fr, v)


def as_series(I, fr, v):
    o = I.get(v)
    if o.index is None or o.name is None:
        n = I.get(v).copy()
        n.index = I.get(fr).index
        I.st.heap[v.a] = n
    return Ref(v.a, 'ser')


def name_of(I, k):
    t = I.scalar(k) if not isinstance(k, (Tup,)) else I.term(k)
    return t.args[0] if t.op == 'str' else t


def getitem(I, v, idx):
    o = I.get(v)
    if isinstance(o, Dset):
        return ds_getitem(I, v, idx)
    if isinstance(idx, Ref):
        io = I.get(idx)
        if isinstance(io, ListO):
            names = lib.seq_items(I, idx)
            if names is None:
                raise I.Unmodelled('columns', I.where())
            r = new_frame(I, o.index)
            for n in names:
                k = name_of(I, n)
                get_col(I, v, k)
                I.mut(r).cols[k] = I.copy_obj(I.get(v).cols[k])
            return r
        if isinstance(io, Arr) and kind(I.tof(idx)) == 'bool':
            m = I.tof(idx)
            r = new_frame(I, I.arr(ops.select(I.tof(o.index), m), k='idx'))
            for k, c in o.cols.items():
                I.mut(r).cols[k] = I.arr(ops.select(I.tof(I.resolve(c)), m))
            return r
    if isinstance(idx, Slc):
        return frame_slice(I, v, idx)
    return get_col(I, v, name_of(I, idx))


def frame_slice(I, v, s, positional=False):
    o = I.get(v)
    it = I.tof(o.index)
    if positional or all(x is NONE or is_num(x) for x in (s.a, s.b)):
        a, b, st = libnp.bounds_of(I, s, length(it))
    else:
        a, b = loc_bounds(I, it, s)
    I.event('trim', frame=v.a, a=a, b=b, n=length(it), start=date_of(I, s.a), stop=date_of(I, s.b), index=it)
    r = new_frame(I, I.arr(ops.slice_(it, a, b), k='idx'))
    m = I.mut(r)
    for k, c in o.cols.items():
        c = I.resolve(c)
        if isinstance(c, Phi):
            m.cols[k] = map_phi(I, c, lambda x: I.arr(ops.slice_(I.tof(x), a, b)))
        else:
            m.cols[k] = I.arr(ops.slice_(I.tof(c), a, b))
    return r


def map_phi(I, v, f):
    if v is UNDEF:
        return v
    if isinstance(v, Phi):
        return Phi(v.c, map_phi(I, v.a, f), map_phi(I, v.b, f))
    return f(v)


def setitem(I, v, idx, x):
    o = I.get(v)
    if isinstance(o, Dset):
        return ds_setitem(I, v, idx, x)
    if isinstance(idx, Ref) and isinstance(I.get(idx), ListO):
        names = lib.seq_items(I, idx)
        if I.is_obj(x, Frame):
            for n in names:
                setitem(I, v, n, get_col(I, x, name_of(I, n)))
            return
        xs = lib.seq_items(I, x, len(names))
        for n, y in zip(names, xs):
            setitem(I, v, n, y)
        return
    k = name_of(I, idx)
    if o.index is None:
        x = I.resolve(x)
        if isinstance(x, Ref) and isinstance(I.get(x), Arr) and I.get(x).index is not None:
            I.mut(v).index = I.get(x).index
        else:
            I.mut(v).index = I.arr(mk('drange', ZERO, ONE, length(tv(I, x))), k='idx')
    c = col_array(I, v, x)
    I.mut(v, 'column').cols[k] = c
    I.event('column', frame=v.a, name=k, value=I.tof(c))


def delitem(I, v, idx):
    o = I.get(v)
    k = name_of(I, idx)
    d = o.cols if isinstance(o, Frame) else o.vars
    if k not in d:
        I.raise_('KeyError', const(str(k)))
    m = I.mut(v)
    (m.cols if isinstance(o, Frame) else m.vars).pop(k)


def frame_binop(I, op, a, b):
    """Arithmetic with DataFrames."""
    for x, y, left in ((a, b, True), (b, a, False)):
        if I.is_obj(x, Frame):
            if I.is_obj(y, Frame):
                names = [k for k in I.get(x).cols if k in I.get(y).cols]
            else:
                names = list(I.get(x).cols)
            r = new_frame(I, I.get(x).index)
            for k in names:
                p = get_col(I, x, k)
                q = get_col(I, y, k) if I.is_obj(y, Frame) else y
                setitem(I, r, const(k), lib.binop(I, op, p, q) if left else lib.binop(I, op, q, p))
            return r
        if I.is_obj(x, Dset) and I.get(x).lazy is None:
            r = ds_copy(I, x)
            m = I.mut(r)
            for k in list(m.vars):
                q = get_var(I, y, k) if I.is_obj(y, Dset) else y
                p = get_var(I, x, k)
                I.mut(r).vars[k] = lib.binop(I, op, p, q) if left else lib.binop(I, op, q, p)
            return r
    return None


def map_frame(I, v, f):
    o = I.get(v)
    r = new_frame(I, o.index)
    for k, c in list(o.cols.items()):
        n = map_phi(I, c, lambda x: I.arr(f(I.tof(x))))
        I.mut(r).cols[k] = n
    return r


def fill(I, t, args, kw):
    how = I.term(kw.get('method', args[1] if len(args) > 1 else NONE))
    val = kw.get('value', args[0] if args else NONE)
    if is_str(how):
        h = {'ffill': 'ffill', 'pad': 'ffill', 'bfill': 'bfill', 'backfill': 'bfill'}.get(how.args[0])
        return ops.ffill(t, h)
    v = num_arg(I, val)
    return fillval(t, v)


def fillval(t, v):
    if not ops.maynan(t):
        return t
    return ite(isnull(t), v, t)


# ---------------------------------------------------------------- xarray
def coords_items(I, v):
    """(name, value) of the coordinates of a labelled object."""
    o = I.get(v)
    if isinstance(o, Dset):
        return [(k, x) for k, x in o.coords.items()]
    return [(k, coord_value(I, v, k)) for k in (o.coords or {})]


def coord_value(I, v, k):
    o = I.get(v)
    c = o.coords[k]
    if isinstance(c, Ref):
        return c
    r = Arr(c)
    r.dims, r.coords, r.name = ((k,) if is_arr(c) else ()), {}, k
    r.coords = {k: c} if is_arr(c) else {}
    return I.new(r, 'da')


def ds_names(I, v):
    return [k for k in I.get(v).vars]


def ds_has(I, v, x):
    """'name' in frame / dataset"""
    k = name_of(I, x)
    o = I.get(v)
    if isinstance(o, Frame):
        return frame_has(I, v, k)
    if k in o.vars:
        return present(o.vars[k])
    return boolT(k in o.coords)


def da_dims(I, ref):
    """Dimension names of a DataArray."""
    o = I.get(ref)
    t = I.tof(ref)
    d = list(ops.dims_of(t))
    if d or not is_arr(t):
        return tuple(d)
    if o.dims is not None:
        return tuple(o.dims)
    return ('time',)


def new_da(I, t, coords, name=None, dims=None, attrs=None):
    o = Arr(t)
    o.dims, o.coords, o.name = dims, dict(coords or {}), name
    o.attrs = dict(attrs or {})
    return I.new(o, 'da')


def get_var(I, v, k):
    o = I.get(v)
    if k in o.vars:
        x = o.vars[k]
        p = present(x)
        if p is not TRUE:
            d = I.decide(p)
            if d is False:
                I.raise_('KeyError', const(k))
            if d is None:
                I.may('KeyError', not_(p))
        x = I.resolve(x)
        if isinstance(x, Phi):
            return x
        return attach(I, v, k, x)
    if k in o.coords:
        return attach(I, v, k, o.coords[k])
    if k in o.dims:
        # a dimension without coordinate: positions
        n = ops.dimlen(None, k)
        return new_da(I, mk('drange', ZERO, ONE, n), {}, k, (k,))
    I.raise_('KeyError', const(str(k)))


def attach(I, ds, k, x):
    o = I.get(x)
    if not isinstance(o, Arr):
        return x
    if o.name != k or o.ds != (ds.a, k):
        n = o.copy()
        n.name, n.ds = k, (ds.a, k)
        I.st.heap[x.a] = n
    return Ref(x.a, 'da')


def ds_getitem(I, v, idx):
    idx = I.resolve(idx)
    if isinstance(idx, Ref) and isinstance(I.get(idx), ListO) or isinstance(idx, Tup):
        names = lib.seq_items(I, idx)
        if names is None:
            raise I.Unmodelled('selection of variables', I.where())
        keys = [name_of(I, n) for n in names]
        r = ds_copy(I, v)
        m = I.mut(r)
        m.vars = {}
        for k in keys:
            x = get_var(I, v, k)
            if k not in I.get(v).coords:
                m.vars[k] = x if isinstance(x, Phi) else Ref(x.a, 'da')
        # coordinates of the remaining dimensions
        dims = set()
        for x in m.vars.values():
            if isinstance(x, Ref):
                dims.update(da_dims(I, x))
        m.coords = {k: c for k, c in m.coords.items() if k in dims or k in keys or not is_arr(I.tof(c))}
        m.dims = tuple(d for d in m.dims if d in dims or d in keys)
        return r
    k = name_of(I, idx)
    if isinstance(k, T):
        return I.new(Opaque('var', mk('item', I.term(v), k)))
    return get_var(I, v, k)


def ds_copy(I, v):
    o = I.get(v)
    n = o.copy()
    n.origin = None
    n.encoding = getattr(o, 'encoding', None)
    return I.new(n)


def ds_setitem(I, v, idx, x):
    k = name_of(I, idx)
    x = I.resolve(x)
    if isinstance(x, Phi):
        return I.branch(x.c, lambda: ds_setitem(I, v, idx, x.a), lambda: ds_setitem(I, v, idx, x.b))
    o = I.get(v)
    if isinstance(x, Tup) and len(x.items) >= 2:
        x = dims_data(I, o, x)
    if isinstance(x, Ref) and isinstance(I.get(x), Opaque) and 'variable' in I.get(x).attrs:
        x = I.get(x).attrs['variable']
    t = tv(I, x)
    if k in o.dims or k in o.coords and not (isinstance(x, Ref) and x.k == 'da' and len(da_dims(I, x)) > 1):
        if k != 'time' and t.op == 'drange' and not ops.dims_of(t):
            # numbers made up for a dimension without coordinate
            n, t = t, mk('var', mk('numbers', t), const(k))
            ops.VARDIMS[t] = (k,)
        m = I.mut(v)
        old = o.coords.get(k)
        nd = new_da(I, t, {k: t} if is_arr(t) else {}, k, (k,) if is_arr(t) else ())
        if old is not None:
            I.get(nd).encoding = I.get(old).encoding
        if is_arr(t) and k in o.coords and is_arr(I.tof(o.coords[k])) and not equal(length(t), length(
                I.tof(o.coords[k]))):
            I.event('shape', what='coordinate', a=length(t), b=length(I.tof(o.coords[k])))
        m.coords[k] = nd
        if k not in m.dims and is_arr(t):
            m.dims = m.dims + (k,)
        for n, c in list(m.vars.items()):
            if isinstance(c, Ref) and I.get(c).coords and k in I.get(c).coords:
                oc = I.get(c).copy()
                oc.coords = dict(oc.coords)
                oc.coords[k] = t
                if oc.base is not None:
                    oc.t, oc.base = I.tof(c), None
                I.mut(v).vars[n] = I.new(oc, 'da')
        return
    # data variable: aligned to the coordinates of the dataset
    if isinstance(x, Ref) and x.k == 'da':
        xc = I.get(x).coords or {}
        for d, c in xc.items():
            if d in o.coords:
                mine = I.tof(o.coords[d])
                ct = I.tof(c) if isinstance(c, Ref) else c
                if is_arr(mine) and is_arr(ct) and not same_coord(I, mine, ct):
                    I.event('align', dim=d, a=ct, b=mine)
                    t = align(I, t, d, ct, mine)
        coords = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in xc.items()}
        coords.update({d: I.tof(o.coords[d]) for d in xc if d in o.coords})
        nx = new_da(I, t, coords, k, I.get(x).dims, I.get(x).attrs)
        I.get(nx).encoding = I.get(x).encoding
    else:
        nx = new_da(I, t, {}, k, ())
    m = I.mut(v, 'dataset variable')
    m.vars[k] = nx
    for d in da_dims(I, nx):
        if d not in m.dims:
            m.dims = m.dims + (d,)
    I.event('dsvar', ds=v.a, name=k, value=t)


def same_coord(I, a, b):
    if a is b or equal(a, b):
        return True
    return False


def align(I, t, d, ct, mine):
    if d != 'time':
        return mk('reindex', t, ct, mine)
    # a longer axis that ends with mine
    if ct.op == 'concat' and ct.args[0] is NONE:
        pos = ZERO
        for y in ct.args[1:]:
            if same_coord(I, y, mine):
                return slice_time(t, pos, add(pos, length(y)))
            pos = add(pos, length(y))
    return mk('reindex', t, ct, mine)


def slice_time(t, a, b):
    return mk_slice_time(t, a, b)


def mk_slice_time(t, a, b):
    if not is_arr(t):
        return t
    if t.op in ops.EW:
        return ops.push(t, lambda x: mk_slice_time(x, a, b))
    if t.op == 'tslice':
        return mk('tslice', t.args[0], add(t.args[1], a), add(t.args[1], b))
    return mk('tslice', t, canon(a), canon(b))


def dims_data(I, ds, x):
    """(dims, data[, attrs])"""
    dims = x.items[0]
    ds_ = [lib.pyval_text(I, d) for d in (lib.seq_items(I, dims) if not isinstance(dims, T) else [dims])] \
        if False else [I.term(d).args[0] for d in (lib.seq_items(I, dims) if not isinstance(dims, T) else [dims])]
    t = tv(I, x.items[1])
    coords = {}
    for d in ds_:
        if d in ds.coords:
            coords[d] = I.tof(ds.coords[d])
    if len(ds_) == 1 and ds_[0] != 'time':
        pass
    return new_da(I, t, coords, None, tuple(ds_))


def filled_var(t, dims, coord, sizes=None):
    """Labelled array of one value; sizes: of dimensions that are not whole."""
    sz = [mk('pair', const(d), sizes[d]) for d in dims if d != 'time' and sizes and sizes.get(d) is not None and
          sizes[d] is not ops.dimlen(None, d)]
    base = mk('filled', t, coord if coord is not None else NONE, *sz)
    v = mk('var', base, const('|'.join(dims)))
    ops.VARDIMS[v] = tuple(dims)
    if coord is not None:
        ops.TIME_OF[base] = coord
    return v


def labelled(t, dims, coords):
    """Give dimension names to plain data."""
    if not is_arr(t):
        return t
    if ops.dims_of(t):
        return t
    if len(dims) <= 1:
        return t
    if t.op == 'full':
        c = coords.get('time')
        return filled_var(t.args[1], dims, c, dict(zip(dims, t.args[0].args)) if t.args[0].op == 'tuple' else None)
    v = mk('var', mk('data', t, coords.get('time') or NONE), const('|'.join(dims)))
    ops.VARDIMS[v] = tuple(dims)
    if coords.get('time') is not None:
        ops.TIME_OF[v.args[0]] = coords['time']
    return v


def coords_arg(I, v):
    """Coordinates argument as name -> term."""
    out = {}
    v = I.resolve(v)
    if v is NONE or v is None:
        return out
    if I.is_obj(v, DictO):
        for e in lib.dict_entries(I, v):
            k, x = name_of(I, e[2]), e[3]
            if isinstance(x, Tup) and len(x.items) >= 2:
                x = x.items[1]
            out[k] = tv(I, x)
        return out
    if I.is_obj(v, Opaque) and 'dict' in I.get(v).attrs:
        return coords_arg(I, I.get(v).attrs['dict'])
    items = lib.seq_items(I, v)
    if items is not None:
        return {k: tv(I, x) for k, x in enumerate(items)}
    raise I.Unmodelled('coordinates', I.where())


def f_dataset(I, a, kw, node):
    data = a[0] if a else kw.get('data_vars', NONE)
    co = coords_arg(I, a[1] if len(a) > 1 else kw.get('coords', NONE))
    d = Dset()
    r = I.new(d)
    m = I.mut(r)
    for k, t in co.items():
        m.coords[k] = new_da(I, t, {k: t} if is_arr(t) else {}, k, (k,) if is_arr(t) else ())
        if is_arr(t):
            m.dims = m.dims + (k,)
    at = kw.get('attrs')
    if at is not None and I.is_obj(I.resolve(at), DictO):
        m.attrs = {name_of(I, e[2]): e[3] for e in lib.dict_entries(I, at)}
    data = I.resolve(data)
    if data is not NONE and I.is_obj(data, DictO):
        for e in lib.dict_entries(I, data):
            if e[0] != 'v':
                raise I.Unmodelled('dataset of generated variables', I.where())
            ds_setitem(I, r, e[2], e[3])
    elif data is not NONE and I.is_obj(data, Dset):
        return ds_copy(I, data)
    return r


def f_dataarray(I, a, kw, node):
    data = a[0] if a else kw.get('data', NAN)
    co = coords_arg(I, a[1] if len(a) > 1 else kw.get('coords', NONE))
    dv = a[2] if len(a) > 2 else kw.get('dims', NONE)
    dv = I.resolve(dv)
    dims = None
    if dv is not NONE:
        dims = tuple(I.term(x).args[0] for x in (lib.seq_items(I, dv) if not isinstance(dv, T) else [dv]))
    elif co:
        dims = tuple(k for k, t in co.items() if is_arr(t))
    if dims and any(isinstance(k, int) for k in co):
        co = {dims[k]: t for k, t in co.items()}
    t = tv(I, data)
    if dims is not None and not is_arr(t) and len(dims):
        t = filled_var(t, dims, co.get('time'), {d: coord_size(c, d) for d, c in co.items()}) if len(dims) > 1 else ops.full(length(co[dims[0]]), t)
    elif dims:
        t = labelled(t, dims, co)
    nm = I.term(kw.get('name', a[3] if len(a) > 3 else NONE))
    r = new_da(I, t, {k: c for k, c in co.items() if is_arr(c) and (dims is None or k in dims)},
               nm.args[0] if is_str(nm) else None, dims)
    at = kw.get('attrs', NONE)
    at = I.resolve(at)
    if I.is_obj(at, DictO):
        I.mut(r).attrs = {name_of(I, e[2]): e[3] for e in lib.dict_entries(I, at)}
    return r


def f_variable(I, a, kw, node):
    dims = a[0]
    return Tup([dims, a[1]])


def dtype_source(t):
    """Variable of a file that the type of the numbers of a labelled value is that of."""
    while t.op in ('isel', 'csel', 'tsel', 'getitem'):
        t = t.args[0]
    return t if t.op == 'var' and t.args[0].op == 'file' else None


def f_full_like(I, a, kw, node):
    o = I.get(a[0])
    dims = da_dims(I, a[0])
    v = I.scalar(a[1] if len(a) > 1 else kw['fill_value'])
    src = dtype_source(I.tof(a[0]))
    if kw.get('dtype', NONE) is NONE and len(a) < 3 and src is not None:
        v = mk('castlike', v, src)
    cs = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in (o.coords or {}).items()}
    t = filled_var(v, dims, cs.get('time'), {d: dim_size(I, a[0], d) for d in dims}) if len(dims) > 1 else ops.full(length(I.tof(a[0])), v)
    return new_da(I, t, o.coords, None, dims)


def f_xrconcat(I, a, kw, node):
    items = lib.seq_items(I, a[0])
    dim = I.term(a[1] if len(a) > 1 else kw['dim']).args[0]
    ts = [tv(I, x) for x in items]
    cs = []
    for x in items:
        c = (I.get(x).coords or {}).get(dim) if isinstance(x, Ref) else None
        cs.append(I.tof(c) if isinstance(c, Ref) else c)
    coords = dict(I.get(items[0]).coords or {})
    for x in items[1:]:
        for d, c in (I.get(x).coords or {}).items():
            if d != dim and d in coords:
                c0 = I.tof(coords[d]) if isinstance(coords[d], Ref) else coords[d]
                c1 = I.tof(c) if isinstance(c, Ref) else c
                if not same_coord(I, c0, c1):
                    I.event('align', dim=d, a=c0, b=c1)
    if all(c is not None for c in cs):
        coords[dim] = mk('concat', NONE, *cs)
    t = mk('concat', NONE, *ts)
    I.event('xrconcat', parts=ts, coords=cs, dim=dim)
    return new_da(I, t, coords, None, da_dims(I, items[0]))


def f_open(I, a, kw, node):
    p = a[0] if a else kw.get('filename_or_obj', kw.get('paths'))
    return I.h.open_dataset(I, p)


def f_merge(I, a, kw, node):
    items = lib.seq_items(I, a[0])
    r = ds_copy(I, items[0])
    for x in items[1:]:
        for k in ds_names(I, x):
            ds_setitem(I, r, const(k), get_var(I, x, k))
    return r


def f_xrwhere(I, a, kw, node):
    c, x, y = tv(I, a[0]), num_arg(I, a[1]), num_arg(I, a[2])
    return lib.wrap(I, ite(c, x, y), *a)


def f_todatetime(I, a, kw, node):
    return timestamp(I, a[0])


def f_series(I, a, kw, node):
    v = a[0] if a else kw.get('data')
    ix = kw.get('index', a[1] if len(a) > 1 else NONE)
    ix = I.resolve(ix)
    index = as_index(I, ix) if ix is not NONE else None
    t = tv(I, v)
    if not is_arr(t):
        t = ops.full(length(I.tof(index)) if index is not None else ONE, t)
    o = Arr(t)
    o.index = index if index is not None else I.arr(mk('drange', ZERO, ONE, length(t)), k='idx')
    return I.new(o, 'ser')


def f_index(I, a, kw, node):
    return as_index(I, timestamp(I, a[0]) if not isinstance(a[0], Ref) else a[0])


def f_isnull(I, a, kw, node):
    t = tv(I, a[0])
    return lib.wrap(I, isnull(t), a[0])


def f_notnull(I, a, kw, node):
    t = tv(I, a[0])
    return lib.wrap(I, not_(isnull(t)), a[0])


def f_read_csv(I, a, kw, node):
    return I.h.read_csv(I, a, kw)


def f_grouper(I, a, kw, node):
    return I.new(Opaque('grouper', mk('grouper', I.term(kw.get('freq', a[1] if len(a) > 1 else NONE)))))


def f_pdconcat(I, a, kw, node):
    items = lib.seq_items(I, a[0])
    ax = I.scalar(kw.get('axis', ZERO))
    if all(I.is_obj(x, Frame) for x in items) and (ax is ONE or is_str(ax) and ax.args[0] == 'columns'):
        r = I.copy_obj(items[0])
        for x in items[1:]:
            for k in frame_names(I, x):
                setitem(I, r, const(k), get_col(I, x, k))
        return r
    if all(I.is_obj(x, Arr) for x in items):
        o = Arr(ops.concat([tv(I, x) for x in items]))
        if all(I.get(x).index is not None for x in items):
            o.index = I.arr(ops.concat([I.tof(I.get(x).index) for x in items]), k='idx')
        return I.new(o, 'ser')
    raise I.Unmodelled('pandas.concat', I.where())


TABLE.update({'pandas.Timedelta': f_timedelta, 'datetime.timedelta': f_pytimedelta, 'pandas.Timestamp': f_timestamp,
              'pandas.to_datetime': f_todatetime, 'pandas.to_timedelta': f_timedelta, 'datetime.datetime': f_datetime,
              'datetime.date': f_datetime, 'pandas.date_range': f_date_range, 'pandas.DataFrame': f_dataframe,
              'pandas.Series': f_series, 'pandas.DatetimeIndex': f_index, 'pandas.Index': f_index,
              'pandas.isnull': f_isnull, 'pandas.isna': f_isnull, 'pandas.notnull': f_notnull,
              'pandas.notna': f_notnull, 'pandas.read_csv': f_read_csv, 'pandas.read_table': f_read_csv,
              'pandas.Grouper': f_grouper, 'pandas.concat': f_pdconcat,
              'pandas.tseries.frequencies.to_offset': f_timedelta,
              'xarray.Dataset': f_dataset, 'xarray.DataArray': f_dataarray, 'xarray.Variable': f_variable,
              'xarray.full_like': f_full_like, 'xarray.concat': f_xrconcat, 'xarray.open_dataset': f_open,
              'xarray.open_mfdataset': f_open, 'xarray.merge': f_merge, 'xarray.where': f_xrwhere,
              'xarray.zeros_like': lambda I, a, kw, node: f_full_like(I, [a[0], ZERO], kw, node),
              'xarray.ones_like': lambda I, a, kw, node: f_full_like(I, [a[0], ONE], kw, node),
              'xarray.load_dataset': f_open})


def family(I, path, args, kw, node):
    return None


def da_index(I, ref, idx):
    """Normalised [(dim, index)] of a positional or dict subscript."""
    dims = da_dims(I, ref)
    idx = I.resolve(idx)
    if I.is_obj(idx, DictO):
        out = []
        for e in lib.dict_entries(I, idx):
            if e[0] != 'v':
                raise I.Unmodelled('generated selection', I.where())
            out.append((name_of(I, e[2]), e[3]))
        return out
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    out, k = [], 0
    for p, x in enumerate(items):
        if isinstance(x, T) and x.op == 'ellipsis':
            k = len(dims) - (len(items) - p - 1)
            continue
        if k >= len(dims):
            I.raise_('IndexError', const('too many indices'))
        if not (isinstance(x, Slc) and x.a is NONE and x.b is NONE):
            out.append((dims[k], x))
        k += 1
    return out


def isel1(I, t, d, x, dims):
    x = I.resolve(x)
    if isinstance(x, Slc):
        if x.a is NONE and x.b is NONE:
            return t
        if d == 'time' and not (len(ops.dims_of(t)) > 1):
            a, b, st = libnp.bounds_of(I, x, length(t))
            return ops.slice_(t, a, b)
        return ops.isel(t, d, mk('sl', x.a, x.b))
    i = tv(I, x)
    if is_arr(i):
        if kind(i) == 'bool':
            return ops.isel(t, d, mk('bsel', i)) if len(ops.dims_of(t)) > 1 else ops.select(t, i)
        return ops.isel(t, d, mk('bsel', i)) if len(ops.dims_of(t)) > 1 else ops.take(t, i)
    if is_num(i) and i.args[0] < 0:
        n = ops.dimlen(t, d) if d != 'time' else mk('len', ops.tcoord(t)) if ops.tcoord(t) is not None else length(t)
        i = add(n, i)
    if not ops.dims_of(t):
        return ops.getitem(t, i)
    return ops.isel(t, d, i)


def coord_isel(I, coords, d, x):
    coords = dict(coords)
    if d in coords:
        c = coords[d]
        c = I.tof(c) if isinstance(c, Ref) else c
        if is_arr(c):
            coords[d] = isel1(I, c, d, x, (d,))
    return coords


def do_isel(I, ref, pairs):
    o = I.get(ref)
    t = I.tof(ref)
    coords = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in (o.coords or {}).items()}
    dims = da_dims(I, ref)
    for d, x in pairs:
        if d not in dims:
            if is_arr(t) or True:
                I.raise_('ValueError', const('dimension %s' % d))
        t = isel1(I, t, d, x, dims)
        coords = coord_isel(I, coords, d, x)
        if not isinstance(I.resolve(x), Slc) and not is_arr(tv(I, x)):
            dims = tuple(z for z in dims if z != d)
    return t, coords, dims


def da_getitem(I, ref, idx):
    idx = I.resolve(idx)
    if isinstance(idx, T) and lib.is_text(idx):
        return da_coord(I, ref, name_of(I, idx))
    if isinstance(idx, T) and idx.op == 'ellipsis':
        return ref
    if isinstance(idx, Ref) and isinstance(I.get(idx), Arr) and kind(I.tof(idx)) == 'bool' and is_arr(I.tof(idx)) \
            and idx.k == 'da' and len(da_dims(I, ref)) > 1:
        raise I.Unmodelled('boolean DataArray subscript', I.where())
    return isel_view(I, ref, da_index(I, ref, idx))


def isel_view(I, ref, pairs):
    """Basic indexing of a DataArray: a view of its memory."""
    o = I.get(ref)
    t, coords, dims = do_isel(I, ref, pairs)
    n = Arr(t)
    n.dims, n.coords, n.name, n.attrs = dims, coords, o.name, dict(o.attrs)
    n.encoding = o.encoding
    n.ds = None
    locs = [(d, I.resolve(x)) for d, x in pairs]
    if all(isinstance(x, Slc) or not is_arr(tv(I, x)) for d, x in locs):
        key = [(d, mk('sl', x.a, x.b) if isinstance(x, Slc) else tv(I, x)) for d, x in locs]
        kt = mk('locs', *[mk('pair', const(d), x) for d, x in sorted(key, key=lambda p: p[0])])
        n.base = (Ref(ref.a), ('fn', lambda b: isel_all(I, b, pairs), lambda b, v: store_locs(b, kt, v)))
    return I.new(n, 'da')


def isel_all(I, t, pairs):
    for d, x in pairs:
        t = isel1(I, t, d, x, ops.dims_of(t))
    return t


def store_locs(b, kt, v):
    if not kt.args:
        return v
    if b.op == 'store' and b.args[1] is kt:
        b = b.args[0]
    return mk('store', b, kt, v)


def da_coord(I, ref, k):
    o = I.get(ref)
    if o.coords and k in o.coords:
        r = coord_value(I, ref, k)
        enc = getattr(o, 'encoding', None)
        if k == 'time' and enc is not None:
            I.get(r).encoding = enc
        return r
    if o.name == k:
        return ref
    I.raise_('KeyError', const(k))


def da_setitem(I, ref, idx, x):
    idx = I.resolve(idx)
    if isinstance(idx, T) and lib.is_text(idx):
        k = name_of(I, idx)
        t = tv(I, x)
        m = I.mut(ref)
        m.coords = dict(m.coords or {})
        old = m.coords.get(k)
        old = I.tof(old) if isinstance(old, Ref) else old
        if old is not None and is_arr(old) and is_arr(t) and not equal(length(t), length(old)):
            I.event('shape', what='coordinate', a=length(t), b=length(old))
        m.coords[k] = t
        I.event('setcoord', name=k, value=t, old=old)
        return
    v = num_arg(I, x)
    pairs = da_index(I, ref, idx)
    store_pairs(I, ref, pairs, v)


def store_pairs(I, ref, pairs, v):
    key = []
    for d, x in pairs:
        x = I.resolve(x)
        key.append((d, mk('sl', x.a, x.b) if isinstance(x, Slc) else tv(I, x)))
    t = I.tof(ref)
    if not key:
        return I.setarr(ref, v if is_arr(v) else ops.full(length(t), v))
    if not ops.dims_of(t) and len(key) == 1 and len(getattr(I.get(ref), 'dims', None) or ()) < 2:
        d, i = key[0]
        if i.op != 'sl':
            return I.setarr(ref, ops.store(t, i, v))
    kt = mk('locs', *[mk('pair', const(d), x) for d, x in sorted(key, key=lambda p: p[0])])
    o = I.get(ref)
    left = [d for d in getattr(o, 'dims', None) or () if d not in [k for k, x in key if x.op != 'sl']]
    if len(left) == 1 and is_arr(v) and left[0] in (getattr(o, 'coords', None) or {}):
        b = I.resolve(o.coords[left[0]])
        b = length(I.tof(b) if isinstance(b, Ref) else b)
        if not equal(length(v), b):
            I.event('shape', what='assignment', a=length(v), b=b)
    I.setarr(ref, store_locs(t, kt, v))


def sel_pairs(I, args, kw):
    out = []
    for a in args:
        a = I.resolve(a)
        if I.is_obj(a, DictO):
            for e in lib.dict_entries(I, a):
                if e[0] != 'v':
                    raise I.Unmodelled('generated selection', I.where())
                out.append((name_of(I, e[2]), e[3]))
        elif a is not NONE:
            raise I.Unmodelled('selection %r' % (a,), I.where())
    for k, x in kw.items():
        if k in ('method', 'tolerance', 'drop', 'missing_dims'):
            continue
        out.append((k, x))
    return out


def inexact(I, v, pairs, kw):
    """Labels of a selection by the nearest (next, previous) label."""
    how = I.term(kw.get('method', NONE))
    if how is NONE:
        return pairs
    if not lib.is_text(how):
        raise I.Unmodelled('selection method', I.where())
    tol = I.term(kw.get('tolerance', NONE))
    o, out = I.get(v), []
    for d, x in pairs:
        x = I.resolve(x)
        c = (o.coords or {}).get(d)
        if c is None or isinstance(x, Slc) or d == 'time':
            raise I.Unmodelled('inexact selection', I.where())
        c = I.tof(c) if isinstance(c, Ref) else c
        t = tv(I, x)
        n = mk('nearest', c, t, how, tol)
        out.append((d, I.arr(n) if is_arr(t) else n))
    return out


def date_norm(I, x):
    """A start or end of a period, up to its spelling."""
    if x is NONE:
        return x
    if lib.is_text(x):
        return parse_date(I, x)
    return x


def sel_time(I, t, coord, x):
    """Selection along time by label(s)."""
    x = I.resolve(x)
    if isinstance(x, Slc):
        a, b = date_norm(I, x.a), date_norm(I, x.b)
        if a is NONE and b is NONE:
            return t, coord
        if coord is not None and coord.op == 'tsel':
            # already restricted to this period
            a0, b0 = coord.args[2], coord.args[3]
            if I.h is not None and I.h.same_period(I, coord, a, b):
                return t, coord
        if coord is not None and coord.op == 'concat' and coord.args[0] is NONE:
            pos = ZERO
            for y in coord.args[1:]:
                if y.op == 'tsel' and (y.args[2] is a and y.args[3] is b or
                                       I.h is not None and I.h.same_period(I, y, a, b)):
                    return mk_slice_time(t, pos, add(pos, length(y))), y
                pos = add(pos, length(y))
        if coord is not None and coord.op in ('drange', 'slice') and len(ops.dims_of(t)) <= 1 or \
                coord is not None and coord.op == 'drange':
            p, q = canon(label_pos(coord, a)), canon(add(label_pos(coord, b), ONE))
            if not any(s.op == 'labelpos' for s in subterms(p)) and not any(s.op == 'labelpos' for s in subterms(q)):
                if p is ZERO and equal(q, length(coord)):
                    return t, coord
                if ops.dims_of(t):
                    return mk_slice_time(t, p, q), ops.slice_(coord, p, q)
                return ops.slice_(t, p, q), ops.slice_(coord, p, q)
        c2 = mk('tsel', coord, coord, a, b) if coord is not None else None
        return ops.tsel(t, coord, a, b), c2
    lab = tv(I, x)
    if is_arr(lab):
        if lab is coord or coord is not None and equal(lab, coord):
            return t, coord
        return mk('csel', t, 'time', lab), lab
    lab = date_norm(I, lab)
    p = label_pos(coord, lab) if coord is not None else mk('labelpos', NONE, lab)
    if coord is not None:
        n = length(coord)
        d = canon(sub(p, n))
        inside = mk('inlabels', coord, lab)
        if p.op != 'labelpos':
            if d.op == 'num' and d.args[0] >= 0:
                inside = FALSE
            elif ops.decide_bounds(sub(p, n)) is True:
                inside = TRUE
        if inside is not TRUE:
            I.may('KeyError', not_(inside) if inside is not FALSE else TRUE)
    if ops.dims_of(t) and len(ops.dims_of(t)) > 1:
        return ops.isel(t, 'time', p), None
    return ops.getitem(t, p), None


def do_sel(I, ref, pairs):
    o = I.get(ref)
    t = I.tof(ref)
    coords = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in (o.coords or {}).items()}
    dims = da_dims(I, ref)
    for d, x in pairs:
        if d == 'time':
            if d not in dims:
                I.raise_('KeyError', const(d))
            t, c = sel_time(I, t, coords.get('time'), x)
            if c is None:
                coords.pop('time', None)
                dims = tuple(z for z in dims if z != 'time')
            else:
                coords['time'] = c
            continue
        x = I.resolve(x)
        if isinstance(x, Slc):
            if x.a is NONE and x.b is NONE:
                continue
            t = mk('csel', t, d, mk('sl', x.a, x.b))
            coords[d] = mk('csel', coords.get(d, NONE), d, mk('sl', x.a, x.b))
            continue
        lab = tv(I, x)
        if lib.is_text(lab):
            I.raise_('KeyError', lab)
        if not is_arr(lab):
            at = coords.get(d)
            if not (lab.op == 'nearest' and lab.args[2] is const('nearest') and lab.args[3] is NONE):
                I.may('KeyError', not_(mk('incoord', const(d), lab, *([at] if at is not None and is_arr(at) else []))))
            coords[d] = lab
            dims = tuple(z for z in dims if z != d)
        else:
            coords[d] = lab
        t = ops.csel(t, d, lab)
    return t, coords, dims


# ------------------------------------------------------------- attributes
class Loc(object):
    pass


def attr(I, v, name):
    o = I.get(v)
    if isinstance(o, Arr):
        return arr_attr(I, v, name)
    if isinstance(o, Frame):
        return frame_attr(I, v, name)
    return ds_attr(I, v, name)


def indexer(kind_, v):
    o = Opaque('indexer', mk('indexer', kind_))
    o.attrs = {'getitem': lambda I, s, idx: ix_get(I, kind_, v, idx),
               'setitem': lambda I, s, idx, x: ix_set(I, kind_, v, idx, x)}
    return o


def ix_get(I, kind_, v, idx):
    o = I.get(v)
    idx = I.resolve(idx)
    if isinstance(o, Frame):
        if isinstance(idx, Tup) and len(idx.items) == 2:
            row, col = idx.items
            if isinstance(I.resolve(col), Ref) or isinstance(col, Slc):
                sub_ = getitem(I, v, col) if not isinstance(col, Slc) else v
                return ix_get(I, kind_, sub_, row)
            s = get_col(I, v, name_of(I, col)) if kind_ in ('loc', 'at') else get_col(
                I, v, frame_names(I, v)[pyval(I.scalar(col))])
            if isinstance(row, Slc) and row.a is NONE and row.b is NONE:
                return s
            return ix_get(I, kind_, s, row)
        if isinstance(idx, Slc):
            return frame_slice(I, v, idx, kind_ == 'iloc')
        if isinstance(idx, Ref):
            it = tv(I, idx)
            if kind(it) == 'bool':
                return getitem(I, v, idx)
            # selection of labels
            io = I.get(v)
            r = new_frame(I, I.arr(it, k='idx'))
            base = I.tof(io.index)
            if equal(it, base):
                return I.copy_obj(v)
            p = ZERO
            if it.op == 'drange' and (base.op == 'drange' or ops.is_time(base)) and kind_ == 'loc':
                st = base.args[1] if base.op == 'drange' else DAY
                if equal(st, it.args[1]):
                    a = canon(label_pos(base, it.args[0]))
                    for k, c in io.cols.items():
                        I.mut(r).cols[k] = map_phi(I, I.resolve(c), lambda x: I.arr(
                            ops.slice_(I.tof(x), a, canon(add(a, it.args[2])))))
                    I.event('trim', frame=v.a, a=a, b=canon(add(a, it.args[2])), n=length(base),
                            start=it.args[0], stop=ops.getitem(it, sub(it.args[2], ONE)), index=base)
                    return r
            for k, c in io.cols.items():
                I.mut(r).cols[k] = map_phi(I, I.resolve(c), lambda x: I.arr(mk('reindex', I.tof(x), base, it)))
            return r
        # one row
        lab = I.scalar(idx)
        p = lab if kind_ == 'iloc' else label_pos(I.tof(o.index), date_of(I, lab))
        d = I.dict_()
        for k, c in o.cols.items():
            lib.dict_set(I, d, const(k), ops.getitem(I.tof(I.resolve(c)), p))
        return d
    if isinstance(o, Arr) and v.k == 'ser':
        t = I.tof(v)
        if kind_ in ('iloc', 'iat'):
            if isinstance(idx, Slc):
                a, b, st = libnp.bounds_of(I, idx, length(t))
                r = Arr(ops.slice_(t, a, b))
                r.index = I.arr(ops.slice_(I.tof(o.index), a, b), k='idx') if o.index is not None else None
                return I.new(r, 'ser')
            i = tv(I, idx)
            if is_arr(i):
                return I.arr(libnp.by_array(t, i))
            return ops.getitem(t, i)
        if isinstance(idx, Slc):
            return loc_series(I, v, idx)
        return ser_getitem(I, v, idx)
    if isinstance(o, Arr) and v.k == 'da':
        pairs = loc_pairs(I, v, idx)
        t, coords, dims = do_sel(I, v, pairs)
        return new_da(I, t, coords, o.name, dims, o.attrs)
    if isinstance(o, Dset):
        return ds_sel(I, v, sel_pairs(I, [idx], {}))
    return libnp.arr_getitem(I, v, idx)


def loc_pairs(I, v, idx):
    idx = I.resolve(idx)
    if I.is_obj(idx, DictO):
        return sel_pairs(I, [idx], {})
    dims = da_dims(I, v)
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    return [(d, x) for d, x in zip(dims, items) if not (isinstance(x, Slc) and x.a is NONE and x.b is NONE)]


def ix_set(I, kind_, v, idx, x):
    o = I.get(v)
    idx = I.resolve(idx)
    if isinstance(o, Frame):
        if isinstance(idx, Tup) and len(idx.items) == 2:
            row, col = idx.items
            k = name_of(I, col)
            if k not in o.cols:
                setitem(I, v, col, NAN)
            s = get_col(I, v, k)
            if isinstance(row, Slc) and row.a is NONE and row.b is NONE:
                return setitem(I, v, col, x)
            return ix_set(I, kind_, s, row, x)
        raise I.Unmodelled('row assignment', I.where())
    if isinstance(o, Arr) and v.k == 'ser':
        if kind_ == 'iloc':
            w = Ref(v.a, 'nd')
            return libnp.arr_setitem(I, w, idx, x)
        return ser_setitem(I, v, idx, x)
    if isinstance(o, Arr) and v.k == 'da':
        pairs = loc_pairs(I, v, idx)
        t = I.tof(v)
        val = num_arg(I, x)
        if len(pairs) == 1 and pairs[0][0] == 'time':
            lab = I.resolve(pairs[0][1])
            lt = tv(I, lab) if not isinstance(lab, Slc) else None
            c = (o.coords or {}).get('time')
            c = I.tof(c) if isinstance(c, Ref) else c
            m = None
            if lt is not None and is_arr(lt):
                if kind(lt) == 'bool':
                    m = lt
                elif lt.op == 'select' and c is not None and equal(lt.args[0], c):
                    m = lt.args[1]
                elif lt.op == 'isel' and lt.args[2].op == 'bsel':
                    m = lt.args[2].args[0]
                elif c is not None and equal(lt, c):
                    m = TRUE
            if m is not None:
                if isinstance(x, Ref) and x.k == 'da':
                    I.event('locset', dims=da_dims(I, x), coords=dict(I.get(x).coords or {}))
                return I.setarr(v, ite(m, val, t))
        key = []
        for d, y in pairs:
            y = I.resolve(y)
            lt = mk('sl', date_norm(I, y.a), date_norm(I, y.b)) if isinstance(y, Slc) else tv(I, y)
            key.append((d, lt))
        at = {d: I.tof(c) if isinstance(c, Ref) else c for d, c in (o.coords or {}).items()}
        kt = mk('labels', *[mk('pair', const(d), y, *([at[d]] if d in at and is_arr(at[d]) else []))
                            for d, y in sorted(key, key=lambda p: p[0])])
        if isinstance(x, Ref) and x.k == 'ser' and I.get(x).index is not None:
            I.event('locset', index=I.tof(I.get(x).index), coords=dict(o.coords or {}))
        return I.setarr(v, mk('store', t, kt, val))
    raise I.Unmodelled('indexed assignment', I.where())


def arr_attr(I, v, name):
    o = I.get(v)
    t = I.tof(v)
    k = v.k
    if name in ('values', 'data', 'array') and k in ('ser', 'da', 'idx', 'nd'):
        if k == 'da' and not is_arr(t):
            return I.arr0(t) if hasattr(I, 'arr0') else t
        if k == 'da' and o.ds is None and o.base is None or k in ('ser', 'da'):
            return Ref(v.a, 'nd')
        return Ref(v.a, 'nd') if k == 'nd' else I.new(Arr(t), 'nd')
    if name == 'T':
        return I.arr(libnp.transpose(t))
    if name == 'size':
        return libnp.size(t)
    if name == 'shape':
        if k == 'da':
            return libnp.shape_tuple(t, [dim_size(I, v, d) for d in da_dims(I, v)])
        return libnp.shape_tuple(t, libnp.shape_list(t))
    if name == 'ndim':
        return num(len(da_dims(I, v)) if k == 'da' else rank(t) if is_arr(t) else 0)
    if name == 'dtype':
        return I.new(Opaque('dtype', mk('dtype', t)))
    if name in ('index',):
        if o.index is not None:
            return o.index
        if k == 'ser':
            return I.arr(mk('drange', ZERO, ONE, length(t)), k='idx')
    if name in ('iloc', 'loc', 'iat', 'at'):
        return I.new(indexer(name, v))
    if k == 'da':
        if name == 'dims':
            return Tup([const(d) for d in da_dims(I, v)])
        if name in ('coords', 'indexes'):
            d = I.dict_()
            for c in (o.coords or {}):
                x = coord_value(I, v, c)
                if name == 'indexes':
                    x = Ref(x.a, 'idx') if is_arr(I.tof(x)) else x
                if name == 'coords' or is_arr(I.tof(x)):
                    lib.dict_set(I, d, const(c), x)
            return d
        if name == 'sizes':
            d = I.dict_()
            for c in da_dims(I, v):
                lib.dict_set(I, d, const(c), dim_size(I, v, c))
            return d
        if name == 'name':
            return const(o.name) if o.name else NONE
        if name == 'attrs':
            return attrs_dict(I, v)
        if name == 'encoding':
            return encoding(I, v)
        if name == 'dt':
            return I.new(Opaque('dt', mk('dt', t), {'getattr': lambda I2, s, n: dt_field(I2, v, n)}))
        if o.coords and name in o.coords:
            return coord_value(I, v, name)
        if name == 'chunks':
            return NONE
    if k == 'ser' and name == 'dt':
        return I.new(Opaque('dt', mk('dt', t), {'getattr': lambda I2, s, n: dt_field(I2, v, n)}))
    if k in ('idx',) and name in DATEF:
        return I.arr(datefield(name, t), k='idx')
    if k == 'idx' and name in ('is_monotonic_increasing', 'is_unique'):
        return mk('truth', mk('call', name, t))
    if name == 'name':
        return const(o.name) if o.name else NONE
    if name in ('str', 'plot'):
        raise I.Unmodelled('attribute ' + name, I.where())
    if name in DATEF and k == 'nd' and not is_arr(t):
        return datefield(name, t)
    if name == 'year' and not is_arr(t):
        return datefield(name, t)
    if name == 'flat':
        return I.arr(libnp.flatten(t))
    if name == 'base':
        return NONE
    if name == 'empty':
        return cmp_('==', length(t), ZERO)
    return Meth(v, name)


def dt_field(I, v, n):
    if n in DATEF:
        o = I.get(v)
        r = Arr(datefield(n, I.tof(v)))
        r.dims, r.coords, r.index = o.dims, o.coords, o.index
        return I.new(r, v.k)
    return None


def dim_size(I, v, d):
    o = I.get(v)
    c = (o.coords or {}).get(d)
    if c is not None:
        c = I.tof(c) if isinstance(c, Ref) else c
    if c is None and d != "time" and ops.dims_of(I.tof(v)):
        return ops.dimlen(I.tof(v), d)
    return coord_size(c, d)


def coord_size(c, d):
    if c is None or not is_arr(c):
        return ops.dimlen(None, d)
    if d == 'time':
        return length(c)
    if c.op in ('var', 'isel', 'csel'):
        if c.op == 'isel' and c.args[2].op == 'sl':
            return mk('sllen', c.args[2], ops.dimlen(c.args[0], d))
        return ops.dimlen(c, d)
    return length(c)


def attrs_dict(I, v):
    o = I.get(v)
    d = getattr(o, 'attrs_ref', None)
    if d is None:
        d = I.dict_({const(k): x for k, x in o.attrs.items()})
        n = I.get(v).copy()
        n.attrs_ref = d
        I.st.heap[v.a] = n
    return d


def encoding(I, v):
    o = I.get(v)
    e = o.encoding
    if isinstance(e, Ref):
        return e
    d = I.dict_(e if isinstance(e, dict) else None)
    n = I.get(v).copy()
    n.encoding = d
    I.st.heap[v.a] = n
    return d


def frame_attr(I, v, name):
    o = I.get(v)
    if name == 'index':
        return o.index
    if name == 'columns':
        return I.list_([const(k) for k in o.cols], 'columns')
    if name in ('loc', 'iloc', 'at', 'iat'):
        return I.new(indexer(name, v))
    if name in o.cols:
        return get_col(I, v, name)
    if name == 'shape':
        return Tup([length(I.tof(o.index)), num(len(o.cols))])
    if name == 'size':
        return mul(length(I.tof(o.index)), num(len(o.cols)))
    if name == 'empty':
        return boolT(not o.cols)
    return Meth(v, name)


def ds_dims(I, v):
    o = I.get(v)
    out = []
    for d in o.dims:
        c = o.coords.get(d)
        out.append((d, coord_size(I.tof(c) if c is not None else None, d)))
    return out


def ds_attr(I, v, name):
    o = I.get(v)
    if name in ('dims', 'sizes'):
        d = I.dict_()
        for k, n in ds_dims(I, v):
            lib.dict_set(I, d, const(k), n)
        return d
    if name == 'coords':
        d = I.dict_()
        for k in o.coords:
            lib.dict_set(I, d, const(k), get_var(I, v, k))
        return d
    if name in ('data_vars', 'variables'):
        d = I.dict_()
        for k in list(o.vars) + (list(o.coords) if name == 'variables' else []):
            x = get_var(I, v, k)
            lib.dict_set(I, d, const(k), x)
        return d
    if name == 'indexes':
        d = I.dict_()
        for k in o.dims:
            if k in o.coords:
                c = I.get(o.coords[k])
                r = Arr(I.tof(o.coords[k]))
                lib.dict_set(I, d, const(k), I.new(r, 'idx'))
        return d
    if name == 'attrs':
        return attrs_dict(I, v)
    if name == 'encoding':
        return I.dict_()
    if name in ('loc',):
        return I.new(indexer(name, v))
    if name in o.vars or name in o.coords:
        return get_var(I, v, name)
    if name == 'chunks':
        return I.dict_()
    return Meth(v, name)


def set_attr(I, v, name, x):
    o = I.get(v)
    if isinstance(o, Frame):
        if name == 'index':
            ix = as_index(I, x)
            n = length(I.tof(ix))
            if o.index is not None and not equal(n, length(I.tof(o.index))):
                I.event('shape', what='index', a=n, b=length(I.tof(o.index)))
            m = I.mut(v, 'frame index')
            m.index = ix
            for k, c in list(m.cols.items()):
                if isinstance(c, Ref):
                    nc = I.get(c).copy()
                    nc.index = ix
                    I.st.heap[c.a] = nc
            return
        if name == 'columns':
            names = lib.seq_items(I, x)
            m = I.mut(v)
            m.cols = {name_of(I, n): c for n, c in zip(names, m.cols.values())}
            return
        if name in o.cols:
            return setitem(I, v, const(name), x)
        return
    if isinstance(o, Arr):
        if name in ('values', 'data'):
            t = tv(I, x)
            if o.name is not None and o.ds is not None and o.ds[1] == o.name:
                d = I.get(Ref(o.ds[0]))
                if o.name in d.coords and isinstance(d, Dset):
                    return ds_setitem(I, Ref(o.ds[0]), const(o.name), x)
            return I.setarr(v, t if is_arr(t) else ops.full(length(I.tof(v)), t))
        if name == 'index':
            I.mut(v).index = as_index(I, x)
            return
        if name == 'name':
            nm = I.term(x)
            I.mut(v).name = nm.args[0] if is_str(nm) else None
            return
        if name in ('attrs', 'encoding'):
            d = I.resolve(x)
            if name == 'encoding':
                I.mut(v).encoding = d
            else:
                m = I.mut(v)
                m.attrs_ref = d
            return
        if name == 'shape':
            return
    if isinstance(o, Dset):
        if name == 'attrs':
            I.mut(v).attrs_ref = I.resolve(x)
            return
        if name in ('encoding',):
            return
        return ds_setitem(I, v, const(name), x)
    raise I.Unmodelled('attribute assignment ' + name, I.where())


# ----------------------------------------------------------------- methods
def method(I, v, name, args, kw, node):
    o = I.get(v)
    if isinstance(o, Arr):
        r = arr_method(I, v, name, args, kw, node)
    elif isinstance(o, Frame):
        r = frame_method(I, v, name, args, kw, node)
    else:
        r = ds_method(I, v, name, args, kw, node)
    if r is None:
        ts = [I.term(a) for a in args] + [mk('pair', const(k), I.term(x)) for k, x in kw.items()]
        I.unknown('method %s' % name)
        return I.new(Opaque('?', mk('call', mk('meth', I.term(v), name), *ts)))
    return r


def lab(I, v, t):
    """Result with the labels of v."""
    return lib.wrap(I, t, v)


def copy_arr(I, v):
    o = I.get(v)
    n = o.copy()
    n.t = I.tof(v)
    n.base = None
    n.origin = None
    n.ds = None
    n.coords = dict(o.coords) if o.coords else o.coords
    n.__dict__.pop('attrs_ref', None)
    if getattr(o, 'attrs_ref', None) is not None:
        n.attrs_ref = I.copy_obj(o.attrs_ref)
    if isinstance(o.encoding, Ref):
        n.encoding = I.copy_obj(o.encoding)
    return I.new(n, v.k)


def arr_method(I, v, name, args, kw, node):
    o = I.get(v)
    t = I.tof(v)
    k = v.k
    A = lambda i, n, d=NONE: args[i] if len(args) > i else kw.get(n, d)
    if name == 'copy':
        return copy_arr(I, v)
    if name in ('load', 'compute', 'persist', 'squeeze', 'close', 'infer_objects', 'rename_axis', 'sort_index',
                'chunk', 'unify_chunks', 'astype_'):
        return v
    if name in ('to_numpy', '__array__', 'view', 'to_series', 'as_numpy'):
        return Ref(v.a, 'nd') if k != 'idx' else I.arr(t)
    if name in ('to_pydatetime', 'to_datetimeindex', 'tz_localize', 'to_index', 'to_timestamp', 'to_list', 'tolist',
                'normalize') and (k in ('idx', 'da', 'nd') or name in ('to_list', 'tolist')):
        if name == 'normalize':
            return round_time(I, t, -0.0, v)
        if name in ('tolist', 'to_list') and not is_arr(t):
            return t
        return v
    if name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'std', 'prod', 'median', 'argmax', 'argmin', 'var'):
        if k == 'da' and name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'std', 'prod', 'median', 'var'):
            mine = da_dims(I, v)
            d = I.resolve(A(0, 'dim')) if 'dim' in kw or args and not is_num(I.resolve(args[0])) else NONE
            if d is NONE or isinstance(d, T) and d.op == 'ellipsis':
                ds = tuple(mine)
            elif isinstance(d, T) and lib.is_text(d):
                ds = (name_of(I, d),)
            else:
                ds = lib.seq_items(I, d)
                if ds is None:
                    raise I.Unmodelled('dimensions of a reduction', I.where())
                ds = tuple(name_of(I, x) for x in ds)
            if not mine and not is_arr(t) and o.dims != () and ds:
                # one value everywhere: its dimensions are not in the term
                if name in ('min', 'max', 'mean', 'median'):
                    return new_da(I, t, {c: y for c, y in (o.coords or {}).items() if c not in ds}, o.name, None)
                if name in ('any', 'all'):
                    return new_da(I, tv(I, v) if tv(I, v) in (TRUE, FALSE) else not_(cmp_('==', t, ZERO)), {}, o.name, None)
                raise I.Unmodelled('%s of one value everywhere' % name, I.where())
            if 'axis' not in kw and (len(mine) > 1 or d is not NONE):
                for x in ds:
                    if x not in mine:
                        I.raise_('ValueError', const('dimension %s' % x))
                if len(ds) < len(mine) or name not in ('any', 'all', 'sum', 'min', 'max'):
                    coords = {c: y for c, y in (o.coords or {}).items() if c not in ds}
                    return new_da(I, ops.reddim(name, t, ds), coords, o.name, tuple(x for x in mine if x not in ds))
                return libnp.reduce_(I, v, name, NONE)
        r = libnp.reduce_(I, v, name, A(0, 'axis'))
        return r
    if name in ('flatten', 'ravel'):
        if not is_arr(t):
            return I.arr(ops.full(ONE, t))
        return I.arr(libnp.flatten(t)) if name == 'flatten' else I.new(fn_view(
            I, v, libnp.flatten, (lambda b, x: x) if rank(t) == 1 else None), 'nd')
    if name == 'reshape':
        return libnp.reshape(I, Ref(v.a, 'nd'), args, kw)
    if name in ('transpose', 'swapaxes'):
        if k == 'da':
            mine = da_dims(I, v)
            names = [I.term(a) for a in args]
            more = [q for q, n in enumerate(names) if n.op == 'ellipsis']
            if not names:
                names = [const(d) for d in reversed(mine)]
            elif more:
                given = [n.args[0] for q, n in enumerate(names) if q not in more]
                names[more[0]:more[0] + 1] = [const(d) for d in mine if d not in given]
            if not all(is_str(n) for n in names):
                return None
            want = [n.args[0] for n in names]
            if set(want) != set(mine):
                if I.scalar(kw.get('missing_dims', const('raise'))) is const('raise'):
                    I.raise_('ValueError', const('dimensions %s of %s' % (want, list(mine))))
                return None
            if len(want) < 2 or tuple(want) == tuple(ops.dims_of(t)):
                return v
            if not ops.dims_of(t):
                return v
            r = new_da(I, ops.permute(t, want), dict(o.coords or {}), o.name, tuple(want), o.attrs)
            I.get(r).encoding = o.encoding
            return r
        return I.arr(libnp.transpose(t))
    if name == 'astype':
        return libnp.astype(I, v, args[0] if args else kw['dtype'])
    if name == 'fillna':
        return lab(I, v, fill(I, t, args, kw))
    if name in ('ffill', 'pad'):
        return lab(I, v, ops.ffill(t, 'ffill'))
    if name in ('bfill', 'backfill'):
        return lab(I, v, ops.ffill(t, 'bfill'))
    if name in ('isnull', 'isna'):
        return lab(I, v, isnull(t))
    if name in ('notnull', 'notna'):
        return lab(I, v, not_(isnull(t)))
    if name == 'fill':
        x = num_arg(I, args[0])
        I.setarr(v, libnp.filled(I, libnp.shape_list(t), x))
        return NONE
    if name == 'clip':
        return libnp.clip(I, v, A(0, 'min', kw.get('lower', kw.get('a_min', NONE))),
                          A(1, 'max', kw.get('upper', kw.get('a_max', NONE))))
    if name == 'where':
        c = libnp.tb(tv(I, A(0, 'cond')))
        return lab(I, v, ite(c, t, num_arg(I, A(1, 'other', NAN))))
    if name == 'mask':
        c = libnp.tb(tv(I, A(0, 'cond')))
        return lab(I, v, ite(c, num_arg(I, A(1, 'other', NAN)), t))
    if name in ('add', 'sub', 'mul', 'div', 'truediv', 'pow', 'mod', 'subtract', 'multiply', 'divide'):
        op = {'add': 'Add', 'sub': 'Sub', 'subtract': 'Sub', 'mul': 'Mult', 'multiply': 'Mult', 'div': 'Div',
              'divide': 'Div', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod'}[name]
        return lib.binop(I, op, v, args[0])
    if name in ('gt', 'ge', 'lt', 'le', 'eq', 'ne'):
        op = {'gt': 'Gt', 'ge': 'GtE', 'lt': 'Lt', 'le': 'LtE', 'eq': 'Eq', 'ne': 'NotEq'}[name]
        return lib.compare(I, op, v, args[0])
    if name == 'abs':
        return lab(I, v, fn('abs', t))
    if name == 'item':
        if args:
            return ops.getitem(t, I.scalar(args[0]))
        return t if not is_arr(t) else ops.getitem(libnp.flatten(t), ZERO)
    if name == 'repeat':
        return I.arr(ops.repeat(t, I.scalar(args[0])))
    if name == 'cumsum':
        return lab(I, v, mk('cumsum', t))
    if name == 'nonzero':
        return libnp.nonzero(I, t)
    if name == 'take':
        ix = tv(I, args[0])
        return I.arr(ops.take(t, ix))
    if name == 'dot':
        return TABLE_NP('dot')(I, [v] + list(args), kw, node)
    if name == 'diff':
        if k == 'ser':
            return lab(I, v, mk('fext', 'serdiff', t))
        return None
    if name == 'round' and k == 'idx':
        return round_time(I, t, I.term(A(0, 'freq')), v)
    if name in ('floor',) and k == 'idx':
        return floor_time(I, t, I.term(A(0, 'freq')), v)
    if name == 'round':
        return lab(I, v, mk('fext', 'round', t, I.term(A(0, 'decimals', ZERO))))
    if name in ('items', 'iteritems'):
        it = I.tof(o.index) if o.index is not None else mk('drange', ZERO, ONE, length(t))
        i = mk('i', ops.fresh())
        ops.UPPER[i] = length(t)
        r = I.list_((), 'items')
        I.mut(r).segs = [('gen', length(t), i, TRUE, Tup([ops.getitem(it, i), ops.getitem(t, i)]))]
        return r
    if name == 'keys' and k == 'ser':
        return o.index
    if name == 'get' and k == 'ser':
        return ser_getitem(I, v, args[0])
    if name == 'get_loc':
        return label_pos(t, date_of(I, args[0]))
    if name in ('apply', 'map', 'pipe'):
        if name == 'pipe':
            return I.call(args[0], [v] + list(args[1:]), kw)
        i = mk('i', ops.fresh())
        n = length(t)
        ops.UPPER[i] = n
        x = I.call(args[0], [ops.getitem(t, i)], {})
        return lab(I, v, ops.gen(n, i, I.term(x)))
    if name == 'groupby':
        return groupby(I, v, args, kw)
    if name == 'rolling':
        return rolling(I, v, args, kw)
    if name in ('strftime',):
        return lab(I, v, mk('fext', 'strftime', t, I.term(args[0])))
    if name == 'to_series':
        return f_series(I, [v], {'index': v}, node)
    if name == 'to_frame':
        r = new_frame(I, o.index)
        setitem(I, r, A(0, 'name', const(o.name or '0')), v)
        return r
    if name == 'reindex':
        ix = tv(I, A(0, 'index'))
        if o.index is not None and equal(ix, I.tof(o.index)):
            return copy_arr(I, v)
        return lab(I, v, mk('reindex', t, I.tof(o.index) if o.index is not None else NONE, ix))
    if name == 'reset_index':
        r = Arr(t)
        r.index = I.arr(mk('drange', ZERO, ONE, length(t)), k='idx')
        return I.new(r, 'ser')
    if name == 'rename':
        return copy_arr(I, v)
    if name == 'append' and k == 'idx':
        return I.arr(ops.concat([t, libnp.cell(tv(I, args[0]))]), k='idx')
    if name == 'insert' and k == 'idx':
        r = libnp.f_insert(I, [v] + list(args), kw, node)
        return Ref(r.a, 'idx')
    if name == 'drop' and k in ('da', 'ser', 'idx'):
        return drop(I, v, args, kw)
    if name in ('shift',) and k == 'idx':
        p = num_arg(I, A(0, 'periods', ONE))
        f = I.term(A(1, 'freq'))
        m = freq_minutes(f) if f is not NONE else None
        if m is not None:
            return I.arr(add(t, mul(p, m, MIN)), k='idx')
        return None
    if name == 'shift' and k == 'ser' and kw.get('freq') is not None:
        return None
    if name == 'shift' and k in ('ser', 'da') and kw.get('fill_value') is None:
        ps = sel_pairs(I, [a for a in args if I.is_obj(I.resolve(a), DictO)], kw) if k == 'da' else [
            ('time', args[0] if args else kw.get('periods', ONE))]
        if len(ps) == 1 and ps[0][0] == 'time' and is_num(I.scalar(ps[0][1])):
            return lib.wrap(I, mk('rolling', t, 'time', I.scalar(ps[0][1]), 'shift'), v)
        return None
    if k == 'da':
        if name == 'isel':
            drop_ = kw.get('drop')
            return isel_view(I, v, sel_pairs(I, args, kw))
        if name == 'sortby':
            def sel(ps):
                tt, cs, dims = do_sel(I, v, ps)
                return new_da(I, tt, cs, o.name, dims, o.attrs)

            def by_time(ct):
                st = mk('sorted', ct)
                cs = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in (o.coords or {}).items()}
                cs['time'] = st
                return new_da(I, mk('reindex', t, ct, st), cs, o.name, da_dims(I, v), o.attrs)
            def coord(d):
                c = (o.coords or {}).get(d)
                return I.tof(c) if isinstance(c, Ref) else c
            return sortby(I, v, args, kw, da_dims(I, v), coord, sel, by_time)
        if name == 'sel':
            tt, cs, dims = do_sel(I, v, inexact(I, v, sel_pairs(I, args, kw), kw))
            r = new_da(I, tt, cs, o.name, dims, o.attrs)
            I.get(r).encoding = o.encoding
            return r
        if name in ('to_dataset',):
            nm = I.term(A(1, 'name', const(o.name) if o.name else NONE))
            r = f_dataset(I, [], {}, node)
            ds_setitem(I, r, nm, v)
            return r
        if name in ('assign_coords',):
            r = copy_arr(I, v)
            for d, x in sel_pairs(I, args, kw):
                da_setitem(I, r, const(d), x)
            return r
        if name in ('drop_sel', 'drop_vars', 'reset_coords'):
            if name == 'drop_sel':
                return drop(I, v, args, kw)
            r = copy_arr(I, v)
            return r
        if name in ('expand_dims', 'stack', 'unstack', 'interp', 'resample', 'broadcast_like'):
            return None
        if name == 'to_dataframe':
            return None
        if name == 'get_axis_num':
            return num(da_dims(I, v).index(I.term(args[0]).args[0]))
        if name == 'equals' or name == 'identical':
            return mk('truth', mk('eqarr', t, tv(I, args[0])))
    if name in ('equals',):
        return mk('truth', mk('eqarr', t, tv(I, args[0])))
    if name == 'isin':
        x = tv(I, args[0])
        return lab(I, v, mk('fext', 'isin', t, x))
    if name == 'setflags' or name == 'sort':
        if name == 'sort':
            I.setarr(v, mk('sorted', t))
        return NONE
    if name == 'tobytes':
        return mk('call', 'tobytes', t)
    if name == 'strip':
        return None
    if name == 'get' and o.attrs:
        return None
    if name == 'iteritems':
        return None
    if name == 'to_dict':
        return None
    if name in DATEF:
        return I.arr(datefield(name, t))
    return None


def TABLE_NP(n):
    return libnp.TABLE['numpy.' + n]


def round_time(I, t, freq, v):
    """Rounding of time stamps to whole days."""
    if isinstance(freq, T) and is_str(freq) and freq.args[0] in ('D', 'd', '1D'):
        base, off = raw_axis(t)
        if base is not None:
            if Fraction(-720) <= off <= Fraction(-719):
                return I.arr(base.args[0], k='idx')
            if off == 0:
                return I.arr(mk('rounded', base, freq), k='idx')
        if ops.is_time(t):
            return I.arr(t, k='idx')
        return I.arr(mk('rounded', t, freq), k='idx')
    if freq == -0.0 and not isinstance(freq, T):
        base, off = raw_axis(t)
        if base is not None and off == 0:
            return I.arr(base.args[0], k='idx')
        return I.arr(mk('rounded', t, const('normalize')), k='idx')
    return I.arr(mk('rounded', t, freq if isinstance(freq, T) else NONE), k='idx')


def floor_time(I, t, freq, v):
    if is_str(freq) and freq.args[0] in ('D', 'd', '1D'):
        base, off = raw_axis(t)
        if base is not None and off == 0:
            return I.arr(base.args[0], k='idx')
        if ops.is_time(t):
            return I.arr(t, k='idx')
    return I.arr(mk('floored', t, freq), k='idx')


def raw_axis(t):
    """t = raw daily stamps + constant minutes."""
    p = poly(t)
    base, off = None, Fraction(0)
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == 'rawdays' and m[0][1] == 1 and c == 1:
            base = m[0][0]
        elif len(m) == 1 and m[0][0] is MIN and m[0][1] == 1:
            off = c
        else:
            return None, None
    return base, off


ops.ARR.add('rawdays')
ops.ARR.update({'permute', 'rounded', 'floored', 'tslice', 'blockred', 'rolling'})


def drop(I, v, args, kw):
    o = I.get(v)
    t = I.tof(v)
    if v.k == 'da':
        dim = kw.get('dim', args[1] if len(args) > 1 else NONE)
        pairs = [(I.term(dim).args[0], args[0] if args else kw.get('labels'))] if I.term(dim) is not NONE else [
            (k, x) for k, x in kw.items()]
        coords = {d: (I.tof(c) if isinstance(c, Ref) else c) for d, c in (o.coords or {}).items()}
        for d, labs in pairs:
            c = coords.get(d)
            lt = tv(I, labs)
            if c is not None and c.op == 'concat' and c.args[0] is NONE:
                pos, keep = ZERO, []
                for y in c.args[1:]:
                    e = add(pos, length(y))
                    if not (y is lt or equal(y, lt)):
                        keep.append((pos, e, y))
                    pos = e
                if len(keep) == 1:
                    t = mk_slice_time(t, keep[0][0], keep[0][1])
                    coords[d] = keep[0][2]
                    continue
            t = mk('dropped', t, d, lt, c if c is not None else NONE)
            coords[d] = mk('dropped', c, d, lt, c) if c is not None else NONE
        return new_da(I, t, coords, o.name, o.dims, o.attrs)
    return None


ops.ARR.add('dropped')


def rolling(I, v, args, kw):
    pairs = [(k, x) for k, x in sel_pairs(I, [a for a in args if I.is_obj(I.resolve(a), DictO)], kw)
             if k not in ('min_periods', 'center', 'window')]
    if v.k == 'ser':
        pairs = [('time', args[0] if args else kw['window'])]
    if len(pairs) != 1:
        return None
    d, w = pairs[0]
    mp = I.scalar(kw.get('min_periods', NONE))
    ce = I.scalar(kw.get('center', FALSE))
    o = Opaque('rolling', mk('rollobj', I.tof(v), const(d), I.scalar(w)))

    def call(how):
        def f(I2, a, k2, node):
            t = I2.tof(v)
            extra = []
            if mp is not NONE and mp is not I2.scalar(w):
                extra.append(mk('pair', const('min_periods'), mp))
            if ce is not FALSE:
                extra.append(mk('pair', const('center'), ce))
            r = mk('rolling', t, d, I2.scalar(w), how, *extra)
            return lib.wrap(I2, r, v)
        return f
    o.attrs = {h: Native('rolling.' + h, call(h)) for h in ('mean', 'sum', 'min', 'max', 'std', 'median')}
    return I.new(o)


def sortby(I, v, args, kw, dims, coord, sel, by_time):
    """Ordering by the labels of dimensions."""
    by = I.resolve(args[0] if args else kw['variables'])
    asc = I.scalar(args[1] if len(args) > 1 else kw.get('ascending', TRUE))
    names = [I.term(x) for x in I.iterate(by)] if isinstance(by, (Ref, Tup)) else [I.term(by)]
    if asc is not TRUE or not all(is_str(n) and n.args[0] in dims for n in names):
        return None
    for n in names:
        d = n.args[0]
        c = coord(d)
        if c is None or not is_arr(c):
            return None
        if d == 'time':
            if c.op not in ('sym', 'tsel', 'date_range', 'rawdays'):
                r = by_time(c)
                if r is None or len(names) > 1:
                    return r
                return r
            continue
        if len(names) > 1:
            return None
        v = sel([(d, I.arr(mk('sorted', c)))])
    return v


def groupby(I, v, args, kw):
    """Groups of a series by a frequency: disjoint, ordered pieces covering it."""
    o = I.get(v)
    g = args[0] if args else kw.get('by')
    gt = I.term(g)
    t = I.tof(v)
    it = I.tof(o.index) if o.index is not None else t
    n = mk('ngroups', it, gt)
    i = mk('i', ops.fresh())
    ops.UPPER[i] = n
    x = Arr(mk('group', t, gt, i))
    x.index = I.arr(mk('group', it, gt, i), k='idx')
    r = I.list_((), 'groupby')
    I.mut(r).segs = [('gen', n, i, TRUE, Tup([mk('groupkey', it, gt, i), I.new(x, 'ser')]))]
    return r


def frame_method(I, v, name, args, kw, node):
    o = I.get(v)
    A = lambda i, n, d=NONE: args[i] if len(args) > i else kw.get(n, d)
    if name == 'fillna':
        return map_frame(I, v, lambda t: fill(I, t, args, kw))
    if name in ('ffill', 'pad'):
        return map_frame(I, v, lambda t: ops.ffill(t, 'ffill'))
    if name in ('bfill', 'backfill'):
        return map_frame(I, v, lambda t: ops.ffill(t, 'bfill'))
    if name == 'copy':
        return I.copy_obj(v)
    if name == 'get':
        k = name_of(I, args[0])
        p = frame_has(I, v, k)
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return I.choose(p, lambda: get_col(I, v, k), lambda: d)
    if name == 'assign':
        r = I.copy_obj(v)
        for k, x in kw.items():
            x = I.resolve(x)
            if isinstance(x, (Func, Bound, Native)):
                x = I.call(x, [r], {})
            setitem(I, r, const(k), x)
        return r
    if name == 'head':
        n = I.scalar(A(0, 'n', num(5)))
        return frame_head(I, v, n)
    if name == 'tail':
        n = I.scalar(A(0, 'n', num(5)))
        return frame_head(I, v, n, 'tail')
    if name == 'set_index':
        r = I.copy_obj(v)
        x = I.resolve(args[0])
        if isinstance(x, T):
            x = get_col(I, v, name_of(I, x))
        set_attr(I, r, 'index', x)
        return r
    if name in ('keys',):
        return I.list_([const(k) for k in o.cols], 'columns')
    if name in ('items', 'iteritems'):
        return I.list_([Tup([const(k), get_col(I, v, k)]) for k in o.cols], 'items')
    if name == 'drop':
        names = A(1, 'columns', NONE)
        if 'columns' not in kw:
            names = args[0]
        names = I.resolve(names)
        ks = [name_of(I, x) for x in (lib.seq_items(I, names) if not isinstance(names, T) else [names])]
        r = I.copy_obj(v)
        m = I.mut(r)
        for k in ks:
            m.cols.pop(k, None)
        if I.term(kw.get('inplace', FALSE)) is TRUE:
            I.mut(v).cols = dict(m.cols)
            return NONE
        return r
    if name == 'pop':
        k = name_of(I, args[0])
        r = get_col(I, v, k)
        I.mut(v).cols.pop(k)
        return r
    if name == 'rename':
        c = I.resolve(kw.get('columns', args[0] if args else NONE))
        r = I.copy_obj(v)
        mp = {name_of(I, e[2]): name_of(I, e[3]) for e in lib.dict_entries(I, c)}
        m = I.mut(r)
        m.cols = {mp.get(k, k): x for k, x in m.cols.items()}
        return r
    if name == 'reset_index':
        return None
    if name in ('sort_index', 'infer_objects', 'convert_dtypes'):
        return v
    if name in ('reindex',):
        how = I.term(kw.get('method', NONE))
        ix = tv(I, A(0, 'index'))
        if how is not NONE or not is_arr(ix):
            raise I.Unmodelled('reindex', I.where())
        base = I.tof(I.get(v).index)
        if equal(ix, base):
            return I.copy_obj(v)
        r = new_frame(I, I.arr(ix, k='idx'))
        for k, x in I.get(v).cols.items():
            I.mut(r).cols[k] = map_phi(I, I.resolve(x), lambda x: I.arr(mk('reindex', I.tof(x), base, ix)))
        return r
    if name == 'clip':
        return map_frame(I, v, lambda t: min_(max_(t, num_arg(I, A(0, 'lower'))), num_arg(I, A(1, 'upper'))))
    if name == 'insert':
        setitem(I, v, args[1], args[2])
        return NONE
    if name == 'eval' or name == 'apply':
        return None
    if name == 'truncate':
        b, e = A(0, 'before'), A(1, 'after')
        return frame_slice(I, v, Slc(I.scalar(b), I.scalar(e)))
    if name == 'update':
        x = I.resolve(args[0])
        if I.is_obj(x, DictO):
            x = f_dataframe(I, [x], {'index': o.index}, node)
        for k in frame_names(I, x):
            if k in I.get(v).cols:
                setitem(I, v, const(k), get_col(I, x, k))
        return NONE
    if name == 'pipe':
        return I.call(args[0], [v] + list(args[1:]), kw)
    if name == 'shift' and 'freq' in kw:
        r = I.copy_obj(v)
        p = num_arg(I, A(0, 'periods', ONE))
        m = freq_minutes(I.term(kw['freq']))
        set_attr(I, r, 'index', I.arr(add(I.tof(o.index), mul(p, m, MIN)), k='idx'))
        return r
    if name == 'join':
        r = I.copy_obj(v)
        x = I.resolve(args[0])
        for k in frame_names(I, x):
            setitem(I, r, const(k), get_col(I, x, k))
        return r
    return None


def frame_head(I, v, n, op='head'):
    o = I.get(v)
    it = I.tof(o.index)
    r = new_frame(I, I.arr(mk(op, it, n), k='idx'))
    for k, c in o.cols.items():
        I.mut(r).cols[k] = I.arr(mk(op, I.tof(I.resolve(c)), n))
    return r


ops.ARR.add('head')
ops.ARR.add('tail')


def ds_sel(I, v, pairs):
    r = ds_copy(I, v)
    o = I.get(v)
    m = I.mut(r)
    dims = m.dims
    for d, x in pairs:
        if d not in dims:
            I.raise_('KeyError' if d not in dims else 'ValueError', const(d))
    for k, c in list(o.vars.items()):
        def one(c):
            if c is UNDEF:
                return c
            if isinstance(c, Phi):
                return Phi(c.c, one(c.a), one(c.b))
            ps = [(d, x) for d, x in pairs if d in da_dims(I, c)]
            if not ps:
                return c
            t, cs, ds = do_sel(I, c, ps)
            n = new_da(I, t, cs, k, ds, I.get(c).attrs)
            I.get(n).encoding = I.get(c).encoding
            return n
        I.get(r).vars[k] = one(c)
    for k, c in list(o.coords.items()):
        ps = [(d, x) for d, x in pairs if d in da_dims(I, c)]
        if ps:
            t, cs, ds = do_sel(I, c, ps)
            n = new_da(I, t, {k: t} if is_arr(t) else {}, k, ds)
            I.get(n).encoding = I.get(c).encoding
            I.get(r).coords[k] = n
    for d, x in pairs:
        x = I.resolve(x)
        if d not in o.coords and d != 'time' and not isinstance(x, Slc) and is_arr(tv(I, x)):
            # selection by position; the labels of the selection become the coordinate
            I.get(r).coords[d] = new_da(I, tv(I, x), {d: tv(I, x)}, d, (d,))
    m = I.get(r)
    m.dims = tuple(d for d in o.dims if d not in m.coords or is_arr(I.tof(m.coords[d])))
    return r


def ds_isel(I, v, pairs):
    r = ds_copy(I, v)
    o = I.get(v)
    for d, x in pairs:
        if d not in o.dims:
            I.raise_('ValueError', const(d))
    for k, c in list(o.vars.items()):
        def one(c):
            if c is UNDEF:
                return c
            if isinstance(c, Phi):
                return Phi(c.c, one(c.a), one(c.b))
            ps = [(d, x) for d, x in pairs if d in da_dims(I, c)]
            return isel_view(I, c, ps) if ps else c
        I.get(r).vars[k] = one(c)
    for k, c in list(o.coords.items()):
        ps = [(d, x) for d, x in pairs if d in da_dims(I, c)]
        if ps:
            t, cs, ds = do_isel(I, c, ps)
            n = new_da(I, t, {k: t} if is_arr(t) else {}, k, ds)
            I.get(n).encoding = I.get(c).encoding
            I.get(r).coords[k] = n
    m = I.get(r)
    gone = {d for d, x in pairs if not isinstance(I.resolve(x), Slc) and not is_arr(tv(I, x))}
    m.dims = tuple(d for d in o.dims if d not in gone and (d not in m.coords or is_arr(I.tof(m.coords[d]))))
    return r


def ds_method(I, v, name, args, kw, node):
    o = I.get(v)
    if name == 'isel':
        return ds_isel(I, v, sel_pairs(I, args, kw))
    if name == 'sel':
        return ds_sel(I, v, inexact(I, v, sel_pairs(I, args, kw), kw))
    if name in ('load', 'compute', 'persist', 'chunk', 'unify_chunks', '__enter__'):
        return v
    if name in ('close', '__exit__'):
        return NONE
    if name == 'copy':
        deep = I.term(kw.get('deep', args[0] if args else FALSE))
        return ds_copy(I, v) if deep is not TRUE else I.copy_obj(v)
    if name in ('rename', 'rename_vars'):
        mp = {}
        for k, x in sel_pairs(I, args, kw):
            mp[k] = name_of(I, x)
        r = ds_copy(I, v)
        m = I.mut(r)
        for k in mp:
            if k not in o.vars and k not in o.coords and k not in o.dims:
                I.raise_('ValueError', const('rename of %s' % k))
            if mp[k] not in mp and (mp[k] in o.vars or mp[k] in o.coords) or list(mp.values()).count(mp[k]) > 1:
                I.raise_('ValueError', const('the new name %s conflicts' % mp[k]))
        I.event('rename', mapping=dict(mp))
        m.vars, m.coords = {}, {}
        for k, c in o.vars.items():
            m.vars[mp.get(k, k)] = map_phi(I, c, lambda x: rename_da(I, x, mp))
        for k, c in o.coords.items():
            m.coords[mp.get(k, k)] = rename_da(I, c, mp)
        m.dims = tuple(mp.get(d, d) for d in o.dims)
        return r
    if name in ('drop_vars', 'drop'):
        names = I.resolve(args[0])
        ks = [name_of(I, x) for x in (lib.seq_items(I, names) if not isinstance(names, T) else [names])]
        r = ds_copy(I, v)
        m = I.mut(r)
        for k in ks:
            m.vars.pop(k, None)
            m.coords.pop(k, None)
        return r
    if name == 'to_dataframe' or name == 'to_pandas':
        return to_dataframe(I, v)
    if name in ('assign', 'assign_coords'):
        r = ds_copy(I, v)
        for k, x in sel_pairs(I, args, kw):
            x = I.resolve(x)
            if isinstance(x, (Func, Bound, Native)):
                x = I.call(x, [r], {})
            ds_setitem(I, r, const(k), x)
        return r
    if name in ('update', 'merge'):
        r = v if name == 'update' else ds_copy(I, v)
        x = I.resolve(args[0])
        if I.is_obj(x, Dset):
            for k in ds_names(I, x):
                ds_setitem(I, r, const(k), get_var(I, x, k))
        else:
            for e in lib.dict_entries(I, x):
                ds_setitem(I, r, e[2], e[3])
        return r
    if name == 'keys':
        return I.list_([const(k) for k in o.vars], 'keys')
    if name == 'values':
        return I.list_([get_var(I, v, k) for k in o.vars], 'values')
    if name == 'items':
        return I.list_([Tup([const(k), get_var(I, v, k)]) for k in o.vars], 'items')
    if name == 'get':
        k = name_of(I, args[0])
        d = args[1] if len(args) > 1 else NONE
        return I.choose(ds_has(I, v, args[0]), lambda: get_var(I, v, k), lambda: d)
    if name == 'sortby':
        return sortby(I, v, args, kw, tuple(o.dims), lambda d: I.tof(o.coords[d]) if d in o.coords else None,
                      lambda ps: ds_sel(I, v, ps), lambda ct: None)
    if name == 'transpose' and args:
        names = [I.term(a) for a in args]
        if not all(is_str(n) or n.op == 'ellipsis' for n in names):
            return None
        r = ds_copy(I, v)
        for k in ds_names(I, v):
            x = get_var(I, v, k)
            if len(da_dims(I, x)) > 1:
                mine = [n for n in names if n.op == 'ellipsis' or n.args[0] in da_dims(I, x)]
                I.mut(r).vars[k] = arr_method(I, x, 'transpose', mine, {}, node)
        return r
    if name in ('transpose', 'squeeze', 'reset_coords', 'set_coords'):
        return v
    if name == 'to_netcdf':
        I.event('to_netcdf', path=I.term(args[0]) if args else NONE)
        return NONE
    if name in ('fillna', 'where', 'astype'):
        r = ds_copy(I, v)
        for k in ds_names(I, v):
            I.mut(r).vars[k] = arr_method(I, get_var(I, v, k), name, args, kw, node)
        return r
    if name == 'reindex_like' or name == 'reindex':
        return None
    return None


def rename_da(I, x, mp):
    o = I.get(x)
    n = o.copy()
    n.name = mp.get(o.name, o.name)
    if o.coords:
        n.coords = {mp.get(d, d): c for d, c in o.coords.items()}
    if o.base is not None:
        n.t, n.base = I.tof(x), None
    n.ds = None
    if any(d in mp for d in da_dims(I, x)):
        n.t = rename_dims(n.t, mp)
        n.dims = tuple(mp.get(d, d) for d in da_dims(I, x)) if o.dims else n.dims
    return I.new(n, 'da')


def rename_dims(t, mp):
    if t.op == 'var':
        ds = ops.dims_of(t)
        if all(mp.get(d, d) == d for d in ds):
            return t
        v = mk('var', t.args[0], t.args[1], *([mk('renamed', *[const(mp.get(d, d)) for d in ds])]))
        ops.VARDIMS[v] = tuple(mp.get(d, d) for d in ds)
        return v
    return t


def to_dataframe(I, v):
    o = I.get(v)
    if tuple(o.dims) != ('time',):
        I.event('frame_dims', dims=tuple(o.dims))
        if set(o.dims) - {'time'}:
            raise I.Unmodelled('data frame over %s' % (o.dims,), I.where())
    idx = I.tof(o.coords['time'])
    fr = new_frame(I, I.arr(idx, k='idx'))
    n = length(idx)
    for k in list(o.vars) + [c for c in o.coords if c != 'time']:
        c = o.vars.get(k, o.coords.get(k))

        def one(x):
            t = defill(I.tof(x))
            r = Arr(t if is_arr(t) else ops.full(n, t))
            return I.new(r, 'nd')
        c = map_phi(I, I.resolve(c), one)
        I.mut(fr).cols[k] = c
    return fr


def defill(t):
    """Cell of a constant labelled array."""
    b = t
    while b.op in ('isel', 'csel'):
        b = b.args[0]
    if b.op == 'var' and b.args[0].op == 'filled':
        d = ops.dims_of(t)
        if d == ():
            return b.args[0].args[0]
        if d == ('time',):
            return ops.full(length(t), b.args[0].args[0])
    return t
