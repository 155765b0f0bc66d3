"""Environment of a whole-program analysis: the files a configuration names and their
schemas, the configuration itself, the command line."""
from . import terms as tm
from .terms import *
from . import ops
from .ops import arr_sym
from .values import *
from . import lib
from .libio import plain
from .interp import Interp, Dead, Unmodelled, FnRec

FORCING = sym('cfg_forcing', 'path')
DOMAIN = sym('cfg_domain', 'path')
STATE = sym('cfg_state', 'path')
CONFIG = sym('cli_config', 'path')
CALENDAR = sym('file_calendar', 'text')     # taken to be 'standard', see C40


class Schema(object):
    """Variables of a file: name -> dimensions; time axis or None."""

    def __init__(self, path, variables, dims, time=None):
        self.path, self.vars, self.dims, self.time = path, variables, dims, time


def axis(name):
    n = sym('n_' + name, 'int')
    ops.LO[n] = 1
    t = arr_sym(name, n)
    return t


class Harness(object):
    def __init__(self):
        self.schemas = []
        self.assumed = []       # list of (predicate on I, c) -> bool or None
        self.sections = {}
        self.yaml_builder = None
        self.first = None
        self.opened = []
        self.cli = {}
        self.no_coord = ()      # dimensions without coordinate variable in any file
        self.missing = set()    # paths of nothing
        self.folders = {}       # directory -> 'missing' (as its parent) or 'present'
        self.listing = {}       # directory -> names of the files in it
        self.periods = {}

    # ------------------------------------------------------------ deciding
    def decide(self, I, c):
        if c.op == 'isinstance' and c.args[1] == 'CFTimeIndex':
            return False
        if c.op == 'isinstance' and isinstance(c.args[-1], T) and c.args[-1].op == 'str' and \
                c.args[-1].args[0] == 'CFTimeIndex':
            return False
        if c.op == 'truth' and c.args[0].op in ('isfile', 'exists', 'isdir'):
            s = self.folders.get(plain(c.args[0].args[0]))
            if s:
                return s == 'present' and c.args[0].op != 'isfile'
            if c.args[0].args[0] in self.missing:
                return False
            return c.args[0].op != 'isdir' or c.args[0].args[0] in self.listing
        if c.op == 'contains' and c.args[0].op == 'sym' and c.args[0].args[1] == 'path':
            if is_str(c.args[1]) and c.args[1].args[0] in ('*', '?', '['):
                return False
        if c.op == 'eq' and any(a.op == 'list' for a in c.args) and any(
                a.op in ('sym', 'str', 'abspath', 'joinpath', 'num', 'true', 'false', 'date', 'none') for a in c.args):
            return False
        if c.op == 'eq' and CALENDAR in c.args:
            return const('standard') in c.args
        for f in self.assumed:
            r = f(I, c)
            if r is not None:
                return r
        return None

    def may_raise(self, I, body, events, types):
        return None

    def argv(self, I):
        return I.new(Opaque('argv', sym('argv', 'obj')))

    # --------------------------------------------------------------- files
    def schema(self, path):
        for s in self.schemas:
            if equal(s.path, path):
                return s
        return None

    def open_dataset(self, I, p):
        path = I.term(I.resolve(p))
        s = self.schema(path)
        if s is None and (path is const('') or path.op == 'list' and not path.args):
            I.raise_('OSError', const('no such file'))
        if s is None:
            raise Unmodelled('opening of %s' % show(path, 3), I.where())
        I.event('open_dataset', path=path)
        d = self.dataset(I, s)
        return d

    def dataset(self, I, s, raw=True):
        from . import libpd
        base = mk('file', s.path)
        if s.time is not None:
            ops.TIME_AXES.add(s.time)
            ops.TIME_OF[base] = s.time
        o = Dset(base)
        r = I.new(o)
        m = I.get(r)
        m.dims = s.dims
        coords = {}
        for d in s.dims:
            if d == 'time':
                t = mk('rawdays', s.time) if raw else s.time
            else:
                t = self.coordvar(base, d)
                if t is None:
                    continue
            coords[d] = t
            m.coords[d] = libpd.new_da(I, t, {d: t}, d, (d,))
            I.get(m.coords[d]).encoding = I.new(Opaque('encoding', mk('encoding', base, const(d)), {
                'method': encoding_get}))
        for k, ds in s.vars.items():
            v = mk('var', base, const(k))
            ops.VARDIMS[v] = ds
            x = libpd.new_da(I, v, {d: coords[d] for d in ds if d in coords}, k, ds)
            m.vars[k] = x
        return r

    def coordvar(self, base, d):
        if d in self.no_coord:
            return None
        c = mk('var', base, const(d))
        ops.VARDIMS[c] = (d,)
        ops.COORDS.add(c)
        return c

    def read_csv(self, I, a, kw):
        from . import libpd
        path = I.term(I.resolve(a[0] if a else kw['filepath_or_buffer']))
        I.event('read_csv', path=path, kw={k: I.term(v) for k, v in kw.items()})
        names = kw.get('names', NONE)
        names = lib.seq_items(I, I.resolve(names)) if I.resolve(names) is not NONE else None
        if names is None:
            raise Unmodelled('read_csv without names', I.where())
        n = mk('len', mk('rows', path))
        ops.LO[n] = 0
        fr = libpd.new_frame(I, I.arr(mk('drange', ZERO, ONE, n), k='idx'))
        use = kw.get('usecols')
        for j, nm in enumerate(names):
            c = mk('column', path, num(j))
            ops.SHAPES[c] = n
            I.mut(fr).cols[libpd.name_of(I, nm)] = I.arr(c)
        return fr

    def same_period(self, I, coord, a, b):
        """Does label selection a..b leave the axis coord as it is?  True when coord is the
        restriction of a file's days to exactly these labels."""
        if coord.op != 'tsel':
            return False
        a0, b0 = coord.args[2], coord.args[3]
        return self.same_label(I, coord, a, a0, 0) and self.same_label(I, coord, b, b0, -1)

    def same_label(self, I, coord, x, x0, end):
        if x is x0 or equal(x, x0):
            return True
        # the first/last day of the axis itself
        first = ops.getitem(coord, ZERO if end == 0 else sub(ops.length(coord), ONE))
        if x is first or equal(x, first):
            return True
        if x.op == 'ite':
            return self.same_label(I, coord, x.args[1], x0, end) and self.same_label(I, coord, x.args[2], x0, end)
        return False

    # ------------------------------------------------------- configuration
    def lines(self, I, path):
        if self.first is not None and equal(path, CONFIG):
            return [const(x) for x in self.first]
        return None

    def ini(self, I, path):
        return list(self.sections.items())

    def yaml(self, I, path):
        return self.yaml_builder(I)


def encoding_get(I, obj, name, args, kw):
    if name == 'get':
        k = I.term(args[0])
        if is_str(k) and k.args[0] == 'calendar':
            return CALENDAR
        return args[1] if len(args) > 1 else NONE
    return None


DAILY = ('time', 'lat', 'lon')
FORC = {'prec': 'F_prec', 't_min': 'F_tmin', 't_max': 'F_tmax'}
DOM = {'lat': 'lat', 'lon': 'lon', 'mask': 'D_mask', 'elev': 'D_elev'}
STA = {'prec': 'S_prec', 't_min': 'S_tmin', 't_max': 'S_tmax'}


class Config(object):
    """A configuration of the program as given by a dictionary."""

    def __init__(self, ts='sub', method='mtclim', fmt='netcdf', forcing_extra=(), out_vars=None, chunks=None,
                 prec_type='uniform', utc=None, period_ending=None, units=None, start='date', mask_dims=('lat', 'lon'),
                 forc_dims=('lat', 'lon'), names=None, files=None, decl=None, **extra):
        self.ts_kind, self.method, self.fmt = ts, method, fmt
        self.extra = extra
        self.forc = dict(FORC)
        for v in forcing_extra:
            self.forc[v] = 'F_' + v
        # files of the cells (formats ascii and binary), and the declaration of their variables
        self.files, self.decl = files, decl
        # names of the data variables
        self.names = names or {}
        self.forc.update(self.names.get('forcing', {}))
        self.sta = dict(STA, **self.names.get('state', {}))
        self.out_vars = out_vars
        self.chunks = chunks
        self.prec_type = prec_type
        self.utc, self.pe = utc, period_ending
        self.units = units or {}
        self.start = start
        self.mask_dims, self.forc_dims = tuple(mask_dims), tuple(forc_dims)

    def dom(self):
        """Names of the domain variables."""
        dom = dict(DOM)
        if self.prec_type.lower() in ('triangle', 'mix'):
            dom['dur'], dom['t_pk'] = 'D_dur', 'D_tpk'
        if self.mask_dims == ('hru',):
            # coordinates of the units as variables
            dom['lat'], dom['lon'] = 'D_lat', 'D_lon'
        return dict(dom, **self.names.get('domain', {}))

    def values(self, I, h):
        """Builds the harness's files and returns the parameter dictionary (Ref)."""
        dft = axis('days_forcing')
        dst = axis('days_state')
        if self.ts_kind == 'daily':
            ts = const('1440') if self.extra.get('text') else num(1440)
        else:
            ts = self.ts()
        dom = self.dom()
        md, daily = self.mask_dims, ('time',) + self.forc_dims
        dv = {dom['mask']: md, dom['elev']: md, 'D_unused': md}
        if 'dur' in dom:
            dv[dom['dur']] = dv[dom['t_pk']] = ('month',) + md
        if md == ('hru',):
            # coordinates of the units as variables
            dv[dom['lat']] = dv[dom['lon']] = md
        ddims = md + (('month',) if 'dur' in dom else ())
        h.schemas = [
            Schema(FORCING, dict({v: daily for v in self.forc.values()}, **{v: daily for v in self.names.get('more', ('F_unused',))}), daily, dft),
            Schema(DOMAIN, dv, ddims),
            Schema(STATE, dict({v: daily for v in self.sta.values()}, S_unused=daily), daily, dst)]
        self.dft, self.dst = dft, dst
        if self.files:
            # one file per cell; declared variables in their order in the files
            h.listing = {FORCING: [const(f) for f in self.files]}
            p_forcing = I.list_([mk('joinpath', FORCING, const(f)) for f in self.files])
        else:
            h.listing = {}
        inv = lambda d: I.dict_({const(f): const(m) for m, f in d.items()})
        ovs = self.out_vars
        if ovs is None:
            ovs = DAILY_OUT if self.ts_kind == 'daily' else SUB_OUT
        p = {
            'forcing': FORCING, 'domain': DOMAIN, 'state': STATE,
            'forcing_fmt': const(self.fmt), 'method': const(self.method),
            'forcing_vars': inv(self.forc), 'domain_vars': inv(dom), 'state_vars': inv(self.sta),
            'time_step': ts, 'out_dir': sym('cfg_out_dir', 'path'), 'out_prefix': sym('cfg_prefix', 'text'),
            'prec_type': const(self.prec_type),
            'chunks': I.dict_({const(k): v for k, v in (self.chunks or {}).items()}),
            'scheduler': const('synchronous'), 'num_workers': sym('cfg_num_workers', 'int'),
            'verbose': num(20), 'calendar': const('standard'),
            'utc_offset': self.utc if self.utc is not None else sym('cfg_utc', 'bool'),
            'period_ending': self.pe if self.pe is not None else sym('cfg_pe', 'bool'),
            'out_vars': I.dict_({const(v): I.dict_(dict(
                [(const('out_name'), const('N_' + v))] +
                ([(const('units'), const(self.units[v]))] if v in self.units else []))) for v in ovs}),
        }
        if self.start == 'date':
            p['start'], p['stop'] = sym('cfg_start', 'date'), sym('cfg_stop', 'date')
        elif self.start == 'text':
            p['start'], p['stop'] = sym('cfg_start', 'datetext'), sym('cfg_stop', 'datetext')
        else:
            p['start'], p['stop'] = const('forcing'), const('forcing')
        if self.files:
            p['forcing'] = p_forcing
            p['forcing_vars'] = I.dict_({const(k): const(v) for k, v in self.decl})
        if self.fmt == 'data':
            p['forcing'] = h.dataset(I, h.schemas[0], raw=False)
        for k, v in self.extra.items():
            if k != 'text':
                p[k] = const(v) if not isinstance(v, (T, Val)) else v
        p = {k: v for k, v in p.items() if v is not None}
        return I.dict_({const(k): v for k, v in p.items()})

    def ts(self):
        t = sym('cfg_ts', 'int')
        ops.LO[t], ops.HI[t] = 1, 360
        tm.DIVIDES[t] = 1440
        return t


SECTIONS = ('forcing_vars', 'domain_vars', 'state_vars', 'chunks', 'constant_vars', 'out_vars')
CLI = {'scheduler': const('synchronous'), 'num_workers': sym('cli_num_workers', 'int'),
       'verbose': sym('cli_verbose', 'bool'), 'config': CONFIG}
NUMERIC = {'lapse_rate', 'tday_coef', 'rain_scalar', 'sw_prec_thresh', 'tmax_daylength_fraction', 'tdew_tol'}


class FileConfig(Config):
    """The same configuration given as a file of the form 'ini' or 'yaml' on the command line.
    texts: name -> term replaces the value of a setting in the file."""

    def __init__(self, form, cli=None, texts=None, out_style='section', drop=(), first=None, **k):
        Config.__init__(self, **k)
        self.form = form
        self.cli = dict(CLI, **(cli or {}))
        self.texts = texts or {}
        self.out_style = out_style
        self.drop = drop
        self.first = first
        self.fv = k.get('fv')

    def mappings(self):
        """Sections that map model names to names in the data."""
        dom = self.dom()
        return {'forcing_vars': {m: const(f) for m, f in (self.decl or self.forc.items())},
                'domain_vars': {m: const(f) for m, f in dom.items()},
                'state_vars': {m: const(f) for m, f in self.sta.items()}}

    def install(self, I, h, p):
        h.cli = self.cli
        h.first = [self.first or ('[MetSim]' if self.form == 'ini' else 'MetSim:')]
        d = {k.args[0]: v for k, v in I.get(p).items.items()}
        secs = self.mappings()
        secs['chunks'] = {k: self.text(k, v) for k, v in (self.chunks or {}).items()}
        names = list(self.out_vars or (DAILY_OUT if self.ts_kind == 'daily' else SUB_OUT))
        main = {}
        for k, v in d.items():
            if k in SECTIONS or k in ('scheduler', 'num_workers', 'verbose') or k in self.drop:
                continue
            main[k] = FORCING if k == 'forcing' and self.files else self.text(k, v)
        main.update(self.texts)
        if 'constant_vars' in d:
            c = I.get(I.resolve(d['constant_vars'])).items
            secs['constant_vars'] = {k.args[0]: self.text(k.args[0], v) for k, v in c.items()}
        if self.form == 'ini':
            if self.out_style == 'list':
                main['out_vars'] = const(str(names))
            else:
                secs['out_vars'] = {v: const('N_' + v) for v in names}
            h.sections = {s: [(k, v) for k, v in kv.items()] for s, kv in dict(secs, MetSim=main).items()}
        else:
            def build(I):
                dd = lambda kv: I.dict_({const(k): v for k, v in kv.items()})
                all_ = {s: dd(kv) for s, kv in secs.items()}
                all_['MetSim'] = dd(main)
                all_['out_vars'] = dd({v: dd(dict([('out_name', const('N_' + v))] + (
                    [('units', const(self.units[v]))] if v in self.units else []))) for v in names})
                return dd(all_)
            h.yaml_builder = build

    def text(self, k, v):
        """A value as it stands in the file."""
        if self.form == 'yaml' or not isinstance(v, T):
            return v
        if v.op == 'sym' and v.args[1] == 'num':
            return sym(v.args[0], 'numtext')
        if v.op == 'sym' and v.args[1] == 'int':
            return sym(v.args[0], 'inttext')
        if v in (TRUE, FALSE):
            return const('True' if v is TRUE else 'False')
        if is_num(v):
            x = float(v.args[0])
            return const(str(int(x)) if x == int(x) else repr(x))
        return v


DAILY_OUT = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave', 'tskc', 'pet', 'daylength']
SUB_OUT = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure', 'rel_humid', 'spec_humid', 'longwave', 'tskc']


def run(cfg, repo='/repo', h=None, started=None, before=()):
    """Analyses a run of the program; before: configurations run earlier in the process."""
    h = h or Harness()
    I = Interp(repo, harness=h)
    if started:
        started(I)
    cls = I.mod_attr('metsim.metsim', 'MetSim')
    for b in before:
        once(I, cls, b, h)
        del I.events[:]
    I.ms = once(I, cls, cfg, h)
    return I


def once(I, cls, cfg, h):
    I.cfg = p = cfg.values(I, h)
    if getattr(cfg, 'form', None):
        cfg.install(I, h, p)
        return I.call(I.mod_attr('metsim.cli.ms', 'main'), [], {})
    ms = I.call(cls, [p], {})
    I.call(I.getattr(ms, 'run'), [], {})
    return ms
