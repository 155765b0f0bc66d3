"""A failing chunk makes the run fail."""
import ast
import os
import random
from ..world import *
from ..harness import FileConfig
from ..terms import subterms
from .c24 import FILES, CELLS, DECLS, contents
LEVEL = 'other'
HAND = 'no handler discards an error of reading, computing or writing'
WAIT = 'the run waits for every chunk and takes its result before it returns'
SHORT = 'a forcing file of a cell that cannot be decoded is an error of the run'
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
LATS, LONS = (48.25, -33.75), (-121.3125, 251.1875)
IO = {'open', 'open_dataset', 'read_csv', 'nc_open', 'nc_write', 'nc_dim', 'nc_var', 'nc_attr', 'decode', 'task_run', 'task_wait',
      'dask_eval', 'makedirs', 'file_write', 'read_config', 'column', 'date2num'}
HARMLESS = {'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'}
BROAD = {'*', 'Exception', 'BaseException'}
QUIETLY = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log', 'print', 'str', 'repr', 'format', 'write',
           'print_exc', 'format_exc'}


def computing(mod):
    return mod.startswith('metsim.methods') or mod in ('metsim.physics', 'metsim.disaggregate', 'metsim.units', 'metsim.datetime')


def kept(h):
    """Is the caught exception kept for later?"""
    if h is None or not h.name:
        return False
    inside = set()
    for s in h.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and (getattr(n.func, 'attr', None) or getattr(n.func, 'id', None)) in QUIETLY:
                inside |= {id(m) for m in ast.walk(n)}
    return any(isinstance(n, ast.Name) and n.id == h.name and id(n) not in inside for s in h.body for n in ast.walk(s))


def trivial(body):
    """Look-ups and conversions of single values only."""
    calls = [n for s in body for n in ast.walk(s) if isinstance(n, ast.Call)]
    return len(body) <= 2 and all(isinstance(n.func, ast.Name) and n.func.id in ('float', 'int', 'str', 'bool', 'len', 'getattr')
                                  or isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'lower', 'upper', 'strip', 'split', 'index')
                                  for n in calls)


def verdict(e, mod):
    """-> (status, why)"""
    h, types = e['handler'], set(e['types'])
    if types <= HARMLESS:
        return 'holds', ''
    guarded = sorted({b['kind'] for b in e['body'] if b['kind'] in IO})
    work = sorted({f for m, f in e['called'] if computing(m)})
    what = ''
    if guarded:
        what = 'reading or writing (%s)' % ', '.join(guarded)
    elif work:
        what = 'the computation (%s)' % ', '.join(work[:4])
    elif computing(mod) and types & BROAD and not trivial(e['code'].body):
        what = 'a part of the computation'
    if not what:
        return 'holds', ''
    done = [x for x in e['again'] if x['kind'] == 'exit']
    if any(x['status'] in (ZERO, NONE, FALSE) for x in done):
        return 'violated', 'an error of %s ends the program with a success status' % what
    if e['ends']:
        return 'holds', ''
    if e['ends'] is None:
        return 'undecided', 'the handler could not be analysed'
    if kept(h):
        return 'undecided', 'the exception is kept'
    if e['looped'] and any(isinstance(n, ast.Raise) for s in h.body for n in ast.walk(s)):
        return 'undecided', 'tried again'
    if any(x['kind'] in IO for x in e['again']):
        return 'undecided', 'done in another way'
    return 'violated', 'an error (%s) of %s is discarded by %s' % ('/'.join(sorted(types)), what, e['fn'])


def scan(repo):
    """Handlers of the package by place: (file, line)."""
    r = {}
    for d, _, fs in os.walk(os.path.join(repo, 'metsim')):
        for f in fs:
            if not f.endswith('.py') or f == '_version.py' or '/tests' in d:
                continue
            path = os.path.join(d, f)
            src = ast.parse(open(path).read())
            top = set()

            def outer(body):
                for s in body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        continue
                    for n in ast.walk(s):
                        top.add(id(n))
            outer(src.body)
            for n in ast.walk(src):
                if isinstance(n, ast.Try) and id(n) not in top:
                    for h in n.handlers:
                        r[(os.path.relpath(path, repo), h.lineno)] = h
    return r


CONFIGS = [('daily', dict(ts='daily')), ('sub', dict(ts='sub', utc=TRUE)), ('sub ending', dict(ts='sub', period_ending=TRUE)),
           ('passthrough', dict(ts='sub', method='passthrough', forcing_extra=('shortwave', 'vapor_pressure'))),
           ('triangle', dict(ts='sub', prec_type='triangle')), ('mix', dict(ts='sub', prec_type='mix')),
           ('given data', dict(ts='sub', fmt='data')), ('chunks', dict(ts='sub', chunks=CK)),
           ('forcing period', dict(ts='sub', start='forcing')), ('text period', dict(ts='daily', start='text')),
           ('units', dict(ts='daily', mask_dims=('hru',), forc_dims=('hru',)))]
SCHED = ['synchronous', 'threads', 'processes', 'single-threaded', 'distributed', 'tcp://10.0.0.1:8786']


def progs():
    for label, k in CONFIGS:
        yield label, Config(**k)
    for fmt in ('ascii', 'binary'):
        d = DECLS['usual'] if fmt == 'binary' else [(v, v) for v, _ in DECLS['usual']]
        kk = dict(ts='daily', fmt=fmt, files=FILES, decl=d, forcing_extra=('wind',), utc=FALSE, period_ending=FALSE)
        yield fmt, Config(**kk)
        for form in ('ini', 'yaml'):
            yield '%s %s' % (fmt, form), FileConfig(form, **kk)
    for form in ('ini', 'yaml'):
        yield form, FileConfig(form, ts='sub', utc=FALSE, period_ending=FALSE)


def handlers():
    c = Checker('')
    seen = {}
    rank = ('violated', 'undecided', 'holds')
    for label, cfg in progs():
        p = Prog(cfg)
        c.saw(p)
        if p.err:
            c.add('run %s' % label, 'undecided', HAND, detail=str(p.err)[:200])
        for e in p.all('handler'):
            if e['fn'] == '<module>' and not e['called']:
                continue
            mod = e['at'].split(':')[0][:-3].replace('/', '.')
            k = e['at']
            v = verdict(e, mod)
            if k not in seen or rank.index(v[0]) < rank.index(seen[k][0]):
                seen[k] = v + (e, label)
    for k in sorted(seen):
        v, why, e, label = seen[k]
        c.add('handler of %s in %s at %s' % ('/'.join(e['types']), e['fn'], k), v, HAND, 'effects of the guarded block', k,
              why and '%s (%s)' % (why, label))
    from .. import check
    for (f, line), h in sorted(scan(p.I.repo).items()):
        if '%s:%s' % (f, line) not in seen:
            c.add('handler at %s:%s' % (f, line), 'undecided', HAND, detail='not reached by an analysed configuration')
    c.add('the runs analysed', 'holds', HAND, 'effects of the guarded block', '', '')
    return c


def waits(label, cfg):
    def f():
        c = Checker(label)
        p = Prog(cfg)
        c.saw(p)
        made = p.all('task')
        if not made:
            # chunks are run by the run itself
            inner = [e for e in p.all('nc_write') if e['var'].op == 'const']
            c.fact('chunks are run', bool(inner), WAIT, detail='no chunk is run')
            return c
        for t in made:
            w = [e for e in p.all('task_wait') if e['fn'] is t['fn']]
            ok = [e for e in w if [n for n, i in e['loops']] == [n for n, i in t['loops']] and set(e['pc']) <= set(t['pc'])]
            if ok:
                c.add('chunks of %s' % t['at'], 'holds', WAIT, 'structure', ok[0]['at'])
            elif not w:
                c.add('chunks of %s' % t['at'], 'violated', WAIT, 'structure', t['at'],
                      'no evaluation takes the results of the chunks: an error of a chunk is lost')
            else:
                x = w[0]
                same = [e for e in w if [n for n, i in e['loops']] == [n for n, i in t['loops']]]
                st = 'violated'
                why = 'the results are only taken if %s' % ', '.join(show(q, 4) for q in same[0]['pc'] if q not in t['pc']) if same else \
                    'the results of %s chunks are taken' % ', '.join(show(n, 4) for n, i in x['loops'])
                if not same and any(not (n.op == 'num') for n, i in x['loops']):
                    st = 'undecided'
                c.add('chunks of %s' % t['at'], st, WAIT, 'structure', x['at'], why)
        return c
    return f


def short(label, fmt, form, decl):
    """Files that end too early, in the middle of a day, or are empty."""
    def f():
        c = Checker(label)
        dd = DECLS[decl]
        d = dd if fmt == 'binary' else [(v, v) for v, _ in dd]
        kk = dict(ts='daily', fmt=fmt, files=FILES, decl=d, forcing_extra=tuple(v for v, _ in dd if v not in ('prec', 't_min', 't_max')),
                  utc=FALSE, period_ending=FALSE, out_vars=[v for v, _ in dd])
        p = Prog(FileConfig(form, **kk) if form else Config(**kk))
        if p.died:
            c.add('runs', 'undecided', SHORT, detail=str(p.err))
            return c
        n = 4
        for name, days, cut in (('a day missing', 3, 0), ('half of the days', 2, 0), ('empty', 0, 0), ('the last value missing', 4, 1)):
            if cut and fmt != 'binary':
                continue
            for who in sorted(CELLS)[:2]:
                r = random.Random(3)
                files = {}
                for x in FILES:
                    b, _ = contents(dd, n, 0, r, fmt)
                    if x == who:
                        b = contents(dd, days, 0, r, fmt)[0]
                        if cut:
                            b = b[:-2]
                    files[x] = b

                def edit(e):
                    e.files = {'txt_cfg_forcing/' + x: y for x, y in files.items()}
                    e.arrays[('file(cfg_domain)', 'D_mask')] = np.ones((2, 2))
                    e.memo = {}
                st, why, at = 'violated', '', wrote(p, 'prec')
                try:
                    e, a = world(p, 1, None, dict(cfg_chunk_lat=1.0, cfg_chunk_lon=2.0), edit, n_days=n, ts=1440, lats=LATS, lons=LONS)
                    y = assembled(a, 'N_prec')[1]
                    why = 'the file of cell %s ends early (%s): the run ends normally%s' % (
                        CELLS[who], name, ' and that cell has no value on day %d' % (int(np.argwhere(np.isnan(y[(slice(None),) + CELLS[who]]))[0, 0]) + 1)
                        if np.isnan(y[(slice(None),) + CELLS[who]]).any() else '')
                except Bad as x:
                    st = 'holds'
                except ValueError as x:
                    st = 'holds' if 'broadcast' in str(x) else 'undecided'
                    why = str(x)[:100] if st != 'holds' else ''
                except (Undecided, Unknown) as x:
                    st, why = 'undecided', str(x)[:150]
                c.add('%s: file of cell %s' % (name, CELLS[who]), st, SHORT, 'evaluation of the value graph', at, why)
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = [('handlers', handlers)]
    for s in SCHED:
        for fmt in ('netcdf', 'data'):
            for form in (None,) + (('ini', 'yaml') if fmt == 'netcdf' else ()):
                label = ' '.join(x for x in ('scheduler', s, fmt, form) if x)
                if form:
                    cfg = FileConfig(form, cli={'scheduler': const(s)}, ts='sub', utc=FALSE, period_ending=FALSE, chunks=CK)
                else:
                    cfg = Config(ts='sub', fmt=fmt, chunks=CK, scheduler=const(s))
                r.append((label, waits(label, cfg)))
    for fmt in ('ascii', 'binary'):
        for form in (None, 'ini', 'yaml'):
            label = ' '.join(x for x in (fmt, form) if x)
            r.append((label, short(label, fmt, form, 'usual')))
        r.append((fmt + ' five', short(fmt + ' five', fmt, None, 'five')))
    return r
