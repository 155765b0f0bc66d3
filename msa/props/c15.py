"""Writers to a shared output file hold one lock that all of them share."""
from ..world import *
from ..harness import FileConfig
from ..terms import subterms, subst
LEVEL = 'other'
RULE = 'a chunk opens, writes and closes an output file while it holds the one lock all chunks share for the file'
CK = {'lat': sym('cfg_chunk_lat', 'int'), 'lon': sym('cfg_chunk_lon', 'int')}
FILE = sym('the_file', 'str')


def task_of(e):
    return next((c[1] for c in e['ctx'] if c[0] == 'task'), None)


def held(e):
    """Locks held at an event, composite locks taken apart."""
    r = []

    def add(t):
        if t.op == 'locks':
            for a in t.args:
                add(a)
        elif t not in r:
            r.append(t)
    for c in e['ctx']:
        if c[0] == 'lock':
            add(c[1])
    return r


def indices(t):
    return {s for s in subterms(t) if s.op in ('i', 'bi')}


def serves(lock, f, loops):
    """Is a lock the same object for every chunk that works on the file?  -> (yes, why not)"""
    if lock.op == 'newlock':
        if lock.args[1] is TRUE:
            return False, 'the lock is created by the chunk itself'
        own = {i for n, i in loops}
        if any(i in own and i not in indices(f) for i in lock.args[2:]):
            return False, 'every chunk has a lock of its own'
        if len(lock.args) > 2 and not indices(f):
            return None, 'a lock made in a loop'
        return True, ''
    if lock.op == 'lock':
        extra = indices(lock) - indices(f)
        if any(i in {x for n, x in loops} for i in extra):
            return False, 'the lock depends on the chunk'
        if any(s.op == 'dimlen' or s.op == 'var' for s in subterms(subst(lock, {f: FILE}))):
            return None, 'a lock named by data'
        return True, ''
    if lock.op == 'ext':
        return False, 'the only lock is one of the process (%s)' % lock.args[0]
    return None, 'lock %s' % lock.op


def norm(lock, f):
    t = subst(lock, {f: FILE})
    return lock.op, tuple(t.args[:1])


def truncates(ev):
    return next(((e, 'a chunk opens the file with mode %r' % (e['mode'].args[0] if e['mode'].args else '?')) for e in ev
                 if e['kind'] == 'nc_open' and (not is_str(e['mode']) or e['mode'].args[0] not in ('r+', 'a', 'r'))), None)


def case(what, k, form=None):
    def f():
        c = Checker(what)
        kk = dict(forcing_extra=('wind',) + (('shortwave',) if k.get('method') == 'passthrough' else ()),
                  out_vars=['prec', 'wind'], **k)
        p = Prog(FileConfig(form, **kk) if form else Config(**kk))
        if p.err:
            bad = truncates([e for e in p.I.events if p.died and task_of(e) is not None])
            c.add('locks', 'violated' if bad else 'undecided', RULE, 'structure', bad[0]['at'] if bad else '',
                  bad[1] if bad else p.err)
            return c
        ev = [e for e in p.events if e['kind'] in ('nc_open', 'nc_write', 'nc_close', 'nc_var', 'nc_dim', 'nc_attr',
                                                   'acquire', 'release', 'task_run')]
        inside = [e for e in ev if task_of(e) is not None]
        nc = [e for e in inside if e['kind'].startswith('nc_')]
        first = min([e['seq'] for e in p.all('task_run')] or [10 ** 9])
        runs = bool(p.all('task_run'))
        bad, open_ = None, None
        # 1. files are made, and closed, before the chunks start
        for e in ev:
            if e['kind'] == 'nc_open' and e['mode'].args[0] != 'r' and task_of(e) is None and runs and e['seq'] > first:
                bad = bad or (e, 'the file is opened with mode %r while chunks run' % e['mode'].args[0])
        c.fact('created first', not bad, 'output files are created only before any chunk starts',
               at=bad[0]['at'] if bad else '', detail=bad[1] if bad else '')
        bad = None
        for e in ev:
            if e['kind'] == 'nc_open' and task_of(e) is None and e['seq'] < first and runs:
                if not any(x['kind'] == 'nc_close' and x['file'] is e['file'] and e['seq'] < x['seq'] < first for x in ev):
                    bad = bad or (e, 'the file is still open when the chunks start')
        c.fact('closed first', not bad, 'a created file is closed before any chunk starts',
               at=bad[0]['at'] if bad else '', detail=bad[1] if bad else '')
        # 2. no chunk makes a file anew or changes its structure
        bad = truncates(nc)
        c.fact('not truncated', not bad, 'a chunk never truncates a file', at=bad[0]['at'] if bad else '',
               detail=bad[1] if bad else '')
        # 3. locks
        bad, unsure, common = None, None, None
        for e in nc:
            ls = held(e)
            res = [(l,) + serves(l, e['file'], e['loops']) for l in ls]
            good = {norm(l, e['file']) for l, y, w in res if y}
            if not good:
                if any(y is None for l, y, w in res):
                    unsure = unsure or (e, next(w for l, y, w in res if y is None))
                else:
                    bad = bad or (e, res[0][2] if res else 'no lock is held')
                continue
            common = good if common is None else common & good
            if not common:
                bad = bad or (e, 'another lock than at the other accesses of the file')
        if bad:
            c.add('locked', 'violated', RULE, 'lock sets', bad[0]['at'], '%s: %s' % (bad[0]['kind'], bad[1]))
        elif unsure:
            c.add('locked', 'undecided', RULE, detail=unsure[1])
        else:
            c.add('locked', 'holds', RULE, 'lock sets (%d accesses)' % len(nc))
        # 4. typestate: acquire .. open .. write .. close .. release
        bad, state = None, {}
        for e in inside:
            t = task_of(e)
            if e['kind'] == 'acquire':
                n = sum(1 for x in e['ctx'] if x == ('lock', e['lock']))
                atoms = [a for x in e['ctx'] if x[0] == 'lock' for a in held({'ctx': (x,)})]
                if n > 1 or len(atoms) != len(set(atoms)):
                    bad = bad or (e, 'a lock that the chunk already holds is acquired again: the chunk waits for itself')
            elif e['kind'] == 'nc_open':
                state[(t, e['file'])] = e
            elif e['kind'] == 'release':
                o = [x for (tt, ff), x in state.items() if tt == t]
                if o:
                    bad = bad or (e, 'the lock is released while the file opened at %s is still open' % o[0]['at'])
            elif e['kind'] == 'nc_close':
                state.pop((t, e['file']), None)
            elif e['kind'].startswith('nc_') and (t, e['file']) not in state:
                bad = bad or (e, 'the file is used while it is not open')
        if not bad and state:
            x = list(state.values())[0]
            bad = (x, 'the file opened by the chunk is never closed')
        c.fact('open and closed', not bad, 'the file is opened and closed inside the lock', at=bad[0]['at'] if bad else '',
               detail=bad[1] if bad else '', how='typestate')
        if runs:
            wrote_ = [e for e in nc if e['kind'] == 'nc_write']
            c.add('chunks write', 'holds' if wrote_ else 'undecided', 'the writes of chunks were found', 'structure',
                  detail='no write of a chunk was found')
        c.saw(p)
        return c
    return f


def tasks(tier, seed):
    r = []
    for kind in ('daily', 'sub'):
        for what, k, form in (
                ('plain', {}, None), ('chunks', dict(chunks=CK), None), ('chunks of lat', dict(chunks={'lat': CK['lat']}), None),
                ('daily files', dict(chunks=CK, out_freq='D'), None), ('monthly files', dict(chunks=CK, out_freq='MS'), None),
                ('yearly files', dict(out_freq='A'), None), ('passthrough', dict(chunks=CK, method='passthrough'), None),
                ('data', dict(chunks=CK, fmt='data'), None), ('triangle', dict(chunks=CK, prec_type='triangle'), None),
                ('threading', dict(chunks=CK, scheduler='threading'), None),
                ('multiprocessing', dict(chunks=CK, scheduler='multiprocessing'), None),
                ('distributed', dict(chunks=CK, scheduler='distributed'), None),
                ('synchronous', dict(chunks=CK, scheduler='synchronous'), None),
                ('one worker', dict(chunks=CK, num_workers=num(1)), None),
                ('debugging', dict(chunks=CK, verbose=num(10)), None),
                ('ini', dict(chunks=CK), 'ini'), ('yaml', dict(chunks=CK), 'yaml')):
            r.append(('%s %s' % (kind, what), case('%s %s' % (kind, what), dict(k, ts=kind), form)))
    return r
