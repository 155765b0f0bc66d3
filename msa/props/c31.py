"""Command line options reach what they control."""
from ..world import *
from ..harness import FileConfig, CONFIG, Harness
LEVEL = 'other'
FILE = 'the configuration that is read is the file named on the command line'
SCHED = 'the scheduler of the command line is the one used, whatever the file says'
WORK = 'the number of workers of the command line is the one used, whatever the file says'
VERB = 'verbosity is that of the command line, whatever the file says'
MISS = 'a configuration file that does not exist ends the program with a failure status'
SPEC = 'the documented options exist'
CORE = ['synchronous', 'sync', 'single-threaded', 'threads', 'threading', 'processes', 'multiprocessing']
OTHERS = ['tcp://10.0.0.1:8786', '/scratch/scheduler.json', 'distributed']
WORKERS = sym('cli_num_workers', 'int')


def died_why(p):
    return str(p.err)[:200]


def each(events, get, want, word):
    """-> detail of the first event with another value, or None."""
    for e in events:
        v = get(e)
        if not equal(v, want):
            return e, '%s is %s instead of %s' % (word, show(v, 4), show(want, 4))
    return None


def options(label, form, scheduler, verbose, infile, k):
    def f():
        c = Checker(label)
        texts = {}
        if infile:
            yaml = form == 'yaml'
            texts = {'scheduler': const('threads' if scheduler != 'threads' else 'processes'),
                     'num_workers': sym('file_workers', 'int') if yaml else sym('file_workers', 'inttext'),
                     'verbose': (TRUE if verbose is FALSE else FALSE) if yaml else const('True' if verbose is FALSE else 'False')}
        h = Harness()
        exists = scheduler.startswith('/')
        if not exists:
            h.missing.add(const(scheduler))
        cfg = FileConfig(form, cli={'scheduler': const(scheduler), 'verbose': verbose, 'num_workers': WORKERS}, utc=FALSE,
                         period_ending=FALSE, texts=texts, **k)
        p = Prog(cfg, h=h)
        c.saw(p)
        if p.died:
            c.add('runs', 'violated', SCHED, 'structure', '', died_why(p))
            return c
        if p.err:
            c.add('runs', 'undecided', SCHED, detail=died_why(p))
            return c
        reads = p.all('read_config')
        if not reads:
            c.add('file', 'violated', FILE, 'structure', '', 'no configuration is read')
        else:
            b = each(reads + [e for e in p.all('open') if e['fn'] in ('check_config_type', 'read_config', 'main')], lambda e: e['path'],
                     CONFIG, 'the file read')
            c.fact('file', b is None, FILE, b[0]['at'] if b else reads[0]['at'], b[1] if b else '')
        cl, sets, evals = p.all('client'), [e for e in p.all('dask_config') if e['name'] == 'scheduler'], p.all('dask_eval')
        odd = [e for e in p.all('dask_config') if e['name'] == '?']
        want = const(scheduler)
        over = [e for e in evals if 'scheduler' in e['kw']]
        own = [e for e in sets if not any(x[0] == 'task' for x in e['ctx'])]
        if odd:
            c.add('scheduler', 'undecided', SCHED, detail='settings given as a dictionary')
        elif scheduler in CORE:
            b = each(sets, lambda e: e['value'], want, 'the scheduler set') or each(over, lambda e: e['kw']['scheduler'], want,
                                                                                  'the scheduler of the evaluation')
            if not b and cl:
                b = cl[0], 'a cluster is used instead of %s' % scheduler
            alls = all('scheduler' in e['kw'] for e in evals)
            if not b and not own and not alls:
                b = ({'at': evals[0]['at'] if evals else '?'}, 'the scheduler is never set')
            c.fact('scheduler', b is None, SCHED, b[0]['at'] if b else '', b[1] if b else '')
        else:
            b = None
            if not cl:
                b = {'at': '?'}, 'no client of %s is made' % scheduler
            else:
                for e in cl:
                    a0 = e['args'][0] if e['args'] else e['kw'].get('address', NONE)
                    if exists and e['kw'].get('scheduler_file', NONE) is not want:
                        b = e, 'the scheduler file is not used'
                    elif scheduler == 'distributed' and (a0 is not NONE or 'scheduler_file' in e['kw']):
                        b = e, 'not a cluster of its own'
                    elif not exists and scheduler != 'distributed' and a0 is not want:
                        b = e, 'the client has the address %s' % show(a0, 3)
            b = b or each([e for e in over], lambda e: e['kw']['scheduler'], want, 'the scheduler of the evaluation')
            if not b and own:
                b = own[0], 'the scheduler is set to %s' % show(own[0]['value'], 3)
            c.fact('scheduler', b is None, SCHED, b[0]['at'] if b else '', b[1] if b else '')
        # workers
        if scheduler in ('synchronous', 'sync', 'single-threaded') or scheduler in OTHERS[:2]:
            pass
        elif scheduler == 'distributed':
            b = each(cl, lambda e: e['kw'].get('n_workers', NONE), WORKERS, 'the number of workers')
            if not cl:
                b = {'at': '?'}, 'no cluster is made'
            c.fact('workers', b is None, WORK, b[0]['at'] if b else '', b[1] if b else '')
        else:
            first = [e for e in evals if e['how'] in ('persist', 'compute')][:1]
            sw = [e for e in p.all('dask_config') if e['name'] in ('num_workers', 'pool')]
            if sw and not any('num_workers' in e['kw'] for e in first):
                b = each([e for e in sw if e['name'] == 'num_workers'], lambda e: e['value'], WORKERS, 'the number of workers')
                if any(e['name'] == 'pool' for e in sw):
                    c.add('workers', 'undecided', WORK, detail='a pool')
                    sw = None
            else:
                b = each(first, lambda e: e['kw'].get('num_workers', NONE), WORKERS, 'the number of workers')
            if sw is not None:
                c.fact('workers', b is None, WORK, b[0]['at'] if b else '', b[1] if b else '')
        lv = [e for e in p.all('level') if e['of'] == 'logger' and not any(x[0] == 'task' for x in e['ctx'])]
        want = num(10) if verbose is TRUE else num(20)
        if not lv:
            c.add('verbosity', 'undecided', VERB, detail='no level is set on the logger')
        else:
            b = each(lv[-1:], lambda e: e['value'], want, 'the level')
            c.fact('verbosity', b is None, VERB, b[0]['at'] if b else lv[-1]['at'], b[1] if b else '')
        return c
    return f


def missing(label, form):
    def f():
        c = Checker(label)
        h = Harness()
        h.missing.add(CONFIG)
        p = Prog(FileConfig(form, ts='daily', utc=FALSE, period_ending=FALSE), h=h)
        c.saw(p)
        ex = p.all('exit')
        ran = p.all('nc_open') or p.all('task') or p.all('open_dataset')
        if p.err and not p.died:
            c.add('missing file', 'undecided', MISS, detail=died_why(p))
            return c
        bad = [e for e in ex if e['status'] in (ZERO, NONE, FALSE)]
        if bad:
            c.add('missing file', 'violated', MISS, 'structure', bad[0]['at'], 'the program exits with status 0')
        elif not p.died or ran:
            c.add('missing file', 'violated', MISS, 'structure', (ran or [{'at': '?'}])[0]['at'],
                  'the program goes on without its configuration file')
        else:
            c.add('missing file', 'holds', MISS, 'path conditions', ex[0]['at'] if ex else '')
        # and one that exists does not end it
        p = Prog(FileConfig(form, ts='daily', utc=FALSE, period_ending=FALSE))
        if p.err and not p.died:
            c.add('file that exists', 'undecided', MISS, detail=died_why(p))
        else:
            c.fact('file that exists', not p.died, MISS, '', died_why(p), how='path conditions')
        return c
    return f


def spec():
    c = Checker('options')
    p = Prog(FileConfig('yaml', ts='daily', utc=FALSE, period_ending=FALSE))
    c.saw(p)
    have = {fl: e for e in p.all('argspec') for fl in e['flags']}
    pa = p.all('parse_args')
    if not have or not pa:
        c.add('parser', 'undecided', SPEC, detail='no argparse parser is analysed')
        return c
    for fl, act in (('config', 'store'), ('-n', 'store'), ('--num_workers', 'store'), ('-s', 'store'), ('--scheduler', 'store'),
                    ('-v', 'store_true'), ('--verbose', 'store_true')):
        e = have.get(fl)
        c.fact(fl, e is not None and e['action'] == act, SPEC, pa[0]['at'],
               'no such option' if e is None else 'the option is of kind %s' % e['action'])
    a = pa[0]['args']
    ok = a is NONE or (a.op == 'slicelist' and a.args[1] is ONE and a.args[2] in (NONE,) and a.args[3] in (NONE, ONE))
    c.add('arguments', 'holds' if ok else 'violated' if a.op == 'slicelist' or a.op == 'sym' else 'undecided', SPEC, 'structure', pa[0]['at'],
          '' if ok else 'parsed are %s' % show(a, 4))
    return c


def tasks(tier, seed):
    r = [('options', spec)]
    for form in ('ini', 'yaml'):
        r.append((form + ' missing', missing(form + ' missing', form)))
        n = 0
        for s in CORE + OTHERS:
            for v in (TRUE, FALSE):
                for infile in (False, True):
                    n += 1
                    k = (dict(ts='daily'), dict(ts='sub'), dict(ts='sub', chunks={'lat': sym('cfg_chunk_lat', 'int')}))[n % 3]
                    label = '%s %s%s%s' % (form, s, ' verbose' if v is TRUE else '', ' against the file' if infile else '')
                    r.append((label, options(label, form, s, v, infile, k)))
    return r
