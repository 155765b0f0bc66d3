"""Decides one property:  python3-vt -m msa.check C01 quick"""
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def run_tasks(tasks, limit, workers=8, deadline=None):
    """Each task in a forked process; returns list of (label, result or error text)."""
    todo = list(enumerate(tasks))
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < workers:
            k, (label, fn) = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(int(limit))
                try:
                    try:
                        res = ('ok', fn())
                    except BaseException as e:
                        if os.environ.get('MSA_DEBUG'):
                            traceback.print_exc()
                        res = ('err', '%s: %s' % (type(e).__name__, str(e)[:300]))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, k, label, [])
        import select
        rs, _, _ = select.select(list(live), [], [], 5)
        for r in rs:
            b = os.read(r, 1 << 16)
            pid, k, label, buf = live[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out[k] = (label, pickle.loads(b''.join(buf)))
            except Exception:
                out[k] = (label, ('err', 'time limit of %d s' % limit))
        if deadline and time.time() > deadline:
            for k, (label, fn) in todo:
                out[k] = (label, ('err', 'not started within the time of the check'))
            todo = []
            if time.time() > deadline + limit:
                for r, (pid, k, label, buf) in live.items():
                    os.kill(pid, 9)
    return [out[k] for k in sorted(out)]


def known(prop):
    p = os.path.join(ROOT, 'known_findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % prop):
                body = l.split(' ', 2)[2]
                key, text = body.split(' :: ', 1)
                r.append((key.strip(), text))
    return r


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('msa.props.' + prop.lower())
    tasks = mod.tasks(tier, seed)
    limit = getattr(mod, 'LIMIT', 240 if tier == 'quick' else 1500)
    res = run_tasks(tasks, limit, deadline=t0 + (560 if tier == 'quick' else 3 * 3600))
    obs, lines = [], set()
    for label, (st, r) in res:
        if st == 'ok':
            obs += r.obs
            lines |= r.analysed
        else:
            obs.append(dict(name=label, status='undecided', rule='', how='', at='', detail=r, key=''))
    kf = known(prop)
    viol, found = [], []
    for o in obs:
        if o['status'] == 'violated':
            k = next((t for key, t in kf if key == o['key'] and key), None)
            if k is not None:
                o['status'] = 'known'
                found.append((o, k))
            else:
                viol.append(o)
    und = [o for o in obs if o['status'] == 'undecided']
    hold = [o for o in obs if o['status'] == 'holds']
    decided = len(hold) + len(viol) + len(found)
    stmts = sorted((m, l) for m, l in lines if m and m.startswith('metsim'))
    files = {}
    for m, l in stmts:
        files[m] = files.get(m, 0) + 1
    hows = {}
    for o in hold:
        h = o['how'].split(' (')[0]
        hows[h] = hows.get(h, 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'explanation': '%d obligations: %d hold (%s), %d violated, %d known findings, %d undecided. '
                           'Statements of the program interpreted abstractly: %d (%s).' % (
                               len(obs), len(hold), ', '.join('%d by %s' % (n, h) for h, n in sorted(hows.items())),
                               len(viol), len(found), len(und), len(stmts),
                               ', '.join('%s %d' % x for x in sorted(files.items()))),
            'obligations': len(obs), 'discharged': len(hold), 'by': hows, 'undecided': len(und),
            'analysed_statements': files,
            'rules': sorted({o['rule'] for o in obs if o['rule']}),
            'items': [{k: o[k] for k in ('name', 'status', 'how', 'at', 'detail')} for o in obs],
        },
    }
    if hasattr(mod, 'EXTRA'):
        ev['coverage'].update(mod.EXTRA)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rp = None
    if viol:
        rp = os.path.join(ROOT, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in und:
        print('undecided: %s: %s' % (o['name'], o['detail'][:200]))
    for key, t in kf:
        if any(o['key'] == key for o, _ in found):
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for o in viol:
        print('%s: %s\n   %s\n   at %s\n   rule: %s' % (prop, o['name'], o['detail'], o['at'], o['rule']))
    print('%s: %d obligations, %d hold, %d violated, %d known, %d undecided, %.1f s' % (
        prop, len(obs), len(hold), len(viol), len(found), len(und), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if decided == 0:
        print('%s: nothing could be decided: the anchors of the analysis are gone' % prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
