"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
TECH = 'abstract interpretation of the source into a value graph; normal-form equality and random interpretation'
NOTE = ('Holds for all inputs where the normal forms agree; elsewhere the two value graphs agree on the random '
        'valuations counted in the evidence. Trusts the library models of the analyser (numpy, pandas, xarray, dask, '
        'netCDF4).')
NA = {
    'C37': 'termination of a numerical iteration quantifies over the convergence of real sequences; no structural '
           'clause of the code implies it',
    'C38': 'agreement with reference observations is a statement about measured data',
    'C39': 'peak memory is a quantity of the run; nothing in the shape of the code bounds the lazy loading of xarray '
           'and dask',
    'C40': 'rounding of cftime date arithmetic over a supported range is a numerical property of a library',
}


def main():
    checks, na = [], []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)['id']
        if not os.path.exists(os.path.join(ROOT, 'msa/props/%s.py' % p.lower())):
            na.append({'property': p, 'reason': NA.get(p, 'no check yet')})
            continue
        m = importlib.import_module('msa.props.' + p.lower())
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': getattr(m, 'TECHNIQUE', TECH), 'level': m.LEVEL,
                       'level_note': getattr(m, 'NOTE', NOTE)})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
