"""Writes /verif/MANIFEST.json from the harnesses that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C28': 'Depends on the floating-point execution of TensorFlow kernels on two devices and on weights that are not in the '
           'repository (nor is the library callable symbolically): the code that decides it is native and cannot be encoded '
           'for a solver within reach.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    h = '%s/harness/%s.py' % (V, i.lower())
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif not os.path.exists(h):
        na.append({'property': i, 'reason': 'No harness for it has been built yet.'})
    else:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real source (re-read on every run), decided by z3',
            'level': 'model_checking',
            'level_note': 'Every execution path of the real functions within the bounds stated in the evidence file is decided by '
                          'z3 for all values of the symbolic inputs; every path is also run concretely on the unmodified '
                          'modules with the solver\'s model and must agree. Trusts the engine\'s models of str, re, list, dict, '
                          'numpy and thread primitives (validated per path) and the environment stand-ins; nothing is claimed '
                          'outside the bounds.',
        })
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: modules are loaded from their current source. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', [x['property'] for x in na])
