#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--case NAME] [--debug] | check.py --replay FILE"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0' or sys.version_info[:2] != (3, 12) or not os.environ.get('SX_CHILD'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', SX_CHILD='1', TF_CPP_MIN_LOG_LEVEL='3',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    os.execvpe('python3-vt', ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def replay(path):
    """Runs the recorded inputs on the unmodified code; exit 1 when the violation shows"""
    import signal
    from sx import run
    from sx.ctx import unjson
    signal.signal(signal.SIGALRM, run._alarm)
    sys.setrecursionlimit(12000)
    with open(path) as f:
        rec = json.load(f)
    c = run.Conc(os.path.join(HERE, 'harness', rec['property'].lower() + '.py'))
    r = c.run(rec['case'], {k: unjson(v) for k, v in rec['inputs'].items()}, 60)
    print('case: %s' % rec['case'])
    for k, v in r[2]:
        print('  %s = %r' % (k, v))
    print('%s %s' % (r[0], r[1]))
    return 1 if r[0] in ('fail', 'hang') else 0


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--case')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--procs', type=int, default=int(os.environ.get('SX_PROCS', '0')) or min(8, os.cpu_count() or 4))
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.selftest:
        import z3
        x = z3.Int('x')
        s = z3.Solver()
        s.add(x * x == 49, x < 0)
        assert s.check() == z3.sat and s.model()[x].as_long() == -7
        print('z3 %s works' % z3.get_version_string())
        sys.exit(0)
    prop = a.prop.upper()
    hpath = os.path.join(HERE, 'harness', prop.lower() + '.py')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from sx import run, core  # noqa
    from sx.loader import World
    w = World('conc')
    h = w.run_file(hpath)
    cases = [c for c in h.cases(a.tier)]
    if a.case:
        cases = [c for c in cases if a.case in c]
    budget = a.budget or getattr(h, 'BUDGET', {}).get(a.tier, 45 if a.tier == 'quick' else 600)
    opts = {'path_s': 20.0 if a.tier == 'quick' else 60.0, 'conc_s': 10.0, 'seed': seed, 'debug': a.debug}
    opts.update(getattr(h, 'OPTS', {}))
    known = [k for k in load_known() if k.get('property') == prop]
    res = run.explore(hpath, cases, opts, budget, a.procs)
    st, eng = res['stats'], res['engine']
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    confirmed = []
    for i, v in enumerate(res['violations'][:8]):
        path = os.path.join(evdir, 'replay', '%s_%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(dict(v, property=prop), f, indent=1)
        r = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=180)
        if r.returncode == 1:
            confirmed.append((path, v, r.stdout))
            break
    complete = [c for c in cases if c not in res['incomplete'] and not res['percase'][c]['inconclusive']]
    missing = [c for c in getattr(h, 'COVER', []) if c not in res['covered']] if not a.case else []
    cov = {
        'states': st['paths'], 'transitions': st['decisions'], 'traces_validated_against_impl': st['validated'],
        'samples': res['samples'], 'exhaustive': len(complete) == len(cases),
        'assertions': st['asserts'], 'assertions_discharged_by_solver': st['asserts_unsat'],
        'assertions_true_by_simplification': st['asserts_simplified'], 'counterexample_candidates': st['candidates'],
        'infeasible_paths': st['infeasible'], 'inconclusive_paths': st['inconclusive'], 'concrete_runs': st['concrete_runs'],
        'solver_queries': eng['queries'], 'solver_s': round(eng['solver_s'], 2), 'solver_unknown': eng['unknown'],
        'solver': 'z3 ' + core.z3.get_version_string(), 'functions_encoded': sorted(res['funcs']),
        'bounds': getattr(h, 'BOUNDS', ''), 'cases': len(cases), 'cases_complete': len(complete),
        'cases_cut_by_time': res['incomplete'][:60], 'vacuity_witnesses': dict(res['covered']), 'vacuity_missing': missing,
        'notes': {k[:300]: n for k, n in res['notes'].most_common(12)},
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(h, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get('SX_LINES'):
        with open(os.environ['SX_LINES'], 'w') as f:
            json.dump(sorted(res['lines']), f)
    print('%s %s: %d cases (%d complete), %d paths, %d validated, %d inconclusive, %d infeasible, %d asserts, %d queries '
          '(%.1f s), wall %.1f s' % (prop, a.tier, len(cases), len(complete), st['paths'], st['validated'], st['inconclusive'],
                                     st['infeasible'], st['asserts'], eng['queries'], eng['solver_s'], time.time() - t0))
    if res['incomplete']:
        print('cut by time: %s' % ', '.join(map(str, res['incomplete'][:20])))
    if missing:
        print('not witnessed: %s' % ', '.join(missing))
    for k, n in res['notes'].most_common(6):
        print('note x%d: %s' % (n, k[:500]))
    if confirmed:
        path, v, out = confirmed[0]
        print('violated: case %s: %s' % (v['case'], v['message']))
        print(out.rstrip())
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if st['paths'] == 0:
        print('no path could be decided')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
