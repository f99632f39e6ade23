"""
usage: python3-vt run_check.py PROPERTY [quick|thorough]

Explores the scenarios of one property, replays every counterexample on the unpatched code with the
project's own interpreter, writes evidence/<PROPERTY>.json and prints the verdict.
"""
import json
import os
import subprocess
import sys
import time

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('VERIF_REEXEC') != '1':
    os.environ['VERIF_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import harness, repo
import warnings
warnings.filterwarnings('ignore')


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split('property=%s ' % prop, 1)[1]
                assert rest.startswith('key=')
                key, text = rest[4:].split(' ', 1)
                out[key] = text
    return out


def replay(prop, tier, cases, tag, timeout=300):
    d = os.path.join(harness.EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}_{tag}.json')
    json.dump({'property': prop, 'tier': tier, 'cases': cases}, open(path, 'w'))
    env = dict(os.environ)
    env.pop('PYTHONHASHSEED', None)
    p = subprocess.run([harness.PYPY, os.path.join(HERE, 'replay.py'), path], capture_output=True, text=True,
                       timeout=timeout, env=env, cwd=HERE)
    res = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith('RESULT ')]
    return path, res, p.stderr


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = harness.load_check(prop)
    scens = mod.scenarios(tier)
    only = os.environ.get('VERIF_ONLY')
    if only:
        scens = [s for s in scens if only in s.name]
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '780'))
    nproc = int(os.environ.get('VERIF_NPROC', '8'))
    known = known_findings(prop)
    harness.KNOWN_KEYS |= set(known)
    try:
        R = repo.load(concrete=False)
    except Exception as e:
        print(f'ERROR: cannot load the code: {e!r}')
        return 2
    res, funcs = harness.explore(R, scens, budget, nproc)
    by = {s.name: s for s in scens}

    # replay counterexamples; a lazy one that does not reproduce sends its scenario to the eager encoding
    violations, hits, errors, undecided = [], {}, [], []

    def judge(results, allow_fallback):
        again = []
        cases, owner = [], []
        for r in results:
            for v in r['viols'][:6]:
                cases.append({'scenario': r['name'], 'inputs': v['inputs'], 'msg': v['msg']})
                owner.append((r, v))
        bad = set()
        if cases:
            _, out, err = replay(prop, tier, cases, 'candidates')
            if len(out) != len(cases):
                errors.append('replay failed: ' + err[-2000:])
                return []
            for (r, v), o, c in zip(owner, out, cases):
                if o['status'] == 'fail':
                    if o['key'] is not None and o['key'] in known:
                        hits[o['key']] = known[o['key']]
                    else:
                        violations.append((r['name'], c, o))
                else:
                    bad.add(r['name'])
                    r['unreproduced'] = dict(v, status=o['status'])
        for r in results:
            if r['name'] in bad and not any(x[0] == r['name'] for x in violations):
                if allow_fallback and r['mode'] == 'lazy':
                    again.append(r)
                else:
                    undecided.append(f"{r['name']}: counterexample did not reproduce: {r['unreproduced']}")
                    r['complete'] = False
        return again

    again = judge(res, True)
    if again and not violations:
        sub = [by[r['name']] for r in again]
        for s in sub:
            s.lazy = False
        left = max(60.0, budget - (time.time() - t0))
        res2, f2 = harness.explore(R, sub, left, nproc)
        funcs |= f2
        for r, r2 in zip(again, res2):
            r2['fallback'] = 'counterexample did not reproduce: %s' % r['unreproduced'].get('msg')
        res = [r for r in res if r not in again] + res2
        judge(res2, False)

    # witness paths: the same inputs on the project's interpreter must satisfy the same assertions
    wit = [{'scenario': r['name'], 'inputs': i} for r in res for i in r['samples'][:3]]
    n_wit = 0
    samples = []
    if wit and not violations:
        _, out, err = replay(prop, tier, wit, 'witnesses')
        if len(out) != len(wit):
            errors.append('witness replay failed: ' + err[-2000:])
        for c, o in zip(wit, out):
            if o['status'] == 'ok':
                n_wit += 1
                if len(samples) < 6:
                    samples.append({'scenario': c['scenario'], 'inputs': c['inputs']})
            elif o['status'] == 'fail':
                if o['key'] is not None and o['key'] in known:
                    hits[o['key']] = known[o['key']]
                else:
                    violations.append((c['scenario'], dict(c, msg='witness path fails on the real interpreter'), o))
            else:
                undecided.append(f"witness of {c['scenario']} {o['status']}: {o['msg']}")

    tot = harness.new_stats()
    rows = []
    for r in res:
        tot.update(r['stats'])
        rows.append({'scenario': r['name'], 'bounds': r['bounds'], 'encoding': r['mode'], 'complete': r['complete'] and not r['error'],
                     'paths': r['stats']['paths'], 'solver_queries': r['stats']['queries'],
                     'assertions': r['stats']['asserts'] + r['stats']['trivial'], 'cpu_s': round(r['stats']['cpu_s'], 1), 'fallback': r['fallback']})
        if r['error']:
            undecided.append(f"{r['name']}: {r['error']}")
        elif r['complete'] and r['stats']['checked'] == 0 and not r['viols']:
            errors.append(f"{r['name']}: vacuous, no assertion reached")
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': 'Bounded symbolic execution of the real functions (dynamic, from /repo source, path '
                             'enumeration by re-execution); every path ends in assertions decided by z3 over all '
                             'values of the symbolic inputs within the bounds listed per scenario.',
              'paths': tot['paths'], 'forks': tot['forks'], 'infeasible_or_assumed_away': tot['cut'],
              'solver_queries': tot['queries'], 'solver_seconds': round(tot['solver_s'], 3),
              'solver_unknown': tot['unknown'],
              'assertions_by_solver': tot['asserts'], 'assertions_closed_by_evaluation': tot['trivial'],
              'witness_paths_replayed_on_real_interpreter': n_wit,
              'scenarios': rows, 'functions_encoded': sorted(funcs), 'samples': samples},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'undecided': [u[:500] for u in undecided],
          'violations': [{'scenario': n, 'msg': o['msg'][:2000], 'inputs': c['inputs']} for n, c, o in violations]}
    os.makedirs(harness.EVID, exist_ok=True)
    with open(os.path.join(harness.EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for k, t in sorted(hits.items()):
        print(f'KNOWN-FINDING: property={prop} key={k} {t}')
    if os.environ.get('VERIF_DEBUG'):
        for r in rows:
            print('   %-26s %s %6d paths %7d queries %7d asserts %6.1f cpu-s%s%s' % (
                r['scenario'], r['encoding'], r['paths'], r['solver_queries'], r['assertions'], r['cpu_s'],
                '' if r['complete'] else ' INCOMPLETE', ' FALLBACK ' + str(r['fallback'])[:300] if r['fallback'] else ''))
    print(f"{prop} {tier}: {tot['paths']} paths, {tot['queries']} solver queries ({tot['solver_s']:.1f} s), "
          f"{tot['asserts']}+{tot['trivial']} assertions, {n_wit} witnesses, {wall:.1f} s"
          + ('' if all(r['complete'] for r in res) else ' [budget reached before completion]'))
    if violations:
        n, c, o = violations[0]
        path = os.path.join(harness.EVID, 'replays', f'{prop}_violation.json')
        json.dump({'property': prop, 'tier': tier, 'scenario': n, 'inputs': c['inputs'], 'msg': o['msg']}, open(path, 'w'), indent=1)
        print(f'  scenario {n}: {o["msg"][:1500]}')
        print('  inputs: ' + json.dumps(o['log'])[:1500])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    # a scenario the engine could not decide is reported and not counted as explored; without any decided one there is no answer
    for e in undecided[:5]:
        print('UNDECIDED: ' + str(e)[:3000])
    if undecided and not any(r['complete'] and not r['error'] for r in res):
        errors.append('no scenario was decided')
    if errors:
        for e in errors[:5]:
            print('ERROR: ' + str(e)[:3000])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
