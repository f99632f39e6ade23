"""
Replay recorded inputs against the unpatched code in /repo.

usage: /opt/venv/bin/python replay.py FILE.json
FILE holds {"property", "tier", "cases": [{"scenario", "inputs"}]} or a single case.  Exit 1 when a case fails.
Prints one JSON line per case prefixed RESULT.
"""
import io
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import repo, harness


def main():
    job = json.load(open(sys.argv[1]))
    cases = job['cases'] if 'cases' in job else [job]
    R = repo.load(concrete=True)
    mod = harness.load_check(job['property'])
    scens = {s.name: s for t in ('thorough', 'quick') if t == job.get('tier', 'quick') for s in mod.scenarios(t)}
    bad = 0
    for i, c in enumerate(cases):
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            r = harness.run_concrete(R, scens[c['scenario']], c['inputs'])
        finally:
            sys.stdout = out
        print('RESULT ' + json.dumps({'i': i, 'status': r[0], 'msg': r[1], 'key': r[2], 'log': r[3][:60]}))
        bad += r[0] == 'fail'
    sys.stdout.flush()
    return 1 if bad else 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main())
