"""
Writes BOUNDS.md: the scenarios (and their bounds) every check explores, from the scenario lists themselves.
usage: python3-vt gen_bounds.py
"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
out = ['# Scenarios and bounds per property', '',
       'Generated by gen_bounds.py. "T" marks scenarios that only the thorough command explores; the other scenarios are',
       'explored by both, usually with wider domains in the thorough command. "eager" marks scenarios whose inputs are',
       'solver-chosen selectors from the start.', '']
for n in range(1, 100):
    if not os.path.exists(os.path.join(HERE, 'checks', 'p%02d.py' % n)):
        continue
    m = importlib.import_module('checks.p%02d' % n)
    out += ['## P%02d %s' % (n, (m.__doc__ or '').strip()), '']
    quick = {s.name for s in m.scenarios('quick')}
    for s in m.scenarios('thorough'):
        mark = ('' if s.name in quick else 'T ') + ('' if s.lazy else 'eager ')
        out.append('- %s`%s`: %s' % (mark, s.name, s.bounds or '-'))
    for a in getattr(m, 'ASSUMPTIONS', ()):
        out.append('- assumption: %s' % a)
    out.append('')
with open(os.path.join(HERE, 'BOUNDS.md'), 'w') as f:
    f.write('\n'.join(out))
