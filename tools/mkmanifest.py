"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    'C04': 'deterministic simulation: crash, torn-write and disk-error injection at seeded write operations, recovery oracle',
    'C05': 'deterministic simulation: crash and restart at seeded records, refinement against the uninterrupted run',
    'C06': 'deterministic simulation: seeded thread interleavings and ambient perturbation, bitwise history comparison',
    'C07': 'deterministic simulation with injected solver failures, steady-profile oracle on the recorded history',
    'C09': 'deterministic simulation: every step refined against a small executable reference model of the sediment budget',
    'C13': 'deterministic simulation: scripted users and interrupts, file content oracle',
    'C16': 'deterministic simulation: torn and corrupted input injection, file content oracle',
    'C18': 'deterministic simulation: mirrored twin runs compared record by record',
    'C19': 'deterministic simulation: clock-shifted and rotated twin runs compared record by record',
    'C21': 'deterministic simulation: seeded maps digitised in different ways, first record against an independent reading',
    'C22': 'deterministic simulation: movies of finished, running and killed runs with failing writers, frame contents against the recorded history',
    'C14': 'deterministic simulation: twin runs under different observation schedules compared bitwise',
}
DEF = 'deterministic simulation: seeded weather, state and fault search with an invariant oracle over the recorded history'
NA = []


def main():
    checks = []
    claimed = set()
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        f = os.path.join(V, 'hapsim', 'props', p['id'].lower() + '.py')
        if not os.path.exists(f):
            continue
        src = open(f).read()
        lvl = re.search(r"^LEVEL = '(\w+)'", src, re.M)
        note = re.search(r'^NOTE = \((.*?)\)\n', src, re.M | re.S)
        note = eval('(' + note.group(1) + ')') if note else ''
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                           technique=TECH.get(p['id'], DEF), level=lvl.group(1) if lvl else 'exploration',
                           level_note=(note + ' ' if note else '') + 'Seeded sampling of simulated runs of the real model: a clean '
                           'batch is evidence, not proof. Trusts the seams in hapsim/engine.py and native/, numpy, scipy, pandas and HDF5.'))
        claimed.add(p['id'])
    na = [n for n in NA if n['property'] not in claimed]
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        if p['id'] not in claimed and p['id'] not in [n['property'] for n in na]:
            na.append(dict(property=p['id'], reason='check under construction'))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: every seam (linear solver, result files, disk, clock, user, global random state, uninitialised '
                   'memory, thread schedule) is installed from outside by hapsim/engine.py and native/. The native seams are compiled '
                   'into a private scratch directory on each run. VERIF_SEED selects the seed; --replay FILE replays a violation.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
