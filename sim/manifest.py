#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import registry

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    'C22': 'a pure function of its input: no schedule, clock, fault, I/O or second party for a simulator to control '
           '(the transforms are exercised inside every simulated run of C02, C05, C06, C09 and C19)',
    'C23': 'a pure function of its input: no schedule, clock, fault, I/O or second party for a simulator to control '
           '(what depends on histories, threads or failing solvers is C21)',
    'C24': 'a pure function of its input that draws on a canvas: nothing nondeterministic for a simulator to control',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    for p in ids:
        if p in registry.PROPS:
            i = registry.PROPS[p]
            checks.append({
                'property': p, 'quick_cmd': 'python3 sim/check.py %s quick' % p,
                'thorough_cmd': 'python3 sim/check.py %s thorough' % p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': 'deterministic simulation with fault injection (seeded search): ' + i['technique'],
                'level': 'exploration',
                'level_note': i['note']})
    na = [{'property': p, 'reason': PURE.get(p, 'no check built yet')} for p in ids if p not in registry.PROPS]
    m = {'version': 1, 'setup_cmd': 'python3 sim/selftest.py setup',
         'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: every seam is an existing public entry point', 'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'Replay a violation with: python3 sim/check.py --replay FILE. See DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
