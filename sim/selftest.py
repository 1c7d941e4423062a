#!/usr/bin/env python3
"""selftest.py setup            the interpreters, the code under test and the seams work
   selftest.py determinism [N]  every property: N seeds twice each, in other processes, worker counts and hash seeds
"""
import sys
import check
import registry


def setup():
    bad = 0
    for p in sorted(registry.PROPS):
        r = check.call(['gen', p, 1, 'quick', 0])
        if 'fatal' in r:
            print(p, r['fatal'])
            bad = 1
    print('setup ok' if not bad else 'setup failed')
    return bad


def determinism(n, props):
    bad = 0
    for p in props:
        a, _, fa = check.run_workers(p, 77, 'quick', n, 600, {'PYTHONHASHSEED': '0'}, 8)
        b, _, fb = check.run_workers(p, 77, 'quick', n, 600, {'PYTHONHASHSEED': '991', 'VERIF_REVERSE': '1'}, 3)
        diff = [i for i in a if i in b and (a[i]['digest'], a[i]['ok'], a[i]['faults']) != (b[i]['digest'], b[i]['ok'], b[i]['faults'])]
        print(p, 'runs', len(a), len(b), 'differing', diff, 'failures', [i for i in a if a[i]['ok'] is not True], fa[:1], fb[:1], flush=True)
        bad |= bool(diff or fa or fb or len(a) != len(b))
    return bad


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        sys.exit(setup())
    sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 60, sys.argv[3:] or sorted(registry.PROPS)))
