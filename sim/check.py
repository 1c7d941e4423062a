#!/usr/bin/env python3
"""Entry point of every check:  check.py PROP [quick|thorough]   |   check.py --replay FILE

Spawns workers under the repository's interpreter, merges their results, minimises and confirms
violations, writes the evidence file.
Exit 0: held on everything explored; 1: VIOLATION (line printed); 3: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time
import threading

SIM = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(SIM)
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
NW = int(os.environ.get('VERIF_WORKERS', '8'))
OUT = os.path.join(ROOT, 'out')
MAX_WALL = {'quick': 420, 'thorough': 7200}


def env(extra=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', HOME='/tmp',
             PYTHONHASHSEED=e.get('VERIF_HASHSEED', '0'))
    e.update(extra or {})
    return e


def spawn(args, extra=None):
    return subprocess.Popen([PY, os.path.join(SIM, 'worker.py')] + [str(a) for a in args],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(extra), text=True)


def run_workers(prop, seed, tier, count, deadline, extra=None, nw=None):
    """-> (results by idx, stopped, fatal messages)"""
    nw = nw or min(NW, max(1, count))
    procs = [spawn(['batch', prop, seed, tier, w, nw, count, deadline], extra) for w in range(nw)]
    results, stopped, fatal = {}, [], []
    lock = threading.Lock()
    ended = set()

    def read(w, p):
        for line in p.stdout:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            with lock:
                if 'fatal' in r:
                    fatal.append(r['fatal'])
                elif r.get('stopped'):
                    stopped.append(w)
                elif r.get('end'):
                    ended.add(w)
                else:
                    results[r['idx']] = r

    def err(w, p, buf):
        for line in p.stderr:
            buf.append(line)
            del buf[:-40]
    bufs = [[] for _ in procs]
    ths = [threading.Thread(target=read, args=(w, p)) for w, p in enumerate(procs)] + \
          [threading.Thread(target=err, args=(w, p, bufs[w])) for w, p in enumerate(procs)]
    for t in ths:
        t.start()
    hard = deadline + 400
    t0 = time.time()
    for p in procs:
        try:
            p.wait(timeout=max(1, hard - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            fatal.append('worker did not stop in time')
    for t in ths:
        t.join()
    for w in range(nw):
        if w not in ended and not fatal:
            fatal.append('worker %d died (exit %s): %s' % (w, procs[w].returncode, ''.join(bufs[w])[-1500:]))
    return results, stopped, fatal


def call(args, timeout=300, extra=None):
    p = spawn(args, extra)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
    for line in reversed((out or '').splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            pass
    return {'fatal': (err or '')[-2000:]}


def known_findings(prop):
    """Entries 'finding: property=<id> match=<substring> <what>'; 'fixed:' entries suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('match='):
                    m, _, what = rest[6:].partition(' :: ')
                    out.append((m, what))
    except OSError:
        pass
    return out


def report(prop, seed, tier, idx, res):
    """Minimise, write the replay file, confirm it in a fresh process.  -> path"""
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, '%s-seed%s-run%s' % (prop, seed, idx))
    rep = {'property': prop, 'seed': seed, 'tier': tier, 'idx': idx, 'plan': res['plan'],
           'violation': {k: res.get(k) for k in ('kind', 'msg', 'detail')}, 'digest': res['digest']}
    json.dump(rep, open(base + '.full.json', 'w'), indent=1, sort_keys=True)
    path = base + '.json'
    if 'differs' in (res.get('detail') or {}):
        json.dump(rep, open(path, 'w'), indent=1, sort_keys=True)
        return path, True
    secs = 45 if tier == 'quick' else 120
    call(['shrink', base + '.full.json', path, secs], timeout=secs + 260)
    ok = False
    if os.path.exists(path):
        r = call(['exec', path])
        want = json.load(open(path))
        ok = r.get('ok') is False and r.get('kind') == want['violation']['kind'] and r.get('digest') == want['digest']
    if not ok:
        # the violation may need what the process did before: replay with its history
        rep['history'] = res.get('history', [])
        json.dump(rep, open(path, 'w'), indent=1, sort_keys=True)
        r = call(['exec', path], timeout=600)
        ok = r.get('ok') is False
    return path, ok


def replay(path):
    path = os.path.abspath(path)
    rep = json.load(open(path))
    if 'differs' in (rep['violation'].get('detail') or {}):
        r = compare_groups(rep['property'], rep['seed'], rep['tier'], rep['idx'] + 1, 300)[1]
        if rep['idx'] in [i for i, _ in r]:
            print('VIOLATION property=%s replay=%s' % (rep['property'], path))
            return 1
        return 0
    r = call(['exec', path], timeout=900)
    if r.get('ok') is False:
        print('%s: %s' % (r['kind'], r['msg']))
        print('same digest: %s' % (r.get('digest') == rep.get('digest')))
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    if r.get('ok') is True:
        print('the replayed run holds')
        return 0
    print(r)
    return 3


def compare_groups(prop, seed, tier, count, deadline):
    """Run every index twice: other process, other hash seed, other history.  -> results, differing"""
    a = {}
    ths = []
    out = {}

    def go(name, extra, nw):
        out[name] = run_workers(prop, seed, tier, count, deadline, extra, nw)
    for name, extra, nw in (('a', {'PYTHONHASHSEED': '0', 'VERIF_GROUP': 'a'}, 4),
                            ('b', {'PYTHONHASHSEED': '4242', 'VERIF_REVERSE': '1', 'VERIF_GROUP': 'b'}, 3)):
        ths.append(threading.Thread(target=go, args=(name, extra, nw)))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    ra, sa, fa = out['a']
    rb, sb, fb = out['b']
    diff = [(i, (ra[i], rb[i])) for i in sorted(ra) if i in rb and ra[i].get('ok') and rb[i].get('ok')
            and ra[i]['digest'] != rb[i]['digest']]
    return (ra, rb, sa + sb, fa + fb), diff


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import registry
    info = registry.PROPS[prop]
    count = int(os.environ.get('VERIF_COUNT', info[tier]))
    deadline = float(os.environ.get('VERIF_DEADLINE', info.get('deadline', {}).get(tier, MAX_WALL[tier])))
    print('%s tier=%s seed=%d runs=%d' % (prop, tier, seed, count), flush=True)
    t0 = time.time()
    differing = []
    if info.get('twice'):
        (results, rb, stopped, fatal), differing = compare_groups(prop, seed, tier, count, deadline)
        for i, r in rb.items():
            if r.get('ok') is not True and results.get(i, {}).get('ok') is True:
                results[i] = r
    else:
        results, stopped, fatal = run_workers(prop, seed, tier, count, deadline)
        rb = {}
    wall_search = time.time() - t0
    bad = {i: r for i, r in results.items() if r['ok'] is False}
    harness = [r for r in results.values() if r['ok'] is None]
    for i, (x, y) in differing:
        bad.setdefault(i, dict(x, ok=False, kind='not-reproducible',
                               msg='two executions of run %d (other process, hash seed and history) differ' % i,
                               detail={'differs': [x['digest'], y['digest']]},
                               plan=x.get('plan') or call(['gen', prop, seed, tier, i])))
    known = known_findings(prop)
    hit = []
    for i in list(bad):
        for m, what in known:
            if m in json.dumps(bad[i], sort_keys=True):
                hit.append(what)
                del bad[i]
                break
    for what in sorted(set(w for _, w in known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    status = 0
    paths = []
    if bad:
        i = min(bad)
        path, ok = report(prop, seed, tier, i, bad[i])
        rel = os.path.relpath(path, ROOT)
        print('run %d: %s: %s' % (i, bad[i]['kind'], bad[i]['msg'][:2000]))
        print('replay %s in a fresh process' % ('reproduces the violation' if ok else 'did NOT reproduce the violation'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        paths.append(path)
        status = 1
    elif harness or fatal:
        print('CHECK FAILED: ' + (harness[0]['msg'] if harness else fatal[0]))
        status = 3
    write_evidence(prop, tier, seed, info, results, rb, stopped, wall_search, time.time() - t0, len(bad), count)
    if status == 0 and len(results) < min(count, 1):
        print('CHECK FAILED: no run was completed')
        status = 3
    print('%s: %d runs, %d violations, %.1f s' % (prop, len(results), len(bad), time.time() - t0))
    sys.exit(status)


def write_evidence(prop, tier, seed, info, results, rb, stopped, wall_search, wall, nviol, count):
    runs = list(results.values())
    both = runs + list(rb.values())
    faults, probes, states = {}, {}, set()
    for r in both:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
    distinct = len({r['plan_hash'] for r in runs if r['steps'] >= info.get('min_steps', 1)})
    samples = [{'run': r['idx'], 'plan': r['plan'], 'digest': r['digest'], 'steps': r['steps']}
               for r in sorted(runs, key=lambda r: r['idx']) if 'plan' in r][:3]
    cov = {
        'evaluations': len(both),
        'distinct_nontrivial': distinct,
        'rule': info['rule'],
        'samples': samples,
        'runs_requested': count,
        'stopped_by_wall_cap': bool(stopped),
        'runs_per_hour': round(len(both) / max(wall_search, 1e-9) * 3600),
        'seeds_per_hour': round(len(runs) / max(wall_search, 1e-9) * 3600),
        'scheduler_steps': sum(r['steps'] for r in both),
        'simulated_time_s': round(sum(r['simtime'] for r in both), 3),
        'simulated_time_meaning': info.get('simtime', 'model time of the simulated trajectories'),
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'distinct_states_measure': info['state_measure'],
        'real_components': info['real'],
        'stubbed_components': info['stub'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop + '.json'))


if __name__ == '__main__':
    main()
