"""Runs plans of one property under the repository's interpreter.

  worker.py batch PROP SEED TIER W NW COUNT DEADLINE   indices W, W+NW, ...; one JSON line per run
  worker.py exec FILE                                  run the plan(s) of a replay file
  worker.py shrink FILE OUT SECONDS                    minimise
  worker.py gen PROP SEED TIER IDX
"""
import os
import sys
import json
import time
import signal
import shutil
import tempfile
import traceback
import importlib

SIM = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, SIM)

OUT = os.fdopen(os.dup(1), 'w')
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)                       # the code under test may print
sys.stdout = open(os.devnull, 'w')

SCRATCH = tempfile.mkdtemp(prefix='verif-sim-')
os.makedirs(os.path.join(SCRATCH, 'x'))
os.makedirs(os.path.join(SCRATCH, 'log'))
os.chdir(os.path.join(SCRATCH, 'x'))

import warnings
warnings.simplefilter('ignore')
import numpy as np
import scipy.linalg
import scipy.stats
import seams
import core

MONO = time.monotonic     # the code under test may be shown another clock
HANG = float(os.environ.get('VERIF_HANG', '200'))


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def emit(obj):
    OUT.write(json.dumps(obj) + '\n')
    OUT.flush()


def load(prop):
    seams.install()
    sys.path.insert(0, REPO)
    mod = importlib.import_module('props.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup(SCRATCH)
    return mod


def repo_frames(tb):
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + os.sep)]


def run_one(mod, prop, plan, tier):
    """-> result dict."""
    ctx = core.Ctx(prop, tier)
    res = {'ok': True}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG)
    try:
        np.random.seed(12345)
        mod.run(plan, ctx)
    except core.Violation as v:
        res = {'ok': False, 'kind': v.kind, 'msg': v.msg, 'detail': v.detail}
    except Hang:
        res = {'ok': False, 'kind': 'no-progress', 'msg': 'the run did not finish within %g s' % HANG, 'detail': {}}
    except core.HarnessError as e:
        res = {'ok': None, 'kind': 'harness', 'msg': traceback.format_exc()}
    except BaseException as e:
        fr = repo_frames(e.__traceback__)
        if fr and not getattr(e, '_harness', False):
            last = fr[-1]
            res = {'ok': False, 'kind': 'exception:' + type(e).__name__,
                   'msg': 'the code under test raised %s: %s (%s, in %s)'
                          % (type(e).__name__, e, os.path.relpath(last.filename, REPO), last.name),
                   'detail': {'traceback': traceback.format_exc()[-3000:]}}
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)) and not fr:
            # never happens on the unchanged tree: the oracle met a value of another kind than the code used to give
            last = traceback.extract_tb(e.__traceback__)[-1]
            res = {'ok': False, 'kind': 'uninterpretable:' + type(e).__name__,
                   'msg': 'the oracle cannot interpret what the code under test gave: %s: %s (%s:%d)'
                          % (type(e).__name__, e, os.path.basename(last.filename), last.lineno),
                   'detail': {'traceback': traceback.format_exc()[-3000:]}}
        else:
            res = {'ok': None, 'kind': 'harness', 'msg': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        seams.LA.disarm()
    res['digest'] = ctx.digest()
    res['faults'], res['probes'] = dict(ctx.faults), dict(ctx.probes)
    res['states'], res['simtime'], res['steps'] = sorted(ctx.states), ctx.simtime, ctx.steps
    return res


def vclass(res):
    return res['kind'] if res['ok'] is False else None


def batch(prop, seed, tier, w, nw, count, deadline):
    mod = load(prop)
    t0 = MONO()
    idx = range(w, count, nw)
    if os.environ.get('VERIF_REVERSE'):
        idx = reversed(idx)
    seen = set()
    done = []
    for i in idx:
        if MONO() - t0 > deadline:
            emit({'idx': i, 'stopped': True})
            break
        rng = core.rng_for(prop, seed, i)
        plan = mod.gen(rng, tier, i)
        res = run_one(mod, prop, plan, tier)
        res['idx'] = i
        res['plan_hash'] = core.h64(core.canon(plan))
        new = [s for s in res['states'] if s not in seen]
        if len(seen) < 200000:
            seen.update(new)
        res['states'] = new[:5000]
        if i < 3 or res['ok'] is not True:
            res['plan'] = plan
        if res['ok'] is False:
            res['history'] = done[-50:]
        emit(res)
        done.append(i)
        if res['ok'] is False:
            break
    emit({'end': True})


def exec_file(path):
    with open(path) as fh:
        rep = json.load(fh)
    mod = load(rep['property'])
    plans = []
    for i in rep.get('history', []):
        plans.append(mod.gen(core.rng_for(rep['property'], rep['seed'], i), rep['tier'], i))
    for p in plans:
        run_one(mod, rep['property'], p, rep['tier'])
    res = run_one(mod, rep['property'], rep['plan'], rep['tier'])
    res['states'] = len(res['states'])
    emit(res)


def candidates(mod, plan):
    if hasattr(mod, 'shrinks'):
        for c in mod.shrinks(plan):
            yield c
    # ddmin on every list of operations, then drop optional keys, then shrink integers
    for key in ('ops', 'faults', 'events', 'calls', 'threads'):
        v = plan.get(key)
        if isinstance(v, list) and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    c = dict(plan)
                    c[key] = v[:a] + v[a + size:]
                    if len(c[key]) < n:
                        yield c
                size //= 2
    for key in ('fargs', 'marg', 'order', 'yshape'):
        if plan.get(key) is not None:
            c = dict(plan)
            c.pop(key)
            yield c
    d = plan.get('data')
    if isinstance(d, dict) and d.get('N', 0) > 1:
        for n in sorted({1, 2, d['N'] // 2, d['N'] - 1}):
            if 1 <= n < d['N']:
                c = dict(plan)
                c['data'] = dict(d, N=n)
                yield c


def shrink(path, out, seconds):
    with open(path) as fh:
        rep = json.load(fh)
    prop, tier = rep['property'], rep['tier']
    mod = load(prop)
    best = rep['plan']
    res = run_one(mod, prop, best, tier)
    cls = vclass(res)
    tries = 0
    t0 = MONO()
    if cls is not None:
        again = True
        while again and MONO() - t0 < seconds:
            again = False
            for c in candidates(mod, best):
                if MONO() - t0 > seconds:
                    break
                tries += 1
                try:
                    r = run_one(mod, prop, c, tier)
                except BaseException:
                    continue
                if vclass(r) == cls:
                    best, res, again = c, r, True
                    break
    rep['plan'] = best
    rep['violation'] = {'kind': res.get('kind'), 'msg': res.get('msg'), 'detail': res.get('detail')}
    rep['digest'] = res['digest']
    rep['shrink_tries'] = tries
    rep['reproduced_in_shrinker'] = cls is not None
    with open(out, 'w') as fh:
        json.dump(rep, fh, indent=1, sort_keys=True)
    emit({'ok': cls is not None})


def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'batch':
            batch(a[1], int(a[2]), a[3], int(a[4]), int(a[5]), int(a[6]), float(a[7]))
        elif a[0] == 'exec':
            exec_file(a[1])
        elif a[0] == 'shrink':
            shrink(a[1], a[2], float(a[3]))
        elif a[0] == 'gen':
            emit(load(a[1]).gen(core.rng_for(a[1], int(a[2]), int(a[4])), a[3], int(a[4])))
    except BaseException:
        emit({'fatal': traceback.format_exc()})
    finally:
        OUT.flush()
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
        os._exit(0)


if __name__ == '__main__':
    main()
