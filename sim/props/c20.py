"""C20: the cached Lorenz-96 initial condition survives crashes.

Histories of constructions, in one process after another or in two processes at once, with a path, without one, with the path of a file that
does not exist, in any dimension and forcing; file operations fail or are cut short, processes are killed and power is lost at any operation.
A construction without a fault of its own must succeed and start from the state computed for its dimension and forcing, bit for bit.
"""
import importlib
import os
import random
import sys
import numpy as np
import models
import simfs
import simthread
from core import Violation, SimCrash

LAST = {}
ROOT = {}
GOLD = {}
MEMO = {}
COMBOS = [(4, 8), (5, 8), (5, 3), (40, 8), (1, 2), (3, 5.5), (2, 1)]


def setup(scratch):
    ROOT['dir'] = scratch
    import Systems.L96   # noqa


def gen(rng, tier, idx):
    combos = rng.sample(COMBOS, rng.choice([1, 1, 2, 3]))
    ev = []
    for _ in range(rng.randint(2, 7)):
        e = {'how': 'one', 'c': [call(rng, combos)]}
        r = rng.random()
        if r < 0.25:
            e['how'] = 'two'
            e['c'] = [call(rng, combos) for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.6:
                for c in e['c']:
                    c['combo'] = e['c'][0]['combo']
            e['sched'] = {'seed': rng.randrange(1 << 30), 'style': rng.choice(['coin', 'prio']), 'p': rng.choice([0.8, 0.5, 0.2])}
        elif r < 0.35:
            e['how'] = 'again'               # another construction in the process of the last one
        for c in e['c']:
            r = rng.random()
            if r < 0.4:
                c['crash'] = {'at': rng.randrange(rng.choice([4, 6, 10])), 'mode': rng.choice(['before', 'after', 'torn', 'torn']), 'cut': round(rng.random(), 3)}
            elif r < 0.7:
                ops = ['write', 'write', 'write', 'sync', 'rename', 'create', 'unlink', 'read', 'open', 'any']
                if c['path'] == 'own' or c['path'] == 'default' and rng.random() < 0.4:
                    ops = ['open', 'read', 'read', 'any']
                c['fault'] = {'op': rng.choice(ops),
                              'at': rng.choice([0, 0, 0, 1, 2, 3, 6]), 'n': rng.choice([1, 1, 2, 50]),
                              'err': rng.choice(['EIO', 'ENOSPC', 'ENOSPC', 'short', 'short', 'EACCES', 'EDQUOT']), 'cut': rng.choice([0, 0.1, 0.5, 0.99])}
        if rng.random() < 0.35:
            e['power'] = rng.randrange(1 << 30)
        ev.append(e)
    return {'combos': combos, 'events': ev, 'real': rng.random() < 0.02}


def call(rng, combos):
    return {'combo': rng.randrange(len(combos)), 'path': rng.choice(['none', 'none', 'default', 'default', 'default', 'default', 'missing', 'own'])}


def fresh():
    """The class as a newly started process sees it."""
    mod = importlib.reload(sys.modules['Systems.L96'])
    mod = copy_module(mod)
    return mod


def copy_module(mod):
    spec = importlib.util.spec_from_file_location('Systems.L96', mod.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    f = getattr(m, 'f', None)
    if f is not None and ROOT.get('memo', True):
        m.f = Memo(f)
    return m


class Memo:
    """Model steps seen before in this worker are not computed again: one initial condition takes a second of them."""

    def __init__(self, f):
        self.f = f

    def __call__(self, x, *a, **k):
        if type(x) is not np.ndarray or a:
            return self.f(x, *a, **k)
        key = (x.tobytes(), x.shape, tuple(sorted(k.items())))
        if key not in MEMO:
            if len(MEMO) > 30000:
                MEMO.clear()
            MEMO[key] = self.f(x, **k)
        return MEMO[key].copy()


def golden(combo):
    """The initial state of a construction nothing interferes with, and that nothing was cached for."""
    key = tuple(combo)
    if key not in GOLD:
        d, F = combo
        m = fresh()
        clear()
        x = state(m.L96(dim=d, F=F), d)
        if not np.all(np.isfinite(x)) or np.abs(x).max() > 10 * (abs(F) + 1):
            raise Violation('state', 'the initial state in dimension %d with forcing %g is %s' % (d, F, x.tolist()))
        reference(x, d, F)
        GOLD[key] = x.tobytes()
        clear()
    return GOLD[key]


def reference(x, d, F):
    """Where the model is not chaotic, the state is that of an independent integration."""
    out = []
    for eps in (0.0, 1e-13, -1e-13):
        y = F * np.ones(d)
        y[0] += 0.01 + eps
        for _ in range(999):
            k1 = models.l96_rhs(y, F)
            k2 = models.l96_rhs(y + 0.025 * k1, F)
            k3 = models.l96_rhs(y + 0.025 * k2, F)
            y = y + 0.05 / 6 * (k1 + 2 * k2 + 2 * k3 + models.l96_rhs(y + 0.05 * k3, F))
        out.append(y)
    spread = max(np.abs(o - out[0]).max() for o in out)
    if spread < 1e-9 and np.abs(x - out[0]).max() > 1e4 * spread + 1e-8:
        raise Violation('state', 'the initial state in dimension %d with forcing %g is %s, integration gives %s' % (d, F, x.tolist(), out[0].tolist()))


def clear():
    for f in os.listdir(logdir()):
        os.remove(os.path.join(logdir(), f))


def logdir():
    return os.path.join(ROOT['dir'], 'log')


def state(system, d):
    g = system.init_state
    x = np.array(g.mean, dtype=float)
    if x.shape != (d,):
        raise Violation('state', 'the initial state has shape %s in dimension %d' % (x.shape, d))
    if np.asarray(g.cov).shape != (d, d):
        raise Violation('state', 'the initial covariance has shape %s in dimension %d' % (np.asarray(g.cov).shape, d))
    return x


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        clear()
        self.gold = [golden(c) for c in plan['combos']]
        clear()
        self.own = []
        for k, (d, F) in enumerate(plan['combos']):
            x = np.sin(np.arange(d) * 1.3 + k) * 2
            np.save(self.own_path(k), x)
            self.own.append(x.tobytes())
        self.fs = simfs.FS(logdir(), ctx)
        self.fs.adopt()
        self.mod = fresh()

    def own_path(self, k):
        return '../log/own_%d.npy' % k

    def path(self, c):
        d, F = self.plan['combos'][c['combo']]
        return {'none': None, 'default': '../log/L96_initial_condition_F_%s_dim_%d.npy' % (F, d),
                'missing': '../log/no_such_%d.npy' % c['combo'], 'own': self.own_path(c['combo'])}[c['path']]

    def construct(self, mod, c, who, where, alone=True):
        d, F = self.plan['combos'][c['combo']]
        p = self.fs.procs[who]
        try:
            x = state(mod.L96(dim=d, F=F, init_cond_path=self.path(c)), d)
        except SimCrash:
            if not p.get('crashed'):
                raise
            return 'crashed'
        except Violation:
            raise
        except (OSError, ValueError, EOFError) as e:
            if p['dead']:
                return 'crashed'
            if p['fired'] and isinstance(e, OSError):
                return 'failed'
            raise Violation('construction', '%s: fails with %s: %s' % (where, type(e).__name__, e))
        except Exception as e:
            if p['dead']:
                return 'crashed'
            raise Violation('construction', '%s: fails with %s: %s' % (where, type(e).__name__, e))
        want = self.own[c['combo']] if c['path'] == 'own' else self.gold[c['combo']]
        if x.tobytes() != want:
            raise Violation('state', '%s: starts from another state than %s' % (where, 'its file holds' if c['path'] == 'own' else 'the one computed'))
        if c['path'] in ('none', 'missing') and alone and not p['fired'] and not p.get('crash'):
            self.cached(c, where)
        return 'ok'

    def cached(self, c, where):
        """What was computed is in the cache for the next construction."""
        self.fs.solo, who = None, self.fs.solo
        try:
            got = np.load(self.path(dict(c, path='default'))).tobytes()
        except FileNotFoundError:
            raise Violation('cache', '%s: leaves no cache file' % where)
        finally:
            self.fs.solo = who
        if got != self.gold[c['combo']]:
            raise Violation('cache', '%s: the cache file holds another state than the one it starts from' % where)

    def text(self, n, c):
        d, F = self.plan['combos'][c['combo']]
        return 'construction %d (dim=%d, F=%g, path %s)' % (n, d, F, c['path'])

    def run(self):
        n = 0
        for e in self.plan['events']:
            self.fs.procs = {}
            if e['how'] == 'two':
                mods = [fresh() for _ in e['c']]
                for i, c in enumerate(e['c']):
                    self.fs.begin(i, c.get('fault'), c.get('crash'))
                s = simthread.Scheduler(dict(e['sched']), self.ctx)
                self.fs.switching = True

                def task(i, c, k):
                    return lambda: self.construct(mods[i], c, i, self.text(k, c) + ' beside others', False)
                with self.fs:
                    out = s.run([task(i, c, n + i) for i, c in enumerate(e['c'])])
                for r, exc in out:
                    if exc is not None:
                        raise exc
                self.ctx.fault('process switch', len(s.switches) - 1)
                out = [r for r, _ in out]
                self.mod = None
            else:
                c = e['c'][0]
                if e['how'] != 'again' or self.mod is None:
                    self.mod = fresh()
                self.fs.begin('solo', c.get('fault'), c.get('crash'))
                self.fs.solo = 'solo'
                with self.fs:
                    out = [self.construct(self.mod, c, 'solo', self.text(n, c))]
                self.fs.solo = None
            n += len(e['c'])
            if 'crashed' in out and 'solo' in self.fs.procs:
                self.mod = None
            for o in out:
                self.ctx.probe(o)
            self.ctx.steps += sum(p['ops'] for p in self.fs.procs.values())
            if e.get('power') is not None:
                self.fs.power_loss(random.Random(e['power']))
                self.mod = None
            self.ctx.event(repr(self.fs.log[-40:]), out)
            self.ctx.state([c['path'] for c in e['c']], out, e.get('power') is not None, self.listing())
            self.ctx.simtime += 50.0 * len(out)
        # afterwards: every combination, loaded or computed, in a new process, without faults
        for k in range(len(self.plan['combos'])):
            for path in ('default', 'none', 'default', 'own'):
                c = {'combo': k, 'path': path}
                self.fs.procs = {}
                self.fs.begin('solo')
                self.fs.solo = 'solo'
                with self.fs:
                    self.construct(fresh(), c, 'solo', self.text(n, c) + ' after the last fault')
                self.fs.solo = None
                n += 1

    def listing(self):
        out = []
        for f in sorted(os.listdir(logdir())):
            out.append((f.split('.')[0], os.path.getsize(os.path.join(logdir(), f))))
        return out


def run(plan, ctx):
    ROOT['memo'] = not plan['real']
    try:
        Run(plan, ctx).run()
    finally:
        ROOT['memo'] = True
