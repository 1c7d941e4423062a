"""C03: a failed update has no effect, stops nothing, and leaves no trace that a repetition could show.

Two executions in lock-step: A runs the plan with its faults (failed operations are usually retried),
B runs the same operations without faults, leaving out what failed and was not retried.  They must agree.
"""
import numpy as np
import ep
from core import Violation
from seams import FOREIGN, LINALG
from .common import ep_plan, sprinkle


def fault(rng, op, maptap):
    sweep = op[0] == 'S'
    r = rng.random()
    if r < 0.25:
        # 'sp.*' calls may be absorbed by the jittered fall-back; 'np.*' calls are the projections and the validation
        kinds = rng.choice([['np.cholesky'], ['np.cholesky'], ['np.solve'], ['np.cholesky', 'np.solve'], ['sp.solve'],
                            ['sp.cholesky'], ['np.cholesky', 'np.solve', 'sp.solve', 'sp.cholesky']])
        if rng.random() < 0.15:
            return {'site': 'la', 'kinds': ['sp.cholesky'], 'at': rng.randint(0, 4) if sweep else 0, 'n': 1}
        return {'site': 'la', 'kinds': kinds, 'at': rng.randint(0, 25 if sweep else 5), 'n': rng.choice([1, 1, 1, 2, 4])}
    f = {'exc': rng.choice(LINALG) if rng.random() < 0.6 else rng.choice(FOREIGN), 'n': rng.choice([1, 1, 1, 2, 3])}
    if maptap and r < 0.5:
        f.update(site='map', when=rng.choice(['hook', 'post']), at=rng.randint(0, 8) if sweep else 0)
    else:
        site = rng.choice(['f', 'h', 'model']) if sweep else ('h' if op[0] == 'm' else 'f')
        f.update(site=site, when=rng.choice(['hook', 'hook', 'post']), at=rng.randint(0, 10) if sweep else rng.choice([0, 0, 1]))
    if not sweep and rng.random() < 0.7:
        f['retry'] = rng.choice([1, 1, 2])
    return f


def gen(rng, tier, idx):
    plan = ep_plan(rng, idx, harsh=rng.random() < 0.1)
    plan['maptap'] = int(rng.random() < 0.5)
    plan['ops'] = sprinkle(rng, plan['ops'], rng.choice([0.1, 0.3, 0.6]), lambda r, op: fault(r, op, plan['maptap']))
    return plan


class Twin(ep.EPRun):
    """B: plain execution, no oracle."""

    def update(self, op, i, call, fault, fuse=None, in_sweep=False):
        call()

    def play(self, op, i):
        getattr(self.nodes[i], ep.KIND[op])()


class Run(ep.EPRun):
    def start(self):
        self.twin = Twin(self.plan, self.ctx)
        self.blur = False          # a solver fault was absorbed: the lock-step comparison is off from here
        self.failed = []
        self.last_fired = False

    def same(self, a, b):
        return ep.near(a, b) if self.blur else ep.same(a, b)

    def do(self, op):
        fault = op[2] if len(op) > 2 else None
        self.last_fired = False
        super().do(op)
        if op[0] in ep.KIND and op[1] < self.N:
            retried = False
            if fault and self.last_fired:
                for _ in range(fault.get('retry', 0)):
                    self.update(op[0], op[1], lambda: getattr(self.nodes[op[1]], ep.KIND[op[0]])(), None)
                    self.ctx.probe('retried')
                    retried = True
                    break
            if not (fault and self.last_failed) or retried:
                self.twin.play(op[0], op[1])
            self.compare('after %s(node %d)%s' % (ep.KIND[op[0]], op[1], ' failed and repeated' if retried else ''))

    def compare(self, where):
        if self.blur:
            return
        a, b = ep.snap(self.nodes), ep.snap(self.twin.nodes)
        for i in range(self.N):
            if not ep.near(a[i], b[i], 1e-7):
                raise Violation('trace-of-failure', '%s: node %d differs from a run without the failures' % (where, i))
        self.ctx.probe('lock-step comparisons')

    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        la = fuse is not None and hasattr(fuse, 'kinds')
        self.last_fired = bool(fired)
        self.last_failed = False
        changed = [j for j in range(self.N) if not self.same(pre[j], post[j])]
        if not fired:
            if escaped is not None:
                raise Violation('escaped', '%s raised %r' % (where, escaped))
            return
        if la and any(k.startswith('sp.') for k in fuse.kinds):
            self.blur = True
            changed = [j for j in range(self.N) if not self.same(pre[j], post[j])]
        if la and changed == [i]:
            # the failing call had a fall-back: a complete update is fine, half of one is not
            d = [post[i]['X'][k] - pre[i]['X'][k] - (post[i][ep.MSG[op]][k] - pre[i][ep.MSG[op]][k]) / self.e['power']
                 for k in (0, 1)]
            sc = [max(np.max(np.abs(post[i][m][k])) for m in 'XFMB') + max(np.max(np.abs(pre[i][m][k])) for m in 'XFMB')
                  for k in (0, 1)]
            if any(np.max(np.abs(d[k])) > 1e-8 / self.e['power'] * max(sc[k], 1e-300) for k in (0, 1)):
                raise Violation('half-update', where + ': a failing solver left half an update')
            step = ep.ref_step(self.S, self.e, self.fargs, self.ys, pre, op, i)
            v = ep.judge(self.ctx, pre[i], post[i], op, i, step, where + ' with a failing solver', faulted=True, fallback=True)
            if v == 'commit':
                self.ctx.probe('absorbed failure, result as prescribed')
            self.blur = True
            self.ctx.probe('absorbed by a fall-back')
            return
        self.last_failed = True
        if changed:
            raise Violation('effect', '%s failed but changed node(s) %s' % (where, changed))
        exc = fuse.exc_name()
        if exc in LINALG:
            if escaped is not None:
                raise Violation('escaped', '%s: a linear-algebra failure reached the caller: %r' % (where, escaped))
            self.ctx.probe('linear-algebra failure contained')
        else:
            if escaped is None:
                raise Violation('swallowed', '%s: %s raised by a model function was swallowed' % (where, exc))
            self.ctx.probe('foreign exception propagated')

    def update(self, op, i, call, fault, fuse=None, in_sweep=False):
        self.last_failed = False
        super().update(op, i, call, fault, fuse, in_sweep)
        if in_sweep and not self.last_failed:
            self.good.append((op, i))

    def sweep(self, name, fault=None):
        self.good = []
        super().sweep(name, fault)
        for op, i in self.good:
            self.twin.play(op, i)
        self.compare('after the sweep ' + name)

    def on_sweep(self, name, order, fault, fz, escaped):
        want = ep.SWEEP_ORDER[name](self.N)
        if escaped is None:
            if order != want:
                raise Violation('sweep-stopped', '%s applied %s, expected %s' % (name, order, want))
        else:
            if order != want[:len(order)]:
                raise Violation('sweep-order', '%s applied %s' % (name, order))
            self.ctx.probe('sweep aborted by a foreign exception')


def run(plan, ctx):
    r = Run(plan, ctx)
    r.run()
    ctx.simtime += r.N * r.S.dt
