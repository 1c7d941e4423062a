"""C02: every update refines the reference power-EP step; sweeps apply the documented order; re-equipping."""
import numpy as np
import ep
from core import Violation
from .common import ep_plan, sprinkle


def gen(rng, tier, idx):
    plan = ep_plan(rng, idx, harsh=rng.random() < 0.1)
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 2)):
            plan['ops'].insert(rng.randrange(len(plan['ops']) + 1), ['E', ep.gen_est(rng)])
    if rng.random() < 0.15:
        plan['ops'] = sprinkle(rng, plan['ops'], 0.1, lambda r, op: {
            'site': 'h' if op[0] == 'm' else 'f', 'exc': 'LinAlgError', 'at': 0, 'n': 1})
    return plan


class Run(ep.EPRun):
    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        if fired:
            if not ep.same(pre[i], post[i]):
                raise Violation('refinement', where + ': an update whose model function failed had an effect')
            return
        for j in range(self.N):
            if j != i and not ep.same(pre[j], post[j]):
                raise Violation('refinement', '%s changed node %d' % (where, j))
        for k in 'FMB':
            if k != ep.MSG[op] and not ep.same({k: pre[i][k]}, {k: post[i][k]}):
                raise Violation('refinement', '%s changed the %s' % (where, ep.ATTR[k]))
        step = ep.ref_step(self.S, self.e, self.fargs, self.ys, pre, op, i)
        v = ep.judge(self.ctx, pre[i], post[i], op, i, step, where) if step else \
            ep.judge(self.ctx, pre[i], post[i], op, i, None, where)
        self.ctx.probe('%s %s' % (op, v))

    def on_sweep(self, name, order, fault, fz, escaped):
        want = ep.SWEEP_ORDER[name](self.N)
        if escaped is None and order != want:
            raise Violation('sweep-order', '%s applied %s, documented order %s' % (name, order, want))
        self.ctx.probe('sweep ' + name)


def run(plan, ctx):
    r = Run(plan, ctx)
    r.run()
    ctx.simtime += r.N * r.S.dt
