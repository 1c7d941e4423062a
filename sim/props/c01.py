"""C01: marginal = base x product of messages^(1/power) after every update; updates are local."""
import numpy as np
import ep
from core import Violation
from seams import FOREIGN
from .common import ep_plan, sprinkle


def faults(rng, op):
    r = rng.random()
    if r < 0.5:
        site = rng.choice(['f', 'h', 'model']) if op[0] == 'S' else ('h' if op[0] == 'm' else 'f')
        return {'site': site, 'exc': 'LinAlgError' if rng.random() < 0.7 else rng.choice(FOREIGN),
                'at': rng.randint(0, 6) if op[0] == 'S' else rng.choice([0, 0, 1]), 'n': rng.choice([1, 1, 2])}
    return {'site': 'la', 'kinds': rng.choice([['np.cholesky'], ['np.solve'], ['sp.solve'], ['sp.cholesky'],
                                               ['np.cholesky', 'np.solve', 'sp.solve', 'sp.cholesky']]),
            'at': rng.randint(0, 8 if op[0] != 'S' else 30), 'n': rng.choice([1, 1, 2, 3])}


def gen(rng, tier, idx):
    harsh = rng.random() < 0.25
    plan = ep_plan(rng, idx, mct=rng.random() < 0.15, harsh=harsh)
    if rng.random() < 0.5:
        plan['ops'] = sprinkle(rng, plan['ops'], rng.choice([0.05, 0.2, 0.5]), faults)
    if rng.random() < 0.2:   # another damping / linearisation, same power: the product form must survive
        e = dict(ep.gen_est(rng), power=plan['est']['power'])
        plan['ops'].insert(rng.randrange(len(plan['ops']) + 1), ['E', e])
    if rng.random() < 0.15:
        d = plan['sys'].get('d')
        if d:
            m = [round(rng.uniform(-1, 1), 3) for _ in range(d)]
            plan['marg'] = [m, [[(rng.choice([10.0, 100.0]) if i == j else 0.0) for j in range(d)] for i in range(d)]]
    plan['rng'] = rng.randrange(1 << 30)
    return plan


class Run(ep.EPRun):
    def start(self):
        s = ep.snap(self.nodes)
        self.base = [x['X'] for x in s]
        self.runmax = []
        for x in s:
            rm = [np.zeros_like(x['X'][0]), np.zeros_like(x['X'][1])]
            ep.grow(rm, x, self.e['power'])
            self.runmax.append(rm)
            ep.check_shapes(x, self.S.d, 'initial graph')

    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        # after a solver fault a lazily converted belief may be represented by a fall-back solution
        self.la = getattr(self, 'la', False) or bool(fired and fuse.exc_name() == 'LinAlgError' and hasattr(fuse, 'kinds'))
        eq = ep.near if self.la else ep.same
        for j in range(self.N):
            if j != i and not eq(pre[j], post[j]):
                raise Violation('locality', '%s changed node %d' % (where, j))
        for k in 'FMB':
            if k != ep.MSG[op] and k != 'X' and not eq({k: pre[i][k]}, {k: post[i][k]}):
                raise Violation('locality', '%s changed the %s' % (where, ep.ATTR[k]))
        ep.check_shapes(post[i], self.S.d, where)
        if not ep.same(pre[i], post[i]):
            self.ctx.probe('committed')
        elif op == 'b' and i == self.N - 1:
            self.ctx.probe('last-node backward')
        else:
            self.ctx.probe('skipped')
        ep.grow(self.runmax[i], post[i], self.e['power'])
        err = ep.product_error(post[i], self.base[i], self.e['power'],
                               [np.maximum(m, 1e-300) for m in self.runmax[i]])
        if not err <= 1e-9:
            raise Violation('product', '%s: the marginal is not the product of its messages (relative error %.3g)'
                            % (where, err))


def run(plan, ctx):
    r = Run(plan, ctx)
    r.run()
    ctx.simtime += r.N * r.S.dt
