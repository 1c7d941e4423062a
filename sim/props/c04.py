"""C04: after any update of any run every marginal is a proper Gaussian, and no update aborts the run."""
import numpy as np
import ep
import ref
from core import Violation
from seams import BEND, LINALG, orig
from .common import ep_plan, sprinkle


def fault(rng, op):
    sweep = op[0] == 'S'
    site = rng.choice(['f', 'h', 'model']) if sweep else ('h' if op[0] == 'm' else 'f')
    r = rng.random()
    if r < 0.5:
        return {'site': site, 'bend': rng.choice(sorted(BEND)), 'at': rng.randint(0, 10) if sweep else rng.choice([0, 0, 1]),
                'n': rng.choice([1, 1, 2, 5])}
    if r < 0.7:
        return {'site': site, 'exc': rng.choice(LINALG), 'at': rng.randint(0, 10) if sweep else 0, 'n': 1}
    # solvers only: a failing validation would be indistinguishable from a passing one
    return {'site': 'la', 'kinds': rng.choice([['sp.solve'], ['np.solve'], ['sp.cholesky'], ['sp.solve', 'np.solve'], ['np.cholesky']]),
            'at': rng.randint(0, 25 if sweep else 6), 'n': rng.choice([1, 1, 2, 3])}


def gen(rng, tier, idx):
    kinds = rng.choice([('nl',), ('nl',), ('lin',), ('ungm',), ('ungm',), ('bot',), ('bott',), ('l96',)])
    plan = ep_plan(rng, idx, kinds=kinds, harsh=rng.random() < 0.8, ops=(10, 50), mct=rng.random() < 0.15,
                   powers=[1, 1.0, 0.5, 0.1, 0.02, 0.9, 0.3], dampings=[1, 1.0, 0.9, 0.5, 0.1, 0.02])
    plan['data'].pop('outlier', None)
    if rng.random() < 0.7:
        plan['data']['outlier'] = rng.choice([10.0, 100.0, 1e4, 1e8])
    if rng.random() < 0.25:
        plan['data']['set'] = [[rng.randrange(plan['data']['N']), 0, rng.choice([1e100, -1e100, 1e160, 0.0, 1e-300])]
                               for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3:
        plan['est']['rs'] = rng.choice([1e-6, 1e-3, 1e3, 1e6])
    if rng.random() < 0.3:
        plan['est']['qs'] = rng.choice([1e-6, 1e-3, 1e3, 1e6])
    if rng.random() < 0.4:
        plan['ops'] = sprinkle(rng, plan['ops'], rng.choice([0.05, 0.2]), fault)
    if rng.random() < 0.2:
        plan['ops'].insert(rng.randrange(len(plan['ops']) + 1), ['E', ep.gen_est(rng)])
    plan['rng'] = rng.randrange(1 << 30)
    return plan


def improper(g, d):
    """-> '' or what is wrong with a belief, read through a copy."""
    with np.errstate(all='ignore'):
        P, s = ep.nat_of(g)
        m, C = ep.mom_of(g)
        if m.shape != (d,) or C.shape != (d, d) or P.shape != (d, d) or s.shape != (d,):
            return 'has the wrong shape'
        for name, a in (('mean', m), ('covariance', C), ('precision', P), ('shift', s)):
            if not np.all(np.isfinite(a)):
                return '%s is not finite: %s' % (name, a.tolist())
        for name, a in (('covariance', C), ('precision', P)):
            dg = np.diag(a)
            if not np.all(dg > 0):
                return '%s has a non-positive diagonal: %s' % (name, dg.tolist())
            r = np.sqrt(dg)
            b = a / r[:, None] / r[None, :]          # unit diagonal: independent of the units of the state
            if not np.all(np.abs(b - b.T) <= 1e-8):
                return '%s is not symmetric: %s' % (name, a.tolist())
            if not orig.eigvalsh((b + b.T) / 2)[0] > -1e-11 * d:
                return '%s is not positive definite: %s' % (name, a.tolist())
    return ''


class Run(ep.EPRun):
    def start(self):
        for i, n in enumerate(self.nodes):
            bad = improper(n.marginal, self.S.d)
            if bad:
                raise Violation('improper', 'initial marginal of node %d %s' % (i, bad))

    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        bad = improper(self.nodes[i].marginal, self.S.d)
        if bad:
            raise Violation('improper', '%s: the marginal\'s %s' % (where, bad))
        for j in range(self.N):
            if j != i and not ep.near({'X': pre[j]['X']}, {'X': post[j]['X']}):
                bad = improper(self.nodes[j].marginal, self.S.d)
                if bad:
                    raise Violation('improper', '%s: the marginal of node %d: %s' % (where, j, bad))
        self.ctx.probe('committed' if not ep.same(pre[i], post[i]) else 'skipped')


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += r.N * r.S.dt
