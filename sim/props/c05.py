"""C05: on linear-Gaussian models fair asynchronous schedules reach the exact posterior and stay there."""
import math
import numpy as np
import ep
import models
from core import Violation
from seams import FOREIGN, LINALG, orig
from .common import sprinkle
from . import c01


def gen(rng, tier, idx):
    sysd = models.gen_spec(rng, ('lin',), dmax=3, mmax=3)
    d = sysd['d']
    damping = rng.choice([1, 1, 1.0, 0.9, 0.8, 0.5, 0.3])
    N = rng.choice([1, 2, 2, 3, 4, 5, 6, 8] if damping == 1 else [1, 2, 2, 3, 4])
    est = ep.gen_est(rng, powers=[1, 1, 1.0, 0.8, 0.5, 0.3, 0.1, round(rng.uniform(0.05, 1), 3)], dampings=[damping], d=d)
    plan = {'sys': sysd, 'data': {'N': N, 'seed': rng.randrange(1 << 30)}, 'est': est,
            'fargs': ep.gen_fargs(rng, N), 'order': rng.choice(['es', 'se']), 'yshape': rng.choice(['vec', 'mat', 'arr', 'col']),
            'ops': [], 'sched': rng.randrange(1 << 30), 'mode': rng.choice(['perm', 'perm', 'hostile', 'sweep', 'local'])}
    # an unfair prefix with failures
    if rng.random() < 0.6:
        plan['ops'] = sprinkle(rng, ep.start_ops(rng, N) + ep.gen_ops(rng, N, rng.randint(1, 12)), rng.choice([0, 0.2, 0.6]), c01.faults)
        for op in plan['ops']:
            if len(op) > 2 and op[2]['site'] == 'la':
                op[2]['kinds'] = [k for k in op[2]['kinds'] if k.startswith('np.')] or ['np.cholesky']
    plan['after'] = rng.randint(3, 12)
    return plan


def rounds_needed(N, damping):
    depth = 2 * N + 1
    if damping == 1:
        return depth + 3
    return int((depth + 22 + math.sqrt(44 * depth)) / damping) + 10


def posterior(S, est, fargs, ys, base=1e-10):
    """Exact smoothing marginals from the joint information matrix of x_0 .. x_N."""
    d, N = S.d, len(ys)
    L = np.zeros(((N + 1) * d, (N + 1) * d))
    h = np.zeros((N + 1) * d)
    P0i, Qi, Ri = (orig.inv(a) for a in (S.P0, est.Q, est.R))
    L[:d, :d] += P0i
    h[:d] += P0i @ S.m0
    for k in range(N):
        a, b = slice(k * d, (k + 1) * d), slice((k + 1) * d, (k + 2) * d)
        A, c = S.A(fargs[k]['t']), S.bvec(fargs[k]['t'], fargs[k]['u'])
        L[a, a] += A.T @ Qi @ A
        L[a, b] -= A.T @ Qi
        L[b, a] -= Qi @ A
        L[b, b] += Qi + S.C.T @ Ri @ S.C + base * np.eye(d)
        h[a] -= A.T @ Qi @ c
        h[b] += Qi @ c + S.C.T @ Ri @ (ys[k] - S.cvec)
    cov = orig.inv(L)
    mean = cov @ h
    return [(mean[(k + 1) * d:(k + 2) * d], cov[(k + 1) * d:(k + 2) * d, (k + 1) * d:(k + 2) * d]) for k in range(N)]


def distance(nodes, post):
    """Largest deviation of any marginal from the posterior, in posterior standard deviations."""
    worst = 0.0
    for n, (m, C) in zip(nodes, post):
        gm, gC = ep.mom_of(n.marginal)
        sd = np.sqrt(np.diag(C))
        sc = sd + 1e-3 * np.abs(m)
        e = max(np.max(np.abs(gm - m) / sc), np.max(np.abs(gC - C) / np.outer(sd, sd)))
        worst = max(worst, float(e) if np.isfinite(e) else 1e300)
    return worst


class Run(ep.EPRun):
    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        if ep.same(pre[i], post[i]):
            self.ctx.probe('unchanged')

    def round(self, rs):
        N, mode = self.N, self.plan['mode']
        all_ = [(k, i) for i in range(N) for k in 'fmb']
        if mode == 'sweep':
            return None
        if mode == 'hostile':      # the order in which information travels slowest
            order = [('b', i) for i in range(N)] + [('m', i) for i in reversed(range(N))] + [('f', i) for i in reversed(range(N))]
        elif mode == 'local':
            order = []
            for i in rs.permutation(N):
                order += [('fmb'[k], int(i)) for k in rs.permutation(3)]
        else:
            order = [all_[j] for j in rs.permutation(len(all_))]
        if rs.rand() < 0.2:
            order.insert(rs.randint(len(order) + 1), all_[rs.randint(len(all_))])
        return order

    def finish(self):
        plan, N = self.plan, self.N
        rs = models.rs_of('sched', plan['sched'])
        post = posterior(self.S, ep.ref_estimator(self.S, self.e), self.fargs, self.ys)
        bound = rounds_needed(N, self.e['damping'])
        r = 0
        while True:
            dist = distance(self.nodes, post)
            if dist < 1e-6 and r > 0:
                break
            if r >= bound:
                if dist < 1e-4:
                    break
                raise Violation('convergence', 'after %d fair rounds (bound %d) a marginal is still %.3g posterior '
                                'standard deviations off' % (r, bound, dist))
            order = self.round(rs)
            if order is None:
                ep.run_sweep(['ep_fwd_back_updates', 'ep_update'][rs.randint(2)], self.nodes)
                self.ctx.steps += 3 * N
            else:
                for k, i in order:
                    getattr(self.nodes[i], ep.KIND[k])()
                    self.ctx.steps += 1
            r += 1
            self.ctx.state(N, r, int(np.floor(np.log10(max(dist, 1e-12)))), plan['mode'], self.e['power'], self.e['damping'])
        self.ctx.event('rounds', r, [ep.raw(s)['X'][0] for s in ep.snap(self.nodes)])
        self.ctx.probe('converged in at most %d/10 of the bound' % math.ceil(10.0 * r / bound))
        if self.e['damping'] != 1:     # let the tail of the contraction die out first
            for _ in range(int(6 / self.e['damping'])):
                ep.run_sweep('ep_fwd_back_updates', self.nodes)
        for _ in range(plan['after']):
            k, i = 'fmb'[rs.randint(3)], int(rs.randint(N))
            getattr(self.nodes[i], ep.KIND[k])()
            self.ctx.steps += 1
            dist = distance(self.nodes, post)
            if not dist < 1e-4:
                raise Violation('fixed-point', '%s(node %d) moved a converged graph %.3g standard deviations away'
                                % (ep.KIND[k], i, dist))


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += r.N * r.S.dt
