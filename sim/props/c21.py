"""C21: a belief is one value in both parametrisations, however it is read.

A pool of beliefs, given by moments or by natural parameters, is read, combined, copied, evaluated and sampled by one to three simulated
threads, switched before any statement of the code, with failing solvers.  After every operation the values read must describe the
distribution the belief was built with; what a belief was built from may never change, bit for bit.
"""
import copy
import os
import numpy as np
import ep
import filt
import models
import ref
import simthread
from core import Violation
from seams import LA

ROOT = os.environ.get('VERIF_REPO', '/repo')
LAST = {}
EPS = 2.3e-16


def setup(scratch):
    simthread.instrument(ROOT)
    with simthread.locks():
        load()


def load():
    import StateModel, Utils.Metrics   # noqa


def gen(rng, tier, idx):
    d = rng.choice([1, 1, 2, 2, 3, 4])
    pool = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        pool.append({'mode': rng.choice(['moment', 'natural', 'natural', 'factory', 'product', 'quotient']), 'seed': rng.randrange(1 << 30),
                     'cond': rng.choice([1, 10, 1e3, 1e6]), 'scale': rng.choice([1, 1, 1, 1e-4, 1e4, 1e-7, 1e7])})
    if rng.random() < 0.2:
        pool.append({'mode': rng.choice(['flat', 'vague', 'flatc'])})
    T = rng.choice([1, 1, 2, 2, 3])
    READ = ['mean', 'cov', 'precision', 'shift']
    threads = []
    for _ in range(T):
        ops = []
        for _ in range(rng.randint(2, 10 if T == 1 else 6)):
            i, j = rng.randrange(len(pool)), rng.randrange(len(pool))
            r = rng.random()
            op = [rng.choice(READ), i] if r < 0.45 else [rng.choice(['mul', 'mul', 'div', 'eq']), i, j] if r < 0.65 else \
                ['pow', i, rng.choice([1, 0, 2, 0.5, -1, 0.1, 1 / 3])] if r < 0.72 else \
                [rng.choice(['copy', 'deepcopy', 'nll', 'sqe', 'chol_cov', 'dim', 'str', 'repr', 'metrics', 'all', 'validate']), i]
            if T == 1 and rng.random() < 0.05:
                op = ['sample', i]
            if rng.random() < 0.2:
                op = op + [{'kinds': rng.choice([['sp.solve'], ['sp.solve'], ['np.cholesky', 'sp.cholesky'], ['sp.solve', 'sp.cholesky', 'np.solve', 'np.cholesky']]),
                            'at': rng.choice([0, 0, 0, 1, 2]), 'n': rng.choice([1, 2, 3, 3, 4])}]
            ops.append(op)
        threads.append(ops)
    if T > 1 and rng.random() < 0.5:      # everyone converts the same belief first
        kind = rng.choice([None, None, 'chol_cov', 'chol_cov', 'copy', 'nll'])
        for ops in threads:
            ops.insert(0, [kind or rng.choice(READ), 0])
    sch = {'seed': rng.randrange(1 << 30), 'style': rng.choice(['coin', 'prio', 'stop', 'stop', 'stop'])}
    sch['p'] = rng.choice([0, 0.01, 0.05]) if sch['style'] == 'stop' else rng.choice([0.5, 0.2, 0.05])
    sch['hot'] = [round(rng.random(), 4) for _ in range(rng.choice([1, 2, 4]))]
    return {'d': d, 'pool': pool, 'threads': threads, 'sched': sch}


class Belief:
    """A belief of the pool: the real object, what it was built from, and the distribution it must be."""

    def __init__(self, spec, d, inputs):
        from StateModel import Gaussian
        self.mode = spec['mode']
        self.exact = True
        if self.mode in ('flat', 'flatc', 'vague'):
            self.exact = False                       # stand-ins for 'no information': the two parametrisations differ by design
            self.g = Gaussian.as_factor(d) if self.mode == 'flat' else Gaussian.as_marginal(d) if self.mode == 'vague' else _factor(d)
            return
        rs = models.rs_of('belief', spec['seed'])
        C = models.spd(rs, d, spec['scale'], spec['scale'] * spec['cond'])
        m = rs.randn(d) * np.sqrt(np.diag(C)) * rs.choice([0.1, 1, 10])
        P = np.linalg.inv(C)
        P = (P + P.T) / 2
        s = P @ m
        if self.mode == 'moment':
            ins = [m, C]
            self.g = Gaussian(m, C)
            self.want = (m.copy(), C.copy())
        else:
            ins = [P, s]
            self.want = (P.copy(), s.copy())
            self.exact = np.trace(P) > 1e-9          # less counts as 'no information'
            if self.mode == 'natural':
                self.g = Gaussian(precision_mat=P, shift_vec=s)
            elif self.mode == 'factory':
                self.g = Gaussian.from_natural(P, s)
            elif self.mode == 'product':
                a, b = Gaussian.from_natural(P * 0.25, s * 0.25), Gaussian.from_natural(P * 0.75, s * 0.75)
                self.g = a * b
            else:
                a, b = Gaussian.from_natural(P * 2.0, s * 2.0), Gaussian.from_natural(P * 1.0, s * 1.0)
                self.g = a / b
        inputs += ins


def _factor(d):
    from StateModel.Gaussian import GaussianFactor
    return GaussianFactor(d)


def close(got, want, rel, what, where, shape):
    got = np.asarray(got)
    if got.shape != shape:
        raise Violation('shape', '%s: %s has shape %s, not %s' % (where, what, got.shape, shape))
    err = np.abs(got - want)
    lim = rel * max(np.max(np.abs(want)), 1e-300)
    if not np.all(err <= lim):
        raise Violation('parametrisation', '%s: %s reads %s, the belief has %s' % (where, what, got.tolist(), np.asarray(want).tolist()))


class Truth:
    """Reference values of a proper belief, in the other parametrisation too, with the error the conversion may have."""

    def __init__(self, b, d, jitter):
        if b.mode == 'moment':
            self.mean, self.cov = b.want
            self.precision = np.linalg.inv(self.cov)
            self.shift = self.precision @ self.mean
            X, Y, v = self.cov, self.precision, self.mean
        else:
            self.precision, self.shift = b.want
            self.cov = np.linalg.inv(self.precision)
            self.mean = self.cov @ self.shift
            X, Y, v = self.precision, self.cov, self.shift
        # converting inverts X: relative error cond(X) * eps, plus what jitter on X does
        rel = 1e3 * EPS * np.linalg.cond(X) + 1e-12
        if jitter:
            rel += 3e-10 * np.linalg.norm(Y, 2)
        amp = max(1.0, np.linalg.norm(Y, 2) * np.linalg.norm(v) / max(np.linalg.norm(Y @ v), 1e-300))
        given = 1e-13
        self.rel = {'mean': given, 'cov': given, 'precision': rel, 'shift': rel * amp} if b.mode == 'moment' else \
            {'precision': given, 'shift': given, 'cov': rel, 'mean': rel * amp}

    def check(self, what, got, where):
        close(got, getattr(self, what), self.rel[what], what, where, getattr(self, what).shape)


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx, self.d = plan, ctx, plan['d']
        self.inputs = []
        self.pool = [Belief(s, self.d, self.inputs) for s in plan['pool']]
        self.bits0 = self.in_bits()
        jit = any(isinstance(o[-1], dict) for ops in plan['threads'] for o in ops)
        self.truth = [Truth(b, self.d, jit) if b.exact else None for b in self.pool]
        self.ops = 0

    def in_bits(self):
        return b''.join(a.tobytes() for a in self.inputs)

    def task(self, i):
        def body():
            with np.errstate(all='ignore'):
                for k, op in enumerate(self.plan['threads'][i]):
                    self.do(op, 'thread %d, operation %d: %s' % (i, k, op[:3]))
        return body

    def do(self, op, where):
        spec = op[-1] if isinstance(op[-1], dict) else None
        self.ops += 1
        fired = 0
        try:
            if spec:
                with ep.LaFuse(spec['kinds'], spec['at'], spec['n']) as fz:
                    me = simthread.CUR.current
                    LA.only = lambda: simthread.CUR.current == me
                    try:
                        self.act(op, where)
                    finally:
                        fired = fz.fired
                        LA.only = None
            else:
                self.act(op, where)
        except np.linalg.LinAlgError:
            if not fired and self.pool[op[1]].exact and op[0] not in ('chol_cov', 'validate') and not self.flat(op):
                raise Violation('parametrisation', where + ': LinAlgError reading a proper belief')
        if fired:
            self.ctx.fault('solver: LinAlgError', fired)
        self.ctx.event(op[0], op[1], fired)
        if self.in_bits() != self.bits0:
            raise Violation('operands', where + ': an array a belief was built from has changed')

    def flat(self, op):
        return len(op) > 2 and isinstance(op[2], int) and op[0] in ('mul', 'div', 'eq') and not self.pool[op[2]].exact

    def act(self, op, where):
        k, i = op[0], op[1]
        b, t = self.pool[i], self.truth[i]
        g = b.g
        if k in ('mean', 'cov', 'precision', 'shift'):
            v = getattr(g, k)
            if t is not None:
                t.check(k, v, where)
        elif k in ('mul', 'div', 'pow'):
            c, u = (self.pool[op[2]], self.truth[op[2]]) if k != 'pow' else (None, None)
            h = g * c.g if k == 'mul' else g / c.g if k == 'div' else g ** op[2]
            if t is not None and (k == 'pow' or u is not None):
                for a in ('precision', 'shift'):
                    x = getattr(t, a)
                    y = None if k == 'pow' else getattr(u, a)
                    want = x * op[2] if k == 'pow' else x + y if k == 'mul' else x - y
                    tol = t.rel[a] * np.max(np.abs(x)) * (abs(op[2]) + 1 if k == 'pow' else 1) + (0 if y is None else u.rel[a] * np.max(np.abs(y))) + 1e-300
                    got = np.asarray(getattr(h, a))
                    if got.shape != want.shape or not np.all(np.abs(got - want) <= 2 * tol):
                        raise Violation('combination', '%s: %s is %s, expected %s' % (where, a, got.tolist(), want.tolist()))
        elif k == 'eq':
            r = g == self.pool[op[2]].g
            if op[2] == i and t is not None and not r and max(t.rel.values()) < 1e-5:
                raise Violation('parametrisation', where + ': a belief is not equal to itself')
        elif k in ('copy', 'deepcopy'):
            h = g.copy() if k == 'copy' else copy.deepcopy(g)
            if t is not None:
                for a in ('shift', 'mean', 'precision', 'cov'):
                    t.check(a, getattr(h, a), where + ' (the copy)')
        elif k == 'all':
            for a in ('cov', 'shift', 'mean', 'precision'):
                v = getattr(g, a)
                if t is not None:
                    t.check(a, v, where)
        elif k in ('nll', 'metrics'):
            if t is None:
                return
            x = t.mean + 0.7 * np.sqrt(np.diag(t.cov))
            if k == 'nll':
                v, w = g.nll(x), None
            else:
                from Utils.Metrics import nll, rmse
                v, w = nll([g], [x]), rmse([g], [x])
            r = x - t.mean
            want = 0.5 * (r @ np.linalg.solve(t.cov, r) + np.linalg.slogdet(t.cov)[1] + self.d * np.log(2 * np.pi))
            tol = 10 * (t.rel['cov'] + t.rel['mean'] * np.max(np.abs(t.mean)) / np.sqrt(np.min(np.linalg.eigvalsh(t.cov)))) * np.linalg.cond(t.cov) * self.d + 1e-9
            if tol < 1e-2 and not abs(v - want) <= tol * max(1, abs(want)):
                raise Violation('evaluation', '%s: negative log likelihood %r, the belief has %r' % (where, v, want))
            if w is not None:
                self.sq(t, w, x, where)
        elif k == 'sqe':
            if t is not None:
                x = t.mean + np.sqrt(np.diag(t.cov))
                self.sq(t, np.sqrt(g.squared_error(x)), x, where)
        elif k == 'chol_cov':
            L = np.asarray(g.chol_cov)
            if t is not None:
                close(L @ L.T, t.cov, t.rel['cov'] * 10 + 1e-12 + 3e-10 / np.max(np.abs(t.cov)), 'chol_cov chol_cov^T', where, t.cov.shape)
        elif k == 'dim':
            if g.dim != self.d:
                raise Violation('shape', '%s: dim is %r' % (where, g.dim))
        elif k in ('str', 'repr'):
            str(g), repr(g)
        elif k == 'sample':
            np.random.seed(5)
            x = g.sample(7)
            if np.shape(x) != (7, self.d):
                raise Violation('shape', '%s: 7 samples have shape %s' % (where, np.shape(x)))
            if t is not None:
                z = np.linalg.solve(np.linalg.cholesky(t.cov), (x - t.mean).T)
                if t.rel['cov'] < 1e-6 and t.rel['mean'] * np.max(np.abs(t.mean)) < 1e-3 * np.sqrt(np.min(np.linalg.eigvalsh(t.cov))) and np.abs(z).max() > 8:
                    raise Violation('evaluation', '%s: a sample lies %g standard deviations out' % (where, np.abs(z).max()))
        elif k == 'validate':
            from Utils.linalg import validate_marginal
            validate_marginal(g)

    def sq(self, t, v, x, where):
        want = np.linalg.norm(t.mean - x)
        if not abs(v - want) <= 10 * t.rel['mean'] * np.linalg.norm(t.mean) + 1e-9 * want:
            raise Violation('evaluation', '%s: distance to the mean %r, the belief has %r' % (where, v, want))

    def finish(self):
        """Without faults every belief reads right, in an order nobody chose before."""
        for i, b in enumerate(self.pool):
            for a in ('precision', 'mean', 'shift', 'cov'):
                v = getattr(b.g, a)
                if b.exact:
                    self.truth[i].check(a, v, 'belief %d after the run' % i)
                self.ctx.event(np.asarray(v).tobytes())
            if b.exact:
                m, C, P, s = (np.asarray(getattr(b.g, a)) for a in ('mean', 'cov', 'precision', 'shift'))
                if not np.array_equal(C, C.T) or not np.array_equal(P, P.T):
                    if np.abs(C - C.T).max() > 1e-12 * np.abs(C).max() or np.abs(P - P.T).max() > 1e-12 * np.abs(P).max():
                        raise Violation('parametrisation', 'belief %d: covariance or precision not symmetric' % i)
            self.ctx.state(len(self.pool), b.mode, self.plan['d'], [o[0] for ops in self.plan['threads'] for o in ops][:6])


def run(plan, ctx):
    with simthread.locks():
        r = Run(plan, ctx)
        spec = dict(plan['sched'])
        if 'events' in plan:
            spec['events'] = plan['events']
        s = simthread.Scheduler(spec, ctx)
        ids = [i for i, p in enumerate(simthread.POINTS) if p[0].startswith('StateModel')]
        aft = [i for i in ids if simthread.POINTS[i][4]] or ids
        if ids:
            s.hots = frozenset((ids, aft)[k % 2][min(int(x * len((ids, aft)[k % 2])), len((ids, aft)[k % 2]) - 1)] for k, x in enumerate(plan['sched']['hot'], 1))
        LAST['switches'] = s.switches
        for res, exc in s.run([r.task(i) for i in range(len(plan['threads']))]):
            if exc is not None:
                raise exc
        ctx.fault('preemption', len(s.switches) - 1)
        ctx.steps += r.ops
        ctx.simtime += s.step * 1e-6
        for i in range(len(s.switches)):
            ctx.state([o[0] for ops in plan['threads'] for o in ops], s.switches[max(0, i - 1):i + 1])
        r.finish()


def shrinks(plan):
    if 'events' not in plan:
        try:
            from core import Ctx
            run(plan, Ctx('C21', 'quick'))
        except Violation:
            pass
        yield dict(plan, events=[list(x) for x in LAST['switches']])
    for i, ops in enumerate(plan['threads']):
        for j in range(len(ops)):
            t = [list(o) for o in plan['threads']]
            t[i] = ops[:j] + ops[j + 1:]
            yield dict(plan, threads=t)
