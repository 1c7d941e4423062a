"""C19: Monte Carlo projections use exactly the drawn samples.

Monte Carlo transforms that record what the projected function is given run inside EP graphs (random schedules), filters and direct calls.
Every projection must have evaluated the function on the configured number of points, freshly drawn from the belief it was given, and return
their sample moments; every EP update must be the power-EP step with those samples.  Drawing fails at seeded points.
"""
import numpy as np
import ep
import filt
import models
import ref
from core import Violation
from seams import EXC, LINALG, FOREIGN
from .common import ep_plan

SIZES = [5, 20, 50, 200, 1000]


def fault(rng):
    return {'exc': rng.choice(LINALG + tuple(FOREIGN)), 'at': rng.choice([0, 0, 0, 1, 2, 4]), 'n': rng.choice([1, 1, 2]),
            'how': rng.choice(['sample', 'sample', 'sample after', 'mvn', 'mvn after'])}


def gen(rng, tier, idx):
    mode = rng.choice(['ep', 'ep', 'ep', 'filter', 'direct', 'direct'])
    if mode == 'ep':
        plan = ep_plan(rng, idx, nmax=5, ops=(6, 20), big=0.0)
        e = plan['est']
        e['tm'] = ['MCT', rng.choice(SIZES)]
        if rng.random() < 0.6:
            e['mm'] = rng.choice([e['tm'], ['MCT', rng.choice(SIZES)]])
        plan['ops'] = [o for o in plan['ops'] if o[0] != 'E']
        plan['ops'] = [o + [fault(rng)] if o[0] in 'fmb' and len(o) == 2 and rng.random() < 0.2 else o for o in plan['ops']]
    elif mode == 'filter':
        plan = {'sys': filt.gen_sys(rng), 'tm': ['MCT', rng.choice(SIZES)], 'mm': ['MCT', rng.choice(SIZES)], 'share': rng.choice([0, 1]),
                'calls': [{'N': rng.choice([1, 2, 4]), 'seed': rng.randrange(1 << 30), 'fault': fault(rng) if rng.random() < 0.3 else None,
                           'smooth': rng.choice([0, 1])} for _ in range(rng.randint(1, 3))]}
    else:
        sysd = models.gen_spec(rng, ('lin', 'nl', 'nl'), dmax=4)
        plan = {'sys': sysd, 'calls': [{'n': rng.choice(SIZES + [2, None, 5000, 12345, 20001, rng.randrange(2, 60000)]), 'seed': rng.randrange(1 << 30), 'mode': rng.choice(['moment', 'natural']),
                                        'f': rng.choice(['f', 'h', 'id', 'const', 'strided']), 'kw': rng.choice([0, 1]), 'same': rng.choice([0, 1]),
                                        'scale': rng.choice([1e-3, 1.0, 1e3]), 'fault': fault(rng) if rng.random() < 0.2 else None}
                                       for _ in range(rng.randint(2, 6))]}
    plan['mode'] = mode
    plan['rng'] = rng.randrange(1 << 31)
    return plan


class DrawFuse:
    """Drawing samples fails: at Gaussian.sample, or at numpy's generator below it."""

    def __init__(self, spec):
        self.spec, self.calls, self.fired, self.raised = spec, 0, 0, []

    def hit(self):
        c = self.calls
        self.calls += 1
        if self.spec['at'] <= c < self.spec['at'] + self.spec['n']:
            self.fired += 1
            e = EXC[self.spec['exc']]()
            self.raised.append(e)
            raise e

    def wrap(self, fn):
        late = self.spec['how'].endswith('after')

        def patched(*a, **k):
            if not late:
                self.hit()
            out = fn(*a, **k)
            if late:
                self.hit()
            return out
        return patched

    def __enter__(self):
        from StateModel import Gaussian
        self.cls = Gaussian
        self.keep = Gaussian.sample, np.random.multivariate_normal
        if self.spec['how'].startswith('sample'):
            Gaussian.sample = self.wrap(Gaussian.sample)
        else:
            np.random.multivariate_normal = self.wrap(np.random.multivariate_normal)
        return self

    def __exit__(self, *e):
        self.cls.sample, np.random.multivariate_normal = self.keep
        return False

    def site_name(self):
        return 'drawing (%s)' % self.spec['how']

    def exc_name(self):
        return self.spec['exc']


class Log:
    """All projections of a run, in order."""

    def __init__(self, ctx):
        self.ctx, self.calls, self.radii = ctx, [], {}

    def fresh(self, z, where):
        """Draws of two projections may not be the same draws: compares Mahalanobis radii."""
        r = np.sqrt(np.sum(z * z, axis=1))
        if len(r) >= 3 and np.ptp(r) > 1e-3:
            key = tuple(np.round(r[:3], 5))
            if key in self.radii:
                raise Violation('reused', '%s: uses the same draws as %s' % (where, self.radii[key]))
            self.radii[key] = where


def watch(spec, d, log, name):
    from MomentMatching import MonteCarloTransform

    class Watch(MonteCarloTransform):
        def __call__(self, func, state):
            X, Y = [], []

            def seen(x, *a, **k):
                X.append(np.array(x, dtype=float))
                y = func(x, *a, **k)
                Y.append(np.array(y, dtype=float))
                return y
            out = super().__call__(seen, state)
            check(log, '%s projection %d' % (name, len(log.calls)), spec[1], state, X, Y, out, d)
            return out

        def __deepcopy__(self, memo):
            return self
    return Watch(dim=d, number_of_samples=spec[1])


def check(log, where, n, state, X, Y, out, d):
    if not X:
        raise Violation('samples', '%s: the function was never evaluated' % where)
    X = np.vstack([x.reshape(-1, d) for x in X])
    Y = np.vstack([y.reshape(len(y) if y.ndim > 1 else (1 if d > 1 or y.ndim == 0 else len(y)), -1) for y in Y])
    n = 10000 if n is None else n
    if len(X) != n or len(Y) != n:
        raise Violation('samples', '%s: the function was evaluated at %d points, %d samples are configured' % (where, len(X), n))
    mean, cov, cross = (np.asarray(o, dtype=float) for o in out)
    log.calls.append((where, X))
    log.ctx.probe('projections')
    my, mx = Y.mean(0), X.mean(0)
    dy, dx = Y - my, X - mx
    want = (my, dy.T @ dy / (n - 1), dx.T @ dy / (n - 1))
    sy = np.abs(Y).max(0) + 1e-300
    sx = np.abs(X).max(0) + 1e-300
    tols = (sy, np.outer(sy, sy), np.outer(sx, sy))
    for what, got, w, t in zip(('mean', 'covariance', 'cross-covariance'), (mean, cov, cross), want, tols):
        if got.size != w.size or not np.all(np.abs(got.reshape(w.shape) - w) <= 1e-11 * t * np.sqrt(n) + 1e-290):
            if np.all(np.isfinite(w)):
                raise Violation('moments', '%s: the %s returned is %s, that of the samples is %s' % (where, what, got.tolist(), w.tolist()))
    m, P = np.array(state.mean, dtype=float).reshape(-1), np.array(state.cov, dtype=float)
    e, V = np.linalg.eigh((P + P.T) / 2)
    if e[0] <= 1e-10 * e[-1]:
        log.ctx.probe('ill-conditioned belief: distribution of draws not tested')
        return
    z = (X - m) @ V / np.sqrt(e)
    if np.any(np.abs(m) > 1e9 * np.sqrt(np.diag(P))):
        return
    log.fresh(z, where)
    if np.all(np.abs(m) < 1e4 * np.sqrt(e[0])) and n > d + 1:
        c = (z - z.mean(0)).T @ (z - z.mean(0)) / (n - 1)
        if np.abs(z.mean(0)).max() * np.sqrt(n) < 1e-7 or np.abs(c - np.eye(d)).max() < 1e-7:
            raise Violation('distribution', '%s: the %d points have exactly the moments of the belief: not the draws' % (where, n))
    if n < 20:
        return
    k = n * d
    chi = (((z * z).sum() / k) ** (1 / 3) - (1 - 2 / (9 * k))) / np.sqrt(2 / (9 * k))
    bad = np.abs(z.mean(0)).max() * np.sqrt(n) > 7 or abs(chi) > 7
    if n >= 200 and d > 1:
        G = z.T @ z / np.sqrt(n)
        bad = bad or np.abs(G - np.diag(np.diag(G))).max() > 9
    if bad:
        raise Violation('distribution', '%s: %d points whitened with the belief have mean %s and mean square %.4g: not drawn from it'
                        % (where, n, z.mean(0).tolist(), (z * z).sum() / k))


class Repeat(list):
    def pop(self, k=0):
        return self[0]


class Run(ep.EPRun):
    def equip_est(self, e):
        est = ep.make_estimator(self.S, e)
        self.mc = Log(self.ctx)
        shared = est.meas_map is est.trans_map
        est.trans_map = watch(e['tm'], self.S.d, self.mc, 'transition')
        if shared:
            est.meas_map = est.trans_map
        elif e['mm'][0] == 'MCT':
            est.meas_map = watch(e['mm'], self.S.d, self.mc, 'measurement')
        return est

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.seen = 0

    def fuse_for(self, fault):
        return DrawFuse(fault)

    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        calls = self.mc.calls[self.seen:]
        self.seen = len(self.mc.calls)
        if fired:
            if not all(ep.same(a, b) for a, b in zip(pre, post)):
                raise Violation('effect', where + ': drawing samples failed (%s) and the update had an effect' % fuse.exc_name())
            if (escaped is None) != (fuse.exc_name() in LINALG):
                raise Violation('effect', where + ': %s while drawing %s' % (fuse.exc_name(), 'was swallowed' if escaped is None else 'escaped'))
            return
        if (self.e['mm'] if op == 'm' else self.e['tm'])[0] != 'MCT':
            return
        if not calls:
            if not all(ep.same(a, b) for a, b in zip(pre, post)):
                raise Violation('effect', where + ': the update had an effect and projected nothing')
            return
        E = ref.Est(['SMP'], ['SMP'], *ep.est_noise(self.S, self.e), self.e['power'], self.e['damping'])
        E.tm.samples = E.mm.samples = Repeat([calls[-1][1]])
        self.ctx.probe('%s %s' % (op, ep.judge(self.ctx, pre[i], post[i], op, i, ep.ref_step(self.S, E, self.fargs, self.ys, pre, op, i), where)))


def run(plan, ctx):
    with np.errstate(all='ignore'):
        np.random.seed(plan['rng'])
        if plan['mode'] == 'ep':
            r = Run(plan, ctx)
            r.run()
            ctx.simtime += r.N * r.S.dt
            return
        log = Log(ctx)
        S = models.build(plan['sys'])
        if plan['mode'] == 'filter':
            from Filters.KalmanFilter import KalmanFilterSmoother
            tm = watch(plan['tm'], S.d, log, 'transition')
            mm = tm if plan['share'] else watch(plan['mm'], S.d, log, 'measurement')
            obj = KalmanFilterSmoother(tm, S.repo, meas_moment_matching=mm)
        for k, c in enumerate(plan['calls']):
            ctx.steps += c.get('N', 5)
            fz = DrawFuse(c['fault']) if c['fault'] else None
            try:
                with fz or np.errstate():
                    if plan['mode'] == 'filter':
                        _, ys = models.make_data(S, c['N'], c['seed'])
                        out = obj.kalman_filter(list(ys))
                        if c['smooth']:
                            obj.kalman_smoother(out)
                        ctx.event(*filt.listbits(out))
                    else:
                        direct(S, c, k, log)
            except np.linalg.LinAlgError:
                ctx.probe('LinAlgError')
            except BaseException as e:
                if fz is None or not any(e is r for r in fz.raised):
                    raise
            if fz is not None and fz.fired:
                ctx.fault('%s: %s' % (fz.site_name(), fz.exc_name()), fz.fired)
            ctx.state(plan['mode'], k, len(log.calls), S.d, S.m)
            ctx.simtime += c.get('N', 1) * S.dt


def direct(S, c, k, log):
    g = filt.gaussian(S.m0, S.P0 * c['scale'], c['mode'])
    if c['same']:
        g = log.__dict__.setdefault('belief', g)
    f = {'f': lambda x: S.f(x, t=0.0, u=None), 'h': lambda x: S.h(x, t=0.0, u=None), 'id': lambda x: x,
         'const': lambda x: np.full((len(x), 2), 3.25), 'strided': lambda x: np.repeat(x, 2, axis=1)[:, ::-2]}[c['f']]
    tr = watch(['MCT', c['n']], S.d, log, 'direct')
    bits = filt.bits(g)
    if c['kw']:
        tr(func=f, state=g)
    else:
        tr(f, g)
    if filt.bits(g) != bits:
        raise Violation('operands', 'a Monte Carlo projection changed the belief it projected')
    log.ctx.event(log.calls[-1][1].tobytes())
