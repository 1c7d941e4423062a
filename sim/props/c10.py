"""C10: a simulated trajectory is the model's recursion and every noise draw is used exactly once.

The noise objects are a seam: their draws are recorded (or replaced by the plan's own values).  The returned
trajectory is re-derived from the recorded draws with independent model functions.
"""
import copy
import numpy as np
import ep
import models
import seams
from core import Violation
from seams import Fuse, EXC, FOREIGN, LINALG


def gen(rng, tier, idx):
    kind = rng.choice(['lin', 'nl', 'nl', 'ident', 'ident', 'ungm', 'bot', 'bott', 'l96'])
    if kind == 'ident':
        s = {'kind': 'ident', 'd': rng.choice([1, 2, 3]), 'seed': rng.randrange(1 << 30), 'dt': rng.choice([1, 0.5, 0.1]),
             'f': rng.choice(['same', 'view', 'neg', 'time', 'const']), 'h': rng.choice(['same', 'view', 'first', 'const'])}
    else:
        s = models.gen_spec(rng, (kind,), dmax=4)
        if kind == 'l96':
            s.update(d=rng.choice([4, 5, 8]), F=rng.choice([8, 3]), delta=rng.choice([0.05, 0.01]))
        if kind in ('bot', 'bott'):
            s['delta'] = rng.choice([0.1, 1, 0.5])
    runs = []
    for _ in range(rng.randint(1, 4)):
        r = {'N': rng.choice([0, 1, 1, 2, 3, 5, 8, 20]), 'x0': rng.choice(['none', 'none', 'given', 'given', 'mean']),
             't0': rng.choice([0.0, 0.0, 1.0, -2.5, 10.0]), 'seed': rng.randrange(1 << 30), 'pos': rng.choice([0, 1])}
        if rng.random() < 0.3:
            r['fault'] = {'site': rng.choice(['f', 'h', 'noise']), 'at': rng.randint(0, 6), 'exc': rng.choice(LINALG + tuple(FOREIGN))}
        if rng.random() < 0.2:
            r['nested'] = rng.randint(0, 3)
        if rng.random() < 0.3:
            r['scribble'] = 1
        runs.append(r)
    return {'sys': s, 'runs': runs, 'noise': rng.choice(['gauss', 'gauss', 'gauss', 'mean', 'own', 'own']),
            'abstract': int(kind in ('lin', 'nl', 'ident') and rng.random() < 0.3)}


def build(plan):
    s = plan['sys']
    from Systems import DynamicSystemModel, GaussianNoise
    from StateModel import Gaussian
    if s['kind'] != 'ident':
        S = models.build(s)
    else:
        S = models.System()
        d = S.d = S.m = s['d']
        if s['h'] == 'first':
            S.m = 1
        rs = models.rs_of('ident', s['seed'])
        S.dt, S.Q, S.R, S.m0, S.P0 = s['dt'], models.spd(rs, d, .1, 1), models.spd(rs, S.m, .1, 1), rs.randn(d), models.spd(rs, d, .2, 2)
        cst, csth = rs.randn(d), rs.randn(S.m)
        fixed_f, fixed_h = cst.copy(), csth.copy()

        def f(x, t=None, u=None):      # may hand back its own argument, or the same array every time
            return {'same': lambda: x, 'view': lambda: x[:], 'neg': lambda: -x, 'time': lambda: x * np.cos(t),
                    'const': lambda: fixed_f}[s['f']]()

        def h(x, t=None, u=None):
            return {'same': lambda: x, 'view': lambda: x[...], 'first': lambda: x[:1], 'const': lambda: fixed_h}[s['h']]()
        S.f = lambda x, t=None, u=None: {'same': x, 'view': x, 'neg': -x, 'time': x * np.cos(t), 'const': cst}[s['f']]
        S.h = lambda x, t=None, u=None: {'same': x, 'view': x, 'first': x[:1], 'const': csth}[s['h']]
        S.constants = [(fixed_f, cst), (fixed_h, csth)]
        S.repo = DynamicSystemModel(system_dim=d, measurement_dim=S.m, transition=f, measurement=h,
                                    system_noise=GaussianNoise(dimension=d, cov=S.Q.copy()),
                                    measurement_noise=GaussianNoise(dimension=S.m, cov=S.R.copy()),
                                    init_distribution=Gaussian(S.m0.copy(), S.P0.copy()), dt=S.dt)
        S.taps = [seams.Tap(S.repo.transition, 'f'), seams.Tap(S.repo.measurement, 'h')]
        S.repo.transition, S.repo.measurement = S.taps
    return S


class Run:
    def __init__(self, plan, ctx):
        from Systems.DynamicSystem import NoiseModel, GaussianNoise, DynamicSystem
        self.plan, self.ctx = plan, ctx
        S = self.S = build(plan)
        self.draws = {'w': [], 'v': []}
        self.noise_fuse = None
        own = models.rs_of('own', plan['sys']['seed'])
        run = self

        class Own(NoiseModel):
            """A noise model of the simulator's own, not Gaussian."""

            def sample(self, size=None):
                return own.uniform(-1, 1, size=self.dimension if size is None else (size, self.dimension))

        sysm = S.repo
        if plan['noise'] == 'own':
            wn, vn = Own(S.d, None), Own(S.m, None)
            wn.cov, vn.cov = S.Q, S.R
        elif plan['noise'] == 'mean':
            self.means = models.rs_of('nm', plan['sys']['seed']).randn(S.d + S.m) * 3
            wn = GaussianNoise(dimension=S.d, cov=S.Q.copy(), mean=self.means[:S.d].copy())
            vn = GaussianNoise(dimension=S.m, cov=S.R.copy(), mean=self.means[S.d:].copy())
        else:
            wn, vn = sysm.system_noise, sysm.measurement_noise
        if plan['noise'] != 'gauss':
            sysm.system_noise, sysm._measurement_noise = wn, vn
        self.noises = (wn, vn)
        for key, n in (('w', wn), ('v', vn)):
            self.tap_noise(key, n)
        if plan['abstract']:
            class Sys(DynamicSystem):
                system_noise, measurement_noise, dt, init_state = wn, vn, S.dt, sysm.init_state

                def transition(self, x, u=None, t=None):
                    return S.taps[0](x=x, t=t)

                def measure(self, x):
                    return S.taps[1](x=x)
            sysm = Sys()
        self.sys = sysm

    def tap_noise(self, key, n):
        real = n.sample

        def sample(*a, **k):
            f = self.noise_fuse
            if f is not None:
                f[1] -= 1
                if f[1] < 0 and not f[2]:
                    f[2] = EXC[f[0]]()
                    raise f[2]
            out = real(*a, **k)
            self.draws[key] += [r.copy() for r in np.asarray(out, dtype=float).reshape(-1, n.dimension)]
            return out
        n.sample = sample

    def run(self):
        if self.plan['noise'] != 'own':
            self.distribution()
        for k, r in enumerate(self.plan['runs']):
            self.sim(k, r)

    def distribution(self):
        """The Gaussian noise objects draw what they are configured to draw (whitened moments of 4000 draws)."""
        S = self.S
        np.random.seed(self.plan['sys']['seed'] & 0xffffff)
        for n, mean, C in ((self.noises[0], 0, S.Q), (self.noises[1], 0, S.R)):
            if self.plan['noise'] == 'mean':
                mean = self.means[:S.d] if n is self.noises[0] else self.means[S.d:]
            if np.linalg.matrix_rank(C) < len(C):
                continue
            X = np.asarray(n.sample(size=4000)).reshape(4000, -1) - mean
            Z = np.linalg.solve(np.linalg.cholesky(C), X.T).T
            if np.max(np.abs(Z.mean(0))) > 6 / np.sqrt(4000) or np.max(np.abs(Z.T @ Z / 4000 - np.eye(len(C)))) > 9 / np.sqrt(4000):
                raise Violation('noise', 'draws of a noise object do not have its mean and covariance')
        self.draws['w'].clear(), self.draws['v'].clear()

    def sim(self, k, r):
        S = self.S
        rs = models.rs_of('x0', r['seed'])
        x0 = None
        if r['x0'] == 'given':
            x0 = S.m0 + np.sqrt(np.diag(S.P0)) * rs.randn(S.d)
        elif r['x0'] == 'mean':
            x0 = self.sys.init_state.mean
        keep = None if x0 is None else x0.copy()
        init = [a.copy() for a in ep.mom_of(self.sys.init_state)]
        np.random.seed(r['seed'])
        self.draws['w'].clear(), self.draws['v'].clear()
        mvn = []
        real = np.random.multivariate_normal

        def spy(mean, cov, size=None, **kw):
            out = real(mean, cov, size=size, **kw) if kw else real(mean, cov, size)
            mvn.append((np.array(mean), np.array(cov), np.array(out)))
            return out
        np.random.multivariate_normal = spy
        err, fz, out = None, None, None
        nested = []
        if 'nested' in r:        # another simulation runs while this one is in progress
            def hook(tap, a, kw):
                c = nested[0] if nested else 0
                nested[:] = [c + 1]
                if c == r['nested']:
                    saved = {q: list(v) for q, v in self.draws.items()}
                    nm = len(mvn)
                    self.sys.simulate(2, x_zero=np.array(S.m0), t_zero=3.0)
                    self.draws.update(saved)
                    del mvn[nm:]
                    self.ctx.fault('simulation inside a simulation')
            S.taps[0].hook = hook
        try:
            if 'fault' in r and 'nested' not in r:
                f = r['fault']
                if f['site'] == 'noise':
                    fz = self.noise_fuse = [f['exc'], f['at'], None]
                else:
                    fz = Fuse(S.taps[:1] if f['site'] == 'f' else S.taps[1:], f['exc'], f['at'])
                    fz.__enter__()
            if r['pos']:
                out = self.sys.simulate(r['N'], x0, r['t0'])
            else:
                out = self.sys.simulate(N=r['N'], x_zero=x0, t_zero=r['t0'])
        except BaseException as e:
            if fz is None or not ((fz is self.noise_fuse and e is fz[2]) or any(e is q for q in getattr(fz, 'raised', []))):
                if not (fz is self.noise_fuse and fz and isinstance(e, RuntimeError) and fz[2]) and \
                        not (isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration)):
                    raise
            err = e
        finally:
            np.random.multivariate_normal = real
            self.noise_fuse = None
            S.taps[0].hook = S.taps[1].hook = None
        fired = fz is not None and (fz[2] is not None if isinstance(fz, list) else fz.fired > 0)
        self.ctx.steps += r['N']
        self.ctx.event(k, type(err).__name__, [] if out is None else [np.asarray(a).tobytes() for xy in out for a in xy])
        self.ctx.state(self.plan['sys']['kind'], r['N'], r['x0'], r['t0'], self.plan['noise'], type(err).__name__, 'nested' in r)
        where = 'simulation %d (N=%d)' % (k, r['N'])
        for a, b in zip(ep.mom_of(self.sys.init_state), init):
            if not np.array_equal(a, b):
                raise Violation('argument', where + ' changed the initial distribution')
        if x0 is not None and not np.array_equal(x0, keep):
            raise Violation('argument', where + ' changed the initial state it was given')
        for a, b in getattr(S, 'constants', []):
            if not np.array_equal(a, b):
                raise Violation('argument', where + ' changed an array the model function returned')
        if fired:
            self.ctx.fault('%s in %s' % (r['fault']['exc'], r['fault']['site']))
            if err is None:
                raise Violation('failure', where + ': a failure inside the simulation was swallowed')
            return
        self.judge(where, r, keep, out, mvn)
        if r.get('scribble'):
            self.independent(where, out, x0)

    def judge(self, where, r, x, out, mvn):
        S = self.S
        if len(out) != r['N']:
            raise Violation('recursion', '%s returned %d steps' % (where, len(out)))
        unused = {q: [d for d in v] for q, v in self.draws.items()}
        for q, v in unused.items():
            if len(v) != r['N']:
                raise Violation('draws', '%s: %d %s-noise draws for %d steps' % (where, len(v), {'w': 'system', 'v': 'measurement'}[q], r['N']))
        if x is None:
            others = [m for m in mvn if m[2].size == S.d and not any(np.array_equal(m[2].ravel(), d) for d in self.draws['w'] + self.draws['v'])]
            if len(others) == 1:
                m, C, x = others[0]
                x = x.ravel()
                if not (np.array_equal(m.ravel(), S.m0) and np.array_equal(C, S.P0)):
                    raise Violation('initial', where + ': the initial state is not drawn from the initial distribution')
                self.ctx.probe('initial draw seen')
            elif not r['N']:
                return
        t = r['t0']
        for k in range(r['N']):
            xk, yk = (np.asarray(a, dtype=float) for a in out[k])
            if xk.size != S.d or yk.size != S.m:
                raise Violation('recursion', '%s: step %d has shapes %s and %s' % (where, k, xk.shape, yk.shape))
            if x is not None:
                self.match(where, k, 'w', 'state', np.asarray(xk).ravel(), np.asarray(S.f(x, t=t), float).ravel(), unused)
            xk = xk.ravel()
            self.match(where, k, 'v', 'observation', yk.ravel(), np.asarray(S.h(xk, t=t), float).ravel(), unused)
            x = xk
            t = r['t0'] + (k + 1) * S.dt

    def match(self, where, k, q, name, got, base, unused):
        res = got - base
        tol = 1e-10 * (np.abs(got) + np.abs(base)) + 1e-12
        for i, d in enumerate(unused[q]):
            if np.all(np.abs(res - d) <= tol + 1e-10 * np.abs(d)):
                del unused[q][i]
                self.ctx.probe(name + ' derived')
                return
        raise Violation('recursion', '%s: %s %d is %s; the model gives %s before noise, and no unused draw makes up the difference'
                        % (where, name, k, got.tolist(), base.tolist()))

    def independent(self, where, out, x0):
        arrs = [np.asarray(a) for xy in out for a in xy] + ([] if x0 is None else [x0])
        ref = [a.copy() for a in arrs]
        for i in range(len(arrs)):
            arrs[i] += 17.0
            ref[i] += 17.0
            for j in range(len(arrs)):
                if not np.array_equal(arrs[j], ref[j]):
                    raise Violation('aliasing', where + ': writing into one returned value changed another')
        if x0 is self.sys.init_state.mean and x0 is not None:
            x0[...] = self.S.m0
        for a, b in getattr(self.S, 'constants', []):
            if not np.array_equal(a, b):
                raise Violation('aliasing', where + ': writing into a returned value changed the model')
        self.ctx.probe('returned values independent')


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += sum(q['N'] for q in plan['runs']) * r.S.dt
