"""C09: filter objects keep no memory: every call is judged against the textbook recursion, whatever came before."""
import copy
import numpy as np
import classic
import ep
import filt
import models
from core import Violation
from seams import Fuse, LA, FOREIGN, LINALG


def gen(rng, tier, idx):
    s = filt.gen_sys(rng)
    objs = [filt.gen_obj(rng, s) for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    small = s['kind'] in ('bot', 'bott', 'l96')
    for _ in range(rng.randint(3, 6 if small else 9)):
        j = rng.randrange(len(objs))
        k = objs[j]['kind']
        what = rng.choice(['kf', 'kf', 'ks', 'ks', 'step'] if k == 'KFS' else ['it', 'it', 'it', 'kf', 'ks', 'step'])
        c = {'obj': j, 'what': what, 'N': rng.choice([1, 2, 3, 4, 6]), 'seed': rng.randrange(1 << 30),
             'yshape': rng.choice(['vec', 'mat', 'arr', 'col']),
             't0': rng.choice([0.0, 0.0, 1.0, 2.5, -1.0]), 'u': rng.choice([None, None, 0.5, -1.0]),
             'prior': rng.choice([None, None, 'moment', 'natural']), 'iters': rng.choice([1, 2, 3, 5, 5]), 'args': rng.choice(['all', 'few']),
             'pick': rng.randrange(1 << 20), 'outlier': rng.choice([0, 0, 0, 5.0])}
        if rng.random() < 0.3:
            site = rng.choice(['f', 'h', 'model', 'la', 'la', 'model'])
            c['fault'] = {'site': site, 'at': rng.randint(0, 12), 'exc': rng.choice(LINALG + tuple(FOREIGN))}
            if site == 'la':
                c['fault']['kinds'] = rng.choice([['np.solve'], ['np.solve'], ['sp.cholesky'], ['sp.cholesky'], ['np.cholesky']])
            c['retry'] = rng.choice([0, 1])
        calls.append(c)
    return {'sys': s, 'objs': objs, 'calls': calls, 'interleave': rng.choice([0, 0, 1])}


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.S = models.build(plan['sys'])
        self.cache = {}
        self.objs = [filt.make_obj(self.S, o, self.cache) for o in plan['objs']]
        self.kept = []         # (filtered list, t0, u, object) of successful calls

    def run(self):
        for n, c in enumerate(self.plan['calls']):
            if c['obj'] >= len(self.objs):
                continue
            failed = self.call(n, c, c.get('fault'))
            if failed and c.get('retry'):
                self.call(n, c, None)

    def prepare(self, c):
        """-> (thunk, args to watch, judge) for one call."""
        S, o = self.S, self.plan['objs'][c['obj']]
        obj = self.objs[c['obj']]
        E = filt.ref_est(S, o)
        u, t0 = c['u'], c['t0']
        rs = models.rs_of('call', c['seed'])
        _, ys = models.make_data(S, c['N'], c['seed'], c['outlier'], t_zero=t0, us=[u] * c['N'])
        meas = ep.shape_meas(ys, c['yshape'])
        prior, pm = None, (S.m0, S.P0)
        if c['prior'] is not None:
            sd = np.sqrt(np.diag(S.P0))
            pm = (S.m0 + 0.3 * sd * rs.randn(S.d), S.P0 * rs.uniform(0.5, 1.5))
            prior = filt.gaussian(pm[0], pm[1], c['prior'])
            pm = ep.mom_of(prior)
        watch = [('the measurements', lambda: b''.join(np.asarray(m).tobytes() for m in meas))]
        if prior is not None:
            watch.append(('the prior', lambda: filt.bits(prior)))
        kw = filt.given(c['args'], prior_state=prior, t_zero=t0, u=u)
        it = filt.given(c['args'], num_iter=c['iters'])
        what = c['what']
        if what == 'ks':
            if not self.kept:
                what = 'kf'
            else:
                flt, ft0, fu = self.kept[c['pick'] % len(self.kept)]
                a = c['pick'] % len(flt)
                flt = flt[a:]
                ft0 = ft0 + a * S.dt
                watch = [('the filtered estimates', lambda: b''.join(filt.listbits(flt)))]
                want = lambda: classic.run_smoother(S, E, [classic.const(*ep.mom_of(g)) for g in flt], ft0, fu)
                return 'kalman_smoother', (lambda: obj.kalman_smoother(flt, **filt.given(c['args'], u=fu, t_zero=ft0))), watch, want, None
        if what == 'kf':
            return 'kalman_filter', (lambda: obj.kalman_filter(meas, **kw)), watch, \
                (lambda: classic.run_filter(S, E, ys, pm, t0, u)), (t0, u)
        if what == 'step':
            if prior is None:
                prior = filt.gaussian(*pm)
                watch.append(('the prior', lambda: filt.bits(prior)))

            def step():
                p = obj.predict(prior, t=t0, u=u)
                return [p, obj.correct(p, meas[0].squeeze(), t=t0, u=u)]

            def want():
                FZ = classic.fzs()
                p = classic.predict(E.tm, lambda x: S.f(x, t=t0, u=u), lambda x: S.Df(x, t=t0, u=u), E.Q, classic.const(*pm), FZ)
                return [p, classic.correct(E.mm, lambda x: S.h(x, t=t0, u=u), lambda x: S.Dh(x, t=t0, u=u), E.R, ys[0], p, FZ)]
            return 'predict and correct', step, watch, want, None
        if o['kind'] == 'IEKF':
            return 'IEKF(num_iter=%d)' % c['iters'], (lambda: obj(meas, **it, **kw)), watch, \
                (lambda: classic.run_iekf(S, E, ys, pm, t0, u, c['iters'])), (t0, u)
        _, ys = models.make_data(S, c['N'], c['seed'], c['outlier'])
        meas[:] = ep.shape_meas(ys, c['yshape']) if isinstance(meas, list) else np.array(ys)
        return 'IEKS(num_iter=%d)' % c['iters'], (lambda: obj(meas, **it)), watch, \
            (lambda: classic.run_ieks(S, E, ys, c['iters'])), None

    def model_bits(self):
        S = self.S
        return filt.bits(S.repo.init_state) + np.asarray(S.repo.system_noise.cov).tobytes() + \
            np.asarray(S.repo.measurement_noise.cov).tobytes()

    def call(self, n, c, fault):
        S = self.S
        name, thunk, watch, want, keep = self.prepare(c)
        before = [(w, f()) for w, f in watch]
        mb = self.model_bits()
        out, err, fired = None, None, 0
        self.ctx.steps += c['N']
        inner = []
        if self.plan['interleave'] and n % 2 and fault is None and len(self.objs) > 1:
            # while this call runs, the model function it calls uses another filter object
            other = self.objs[(c['obj'] + 1) % len(self.objs)]
            m2 = ep.shape_meas(models.make_data(S, 2, 5)[1], 'vec')

            def hook(tap, a, k):
                if inner or not isinstance(a[0], np.ndarray):
                    return
                inner.append(1)
                try:
                    other.kalman_filter(m2)
                except np.linalg.LinAlgError:
                    pass
            S.taps[0].hook = hook
        try:
            if fault is None:
                out = thunk()
            elif fault['site'] == 'la':
                LA.arm(fault['kinds'], fault['at'], 1)
                try:
                    out = thunk()
                finally:
                    fired = LA.disarm()
            else:
                taps = {'f': S.taps[:1], 'h': S.taps[1:], 'model': S.taps}[fault['site']]
                with Fuse(taps, fault['exc'], fault['at']) as fz:
                    try:
                        out = thunk()
                    finally:
                        fired = fz.fired
        except BaseException as e:
            err = e
            if not fired and not isinstance(e, np.linalg.LinAlgError):
                raise
        finally:
            S.taps[0].hook = None
        if inner:
            self.ctx.fault('re-entrant use of another filter')
        where = 'call %d: %s on object %d' % (n, name, c['obj'])
        for (w, b), (_, f) in zip(before, watch):
            if f() != b:
                raise Violation('arguments', '%s changed %s' % (where, w))
        if self.model_bits() != mb:
            raise Violation('arguments', where + ' changed the model')
        self.ctx.event(name, type(err).__name__, [] if out is None else filt.listbits(out))
        self.ctx.state(self.plan['objs'][c['obj']]['kind'], name, c['N'], type(err).__name__, len(self.kept))
        if fired:
            self.ctx.fault('%s in %s' % (fault['exc'] if fault['site'] != 'la' else 'LinAlgError', fault['site']))
            if err is None and fault['site'] != 'la':
                raise Violation('failure', '%s: a failure inside the call (%s) was swallowed' % (where, fault))
            if err is not None:
                return True
            where += ' recovering from a solver failure'
            classic.FALLBACK = True
        try:
            exp = want()
        finally:
            classic.FALLBACK = False
        if err is not None:
            if all(b.ok for b in exp):
                raise Violation('refinement', '%s raised %r' % (where, err))
            self.ctx.probe('not positive definite')
            return False
        if len(out) != len(exp):
            raise Violation('refinement', '%s returned %d estimates, expected %d' % (where, len(out), len(exp)))
        for k, (g, b) in enumerate(zip(out, exp)):
            v = classic.judge(ep.mom_of(g), b, '%s, estimate %d' % (where, k))
            self.ctx.probe(name.split('(')[0] + ' ' + v)
        if keep is not None and not fired:
            self.kept.append((out, keep[0], keep[1]))
        return False


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += sum(c['N'] for c in plan['calls']) * r.S.dt
