"""C08: filters can be stopped and restarted anywhere; estimates never look ahead; segments smooth at their own times.

One uninterrupted run of the filter gives the reference.  The same measurements are then processed in segments:
by the same object, another object, with the last estimate passed on, deep-copied, or rebuilt from its stored mean and
covariance (a process restart), with failing attempts and unrelated calls in between.
"""
import copy
import numpy as np
import classic
import ep
import filt
import models
from core import Violation
from seams import Fuse, LA, FOREIGN, LINALG


def gen(rng, tier, idx):
    s = filt.gen_sys(rng, harsh=rng.random() < 0.1)
    o = filt.gen_obj(rng, s, kinds=('KFS', 'KFS', 'IEKF', 'IEKS'))
    N = rng.choice([2, 3, 4, 5, 6, 8, 8, 12] + ([30] if rng.random() < 0.2 else []))
    if s['kind'] in ('l96', 'bott') and N > 8:
        N = 8
    plan = {'sys': s, 'obj': o, 'N': N, 'seed': rng.randrange(1 << 30), 'yshape': rng.choice(['vec', 'mat', 'arr', 'col']),
            't0': rng.choice([0.0, 0.0, 1.0, 2.5, -3.0]), 'u': rng.choice([None, None, 0.5]),
            'prior': rng.choice([None, None, 'moment', 'natural']), 'iters': rng.choice([1, 2, 3, 5, 5]), 'args': rng.choice(['all', 'few']),
            'outlier': rng.choice([0, 0, 0, 10.0])}
    cuts, pos, segs = [], 0, []
    while pos < N:
        n = rng.choice([1, 1, 2, 3, N])
        n = min(n, N - pos)
        g = {'n': n, 'how': rng.choice(['pass', 'pass', 'deep', 'rebuild']), 'on': rng.choice(['same', 'same', 'new', 'other'])}
        if rng.random() < 0.35:
            g['fault'] = {'site': rng.choice(['f', 'h', 'model', 'la']), 'at': rng.randint(0, 4 * n),
                          'exc': rng.choice(LINALG + tuple(FOREIGN))}
        if rng.random() < 0.3:
            g['other'] = [rng.choice(['kf', 'it', 'ks']), rng.randint(1, 3), rng.randrange(1 << 20), rng.choice([1, 4])]
        if rng.random() < 0.3:
            g['smooth'] = 1
        if rng.random() < 0.2:
            g['future'] = rng.choice([1.0, 1e3, 'nan'])
        segs.append(g)
        pos += n
    plan['segs'] = segs
    return plan


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.S = S = models.build(plan['sys'])
        self.obj = filt.make_obj(S, plan['obj'])
        self.E = filt.ref_est(S, plan['obj'])
        N = plan['N']
        _, self.ys = models.make_data(S, N, plan['seed'], plan['outlier'], t_zero=plan['t0'], us=[plan['u']] * N)
        self.pm = (S.m0, S.P0)
        self.prior = None
        if plan['prior']:
            sd = np.sqrt(np.diag(S.P0))
            rs = models.rs_of('prior', plan['seed'])
            self.prior = filt.gaussian(S.m0 + 0.3 * sd * rs.randn(S.d), S.P0 * rs.uniform(0.5, 1.5), plan['prior'])
            self.pm = ep.mom_of(self.prior)
        self.iter = plan['obj']['kind'] == 'IEKF'

    def filter(self, obj, ys, prior, t):
        meas = ep.shape_meas(ys, self.plan['yshape'])
        kw = filt.given(self.plan['args'], t_zero=t, u=self.plan['u'], prior_state=prior)
        self.ctx.steps += len(ys)
        if self.iter:
            return obj(meas, **filt.given(self.plan['args'], num_iter=self.plan['iters']), **kw)
        return obj.kalman_filter(meas, **kw)

    def expected(self, ys, pm, t):
        if self.iter:
            return classic.run_iekf(self.S, self.E, ys, pm, t, self.plan['u'], self.plan['iters'])
        return classic.run_filter(self.S, self.E, ys, pm, t, self.plan['u'])

    def compare(self, got, want, where, exact, pm, ys, t):
        if filt.bits(got) == filt.bits(want):
            return
        if exact:
            gm, gC = ep.mom_of(got)
            raise Violation('restart', '%s: mean %s cov %s, the uninterrupted run has mean %s cov %s'
                            % (where, gm.tolist(), gC.tolist(), ep.mom_of(want)[0].tolist(), ep.mom_of(want)[1].tolist()))
        b = self.expected(ys, pm, t)
        classic.judge(ep.mom_of(got), b[-1], where, kind='restart')
        self.ctx.probe('rebuilt estimate not bitwise')

    def run(self):
        plan, S = self.plan, self.S
        fresh = filt.make_obj(S, plan['obj'])
        try:
            full = self.filter(fresh, self.ys, self.prior, plan['t0'])
        except np.linalg.LinAlgError:
            self.ctx.probe('the uninterrupted run is impossible')
            return
        self.full, N = full, plan['N']
        self.fullbits = filt.listbits(full)
        want = self.expected(self.ys, self.pm, plan['t0'])
        for k in range(N):
            classic.judge(ep.mom_of(full[k]), want[k], 'uninterrupted run, estimate %d' % k)
        state, t, pos = self.prior, plan['t0'], 0
        times = [plan['t0']]
        for _ in range(N):
            times.append(times[-1] + S.dt)
        obj, other = self.obj, filt.make_obj(S, plan['obj'])
        for g in plan['segs']:
            n = min(g['n'], N - pos)
            if n <= 0:
                break
            if g['on'] == 'new':
                obj = filt.make_obj(S, plan['obj'])
            elif g['on'] == 'other':
                obj, other = other, obj
            exact = True
            if pos and g['how'] == 'deep':
                state = copy.deepcopy(state)
            elif pos and g['how'] == 'rebuild':       # only mean and covariance survive
                m, C = ep.mom_of(state)
                state = filt.gaussian(m, C)
                exact = False
                self.ctx.fault('process restart with stored moments')
            if g.get('other'):
                self.distract(obj, g['other'])
            seg = self.ys[pos:pos + n]
            where = 'segment %d..%d' % (pos, pos + n - 1)
            if g.get('fault') and self.attempt(obj, seg, state, times[pos], g['fault']):
                where += ' after a failed attempt'
            try:
                out = self.filter(obj, seg, state, times[pos])
            except np.linalg.LinAlgError as e:
                raise Violation('restart', '%s raised %r, the uninterrupted run passed' % (where, e))
            if len(out) != n:
                raise Violation('restart', '%s returned %d estimates' % (where, len(out)))
            for j in range(n):
                self.compare(out[j], full[pos + j], where + ', estimate %d' % (pos + j), exact and self.synced,
                             self.pm, self.ys[:pos + j + 1], plan['t0'])
            if not all(filt.bits(out[j]) == self.fullbits[pos + j] for j in range(n)):
                self.synced = False
            if g.get('future') is not None and pos + n < N:
                self.future(obj, pos + n, g['future'])
            if g.get('smooth'):
                self.smooth(obj, out, times[pos], pos, where)
            self.ctx.event(filt.listbits(out))
            self.ctx.state(plan['obj']['kind'], N, pos, n, g['how'], g['on'], bool(g.get('fault')), bool(g.get('other')))
            state, pos = out[-1], pos + n
        if filt.listbits(full) != self.fullbits:
            raise Violation('restart', 'estimates returned earlier changed afterwards')
        self.tails()

    synced = True

    def attempt(self, obj, seg, state, t, fault):
        """A failing attempt at the segment.  The caller keeps only what it had before."""
        S = self.S
        fired = 0
        try:
            if fault['site'] == 'la':
                LA.arm(['np.solve'], fault['at'], 1)
                try:
                    self.filter(obj, seg, state, t)
                finally:
                    fired = LA.disarm()
            else:
                with Fuse({'f': S.taps[:1], 'h': S.taps[1:], 'model': S.taps}[fault['site']], fault['exc'], fault['at']) as fz:
                    try:
                        self.filter(obj, seg, state, t)
                    finally:
                        fired = fz.fired
        except BaseException:
            if not fired:
                raise
        if fired:
            self.ctx.fault('%s in %s' % (fault['exc'] if fault['site'] != 'la' else 'LinAlgError', fault['site']))
        return fired

    def distract(self, obj, o):
        """An unrelated call on the same object."""
        _, ys = models.make_data(self.S, o[1], o[2])
        meas = ep.shape_meas(ys, 'vec')
        try:
            if o[0] == 'it' and self.plan['obj']['kind'] != 'KFS':
                obj(meas, **filt.given(self.plan['args'], num_iter=o[3]))
            else:
                r = obj.kalman_filter(meas, t_zero=7.0)
                if o[0] == 'ks':
                    obj.kalman_smoother(r, t_zero=7.0)
        except np.linalg.LinAlgError:
            pass
        self.ctx.fault('unrelated call in between')

    def future(self, obj, k, how):
        """The first k estimates with other later measurements."""
        ys = np.array(self.ys)
        ys[k:] = np.nan if how == 'nan' else ys[k:] + how
        try:
            out = self.filter(obj, ys, self.prior, self.plan['t0'])
        except np.linalg.LinAlgError:
            return
        except ValueError:
            if how != 'nan':
                raise
            return
        if filt.listbits(out[:k]) != self.fullbits[:k]:
            raise Violation('look-ahead', 'estimates before measurement %d depend on measurement %d or later' % (k, k))
        self.ctx.probe('look-ahead checked')

    def smooth(self, obj, out, t, pos, where):
        try:
            sm = obj.kalman_smoother(out, **filt.given(self.plan['args'], u=self.plan['u'], t_zero=t))
        except np.linalg.LinAlgError:
            return
        want = classic.run_smoother(self.S, self.E, [classic.const(*ep.mom_of(g)) for g in out], t, self.plan['u'])
        if len(sm) != len(out):
            raise Violation('segment', 'smoothing %s returned %d estimates' % (where, len(sm)))
        for k, (g, b) in enumerate(zip(sm, want)):
            self.ctx.probe('segment smoothed ' + classic.judge(ep.mom_of(g), b, 'smoothing %s, estimate %d' % (where, pos + k), kind='segment'))

    def tails(self):
        """Smoothing the tail of the filtered list, at its own times, is the tail of smoothing the list."""
        plan, N = self.plan, self.plan['N']
        obj = filt.make_obj(self.S, plan['obj'])
        try:
            whole = obj.kalman_smoother(self.full, u=plan['u'], t_zero=plan['t0'])
        except np.linalg.LinAlgError:
            return
        k = plan['seed'] % N
        tail = obj.kalman_smoother(self.full[k:], u=plan['u'], t_zero=plan['t0'] + k * self.S.dt)
        if filt.listbits(whole[k:]) != filt.listbits(tail):
            raise Violation('segment', 'smoothing estimates %d.. alone differs from the tail of smoothing all of them' % k)
        if filt.listbits(self.full) != self.fullbits:
            raise Violation('segment', 'smoothing changed the filtered estimates')
        self.ctx.probe('tails compared')


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += plan['N'] * r.S.dt
