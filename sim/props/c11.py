"""C11: one seed gives one result.

Jobs (simulation, filters, smoothers, EP, sweeps, sampling, model construction) run with the random seed fixed, on fresh objects and again
after other work: other jobs on the same and on other objects, calls that fail half-way, random draws, clock jumps.  Results must have
equal bits.  Every run is executed by two processes with different hash seeds, clocks and histories, which must agree.
Computations that draw nothing must leave numpy's and Python's random state alone.
"""
import gc
import hashlib
import os
import random
import sys
import time
import numpy as np
import ep
import filt
import models
import simdisk
import sweep
from core import Violation
from seams import EXC, Fuse, LINALG, FOREIGN, LA, LA_KINDS

KINDS = ['degen', 'sim', 'sim', 'kf', 'kf', 'ks', 'it', 'ep', 'ep', 'ep', 'mct', 'mct', 'sweep', 'sample', 'build', 'metric']


def gen_job(rng, sysd):
    j = {'kind': rng.choice(KINDS), 'seed': rng.randrange(1 << 31), 'N': rng.choice([1, 2, 3, 5]), 'data': rng.randrange(1 << 30)}
    d = filt.dim(sysd)
    if j['kind'] in ('kf', 'ks'):
        j['obj'] = filt.gen_obj(rng, sysd)
        if rng.random() < 0.2:
            j['obj'].update(kind='KFS', tm=['MCT', 50], mm=['MCT', 50], share=rng.choice([0, 1]))
        j['u'], j['t0'] = rng.choice([None, 0.5]), rng.choice([0.0, 1.0])
    if j['kind'] == 'it':
        j['obj'] = filt.gen_obj(rng, sysd, ('IEKF', 'IEKS'))
        j['iters'] = rng.choice([1, 2, 4, 5])
    if j['kind'] in ('ep', 'mct'):
        j['est'] = ep.gen_est(rng, d=d)
        if j['kind'] == 'mct':
            j['est'].update(tm=['MCT', rng.choice([50, 200])], mm=rng.choice([['MCT', 50], j['est']['mm']]))
        j['sweeps'] = [rng.choice(['kalman_filter', 'kalman_smoother', 'ep_fwd_back_updates', 'ep_fwd_back_updates', 'ep_update'])
                       for _ in range(rng.choice([1, 2, 4]))]
    if j['kind'] == 'sweep':
        j['plan'] = sweep.gen_sweep(rng, mct=0.06, iters=(1, 2))
        j['plan']['seeds'] = j['plan']['seeds'][:2]
    if j['kind'] == 'sample':
        j['n'] = rng.choice([1, 3, 100])
        j['mode'] = rng.choice(['moment', 'natural'])
    if j['kind'] == 'degen':
        j.update(rank=rng.choice([0, 1, 1, 2]), d=rng.choice([1, 2, 3, 4]), eps=rng.choice([0.0, 1e-17, -1e-15, 1e-12, -1e-9]), alpha=rng.choice([1, 0.5, 1e-3]))
    if j['kind'] == 'build':
        j['l96'] = [rng.choice([4, 5, 8]), rng.choice([8, 3.5])]
    return j


def gen(rng, tier, idx):
    sysd = filt.gen_sys(rng)
    jobs = [gen_job(rng, sysd) for _ in range(rng.choice([2, 2, 3]))]
    for j in jobs[1:]:          # several jobs on objects described alike
        if 'obj' in j and 'obj' in jobs[0] and (j['kind'] == 'it') == (jobs[0]['kind'] == 'it') and rng.random() < 0.5:
            j['obj'] = jobs[0]['obj']
        if 'est' in j and 'est' in jobs[0] and rng.random() < 0.5:
            j['est'] = jobs[0]['est']
    ops = []
    for _ in range(rng.randint(4, 10)):
        r = rng.random()
        if r < 0.55:
            op = ['run', rng.randrange(len(jobs)), rng.choice(['fresh', 'shared', 'shared'])]
            if rng.random() < 0.2:          # solvers fail on the way, and fall-backs are used
                op.append([rng.choice([0, 0, 1, 2, 4, 9, 20]), rng.choice([1, 1, 2, 50])])
        elif r < 0.7:
            op = ['fail', rng.randrange(len(jobs)), {'exc': rng.choice(LINALG + tuple(FOREIGN)), 'at': rng.choice([0, 1, 2, 5, 9]), 'site': rng.choice(['model', 'la'])}]
        elif r < 0.85:
            op = ['draw', rng.choice(['np', 'py', 'seed']), rng.randrange(1 << 30)]
        else:
            op = [rng.choice(['gc', 'clock', 'alloc', 'err'])]
        ops.append(op)
    return {'sys': sysd, 'jobs': jobs, 'ops': ops + [['run', k, rng.choice(['fresh', 'shared'])] for k in range(len(jobs))]}


def shrinks(plan):
    return iter(())


BASE, SHIFT, CALLS = [0.0], [0.0], [0]


def clock():
    """The simulated clock: advances with every reading, jumps when the plan says so."""
    CALLS[0] += 1
    return 1.7e9 + BASE[0] + SHIFT[0] + 1e-6 * CALLS[0]


def setup(scratch):
    group = os.environ.get('VERIF_GROUP', 'a')
    BASE[0] = 0.0 if group == 'a' else 86400.0 * 3650 + 0.123
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, clock)
    pid = os.getpid()
    os.getpid = lambda: pid if group == 'a' else pid + 777
    if group == 'b':                    # another history
        np.random.seed(4711)
        np.random.randn(1000)
        random.seed(4711)
        keep = [object() for _ in range(5000)]
        setup.keep = keep[::7]


def rng_bits():
    s = np.random.get_state()
    return hashlib.sha256(repr(s[0]).encode() + s[1].tobytes() + repr(s[2:]).encode()).hexdigest() + \
        hashlib.sha256(repr(random.getstate()).encode()).hexdigest()


class Objects:
    """The objects jobs work with; shared ones are built once per run."""

    def __init__(self, sysd):
        self.S = models.build(sysd)
        self.made = {}

    def get(self, key, make):
        if key not in self.made:
            self.made[key] = make()
        return self.made[key]


def arr(*xs):
    out = []
    for x in xs:
        x = np.asarray(x)
        out.append(repr((x.dtype.str, x.shape)).encode() + x.tobytes())
    return b'|'.join(out)


def perform(j, O, ctx, fresh):
    """-> bytes.  The global seed has just been set."""
    S, k = O.S, j['kind']
    if k == 'sim':
        return b'|'.join(arr(x, y) for x, y in S.repo.simulate(j['N']))
    if k in ('kf', 'ks', 'it'):
        _, ys = models.make_data(S, j['N'], j['data'], 0.0, t_zero=j.get('t0', 0.0) if k != 'it' else 0.0)
        meas = [y.copy() for y in ys]
        obj = O.get(repr(j['obj']), lambda: filt.make_obj(S, j['obj']))
        if k == 'it':
            return b'|'.join(filt.listbits(obj(meas, **filt.given('few', num_iter=j['iters']))))
        f = obj.kalman_filter(meas, t_zero=j['t0'], u=j['u'])
        out = filt.listbits(f)
        if k == 'ks':
            out += filt.listbits(obj.kalman_smoother(f, u=j['u'], t_zero=j['t0']))
        return b'|'.join(out)
    if k in ('ep', 'mct', 'metric'):
        _, ys = models.make_data(S, j['N'], j['data'], 0.0)
        est = O.get('est' + repr(j.get('est')), lambda: ep.make_estimator(S, j.get('est') or {'tm': ['UT', 1, 2, 3], 'mm': ['TT'], 'power': 1, 'damping': 1}))
        nodes, _ = ep.build_graph(S, est, ys)
        for s in j.get('sweeps', ['ep_fwd_back_updates']):
            ep.run_sweep(s, nodes)
        out = [a.tobytes() for n in nodes for a in ep.mom_of(n.marginal)]
        for n in nodes:
            for name in ('forward_factor', 'measurement_factor', 'back_factor'):
                out += [a.tobytes() for a in ep.nat_of(getattr(n, name))]
        if k == 'metric':
            from Utils.Metrics import node_metrics
            out.append(repr(node_metrics(nodes, [np.zeros((1, S.d))] * j['N'])).encode())
        return b'|'.join(out)
    if k == 'sweep':
        sw = O.get('sweep', lambda: {}).setdefault(repr(j['plan']), None) or sweep.Sweep(j['plan'], ctx)
        if not fresh:
            O.made['sweep'][repr(j['plan'])] = sw
        return sw.golden().digest()
    if k == 'sample':
        g = O.get('g' + j['mode'], lambda: filt.gaussian(S.m0, S.P0, j['mode']))
        return arr(g.sample(j['n']), S.repo.system_noise.sample(), S.repo.measurement_noise.sample(2), g.sample(j['n']))
    if k == 'degen':
        return degenerate(j)
    if k == 'build':
        from Systems import L96
        from Systems import UniformNonlinearGrowthModel, BearingsOnlyTracking, BearingsOnlyTrackingTurn
        s = L96(dim=j['l96'][0], F=j['l96'][1])
        out = [arr(s.init_state.mean, s.init_state.cov, s.system_noise.cov, s.measurement_noise.cov)]
        for c in (UniformNonlinearGrowthModel, BearingsOnlyTracking, BearingsOnlyTrackingTurn):
            s = c()
            out.append(arr(s.init_state.mean, s.init_state.cov, s.system_noise.cov, s.measurement_noise.cov))
        return b'|'.join(out)


def degenerate(j):
    """Beliefs at and beyond the edge of positive definiteness, where the fall-backs of the linear algebra are used."""
    from StateModel import Gaussian
    from MomentMatching import TaylorTransform, UnscentedTransform
    from Utils.linalg import jittered_chol, jittered_solve
    d = j['d']
    rs = models.rs_of('degenerate', j['data'])
    L = rs.randn(d, d)
    L[:, j['rank']:] = 0
    C = L @ L.T + j['eps'] * np.eye(d)
    C = (C + C.T) / 2
    m = rs.randn(d)
    out = []

    def f(x):
        return 0.5 * x

    def attempt(fn):
        try:
            out.append(arr(*fn()))
        except (np.linalg.LinAlgError, ValueError) as e:
            out.append(type(e).__name__.encode())
    for T in (UnscentedTransform(d, alpha=j['alpha']), TaylorTransform(d)):
        attempt(lambda: T(f, Gaussian(m, C)))
        attempt(lambda: T(f, Gaussian.from_natural(C, m)))
    g, h = Gaussian(m, C), Gaussian.from_natural(C, m)
    for fn in (lambda: (g.precision, g.shift), lambda: (h.mean, h.cov), lambda: (g.chol_cov,), lambda: (h.chol_cov,), lambda: (g.nll(m),),
               lambda: ((g * h).mean,), lambda: ((g / g).cov,), lambda: (jittered_chol(C),), lambda: (jittered_solve(C, np.eye(d)),),
               lambda: (g == g.copy(),)):
        attempt(fn)
    return b'|'.join(out)


def draws(j):
    """Does the job legitimately consume random numbers?"""
    if j['kind'] in ('sim', 'sample', 'sweep', 'mct'):
        return True
    o, e = j.get('obj') or {}, j.get('est') or {}
    return 'MCT' in repr((o.get('tm'), o.get('mm'), e.get('tm'), e.get('mm')))


def run(plan, ctx):
    with np.errstate(all='ignore'):
        simdisk.install()
        SHIFT[0], CALLS[0] = 0.0, 0
        shared = Objects(plan['sys'])
        first = {}
        jobs = plan['jobs']
        try:
            for n, op in enumerate(plan['ops']):
                step(plan, ctx, n, op, shared, first, jobs)
        finally:
            LA.disarm()
        for k in sorted(first):
            ctx.event(k, first[k])
    ctx.simtime += sum(j['N'] * shared.S.dt for j in jobs)


def step(plan, ctx, n, op, shared, first, jobs):
    what = op[0]
    if what == 'run':
        k, how = op[1], op[2]
        if k >= len(jobs):
            return
        j = jobs[k]
        # values derived while solvers fail may be kept by the objects they were derived for
        O = Objects(plan['sys']) if how == 'fresh' or len(op) > 3 else shared
        np.random.seed(j['seed'])
        random.seed(j['seed'])
        before = rng_bits()
        la = op[3] if len(op) > 3 and j['kind'] not in ('sweep', 'build') else None
        try:
            if la:
                LA.arm(LA_KINDS, la[0], la[1])
            out = perform(j, O, ctx, how == 'fresh')
        except np.linalg.LinAlgError as e:      # an honest numerical failure is a result too
            out = ('LinAlgError: %s' % e).encode()
            ctx.probe('job ended in LinAlgError')
        except ValueError:
            if not la:
                raise
        fired = LA.disarm() if la else 0
        after = rng_bits()
        ctx.steps += j['N']
        if not draws(j) and before != after:
            raise Violation('draws', 'operation %d: %s consumed random numbers' % (n, describe(j)))
        if j['kind'] == 'sweep' and before != after:
            ctx.probe('sweep leaves the process another random state')
        if fired:
            ctx.fault('solver failure in a run')        # the result may be another one
            return
        if k in first and first[k] != out:
            raise Violation('result', 'operation %d: %s on %s objects, with the seed it had before, gives another result after %s'
                            % (n, describe(j), how, [o[0] for o in plan['ops'][:n]]))
        first.setdefault(k, out)
        ctx.state(j['kind'], how, tuple(o[0] for o in plan['ops'][max(0, n - 3):n]))
    elif what == 'fail':
        k, f = op[1], op[2]
        if k >= len(jobs) or jobs[k]['kind'] in ('sweep', 'build', 'sample'):
            return
        np.random.seed(jobs[k]['seed'] // 2)
        if f['site'] == 'la':
            LA.arm(LA_KINDS, f['at'], 1)
            try:
                perform(jobs[k], shared, ctx, False)
            except np.linalg.LinAlgError:
                pass
            if LA.disarm():
                ctx.fault('solver failure in other work')
            return
        with Fuse(shared.S.taps, f['exc'], f['at']) as fz:
            try:
                perform(jobs[k], shared, ctx, False)
            except BaseException as e:
                if not any(x is r for r in fz.raised for x in (e, e.__cause__)) and not isinstance(e, np.linalg.LinAlgError):
                    raise
        if fz.fired:
            ctx.fault('%s in other work' % f['exc'])
    elif what == 'draw':
        ctx.fault('random numbers drawn by other work')
        if op[1] == 'np':
            np.random.seed(op[2] % (1 << 32))
            np.random.randn(1 + op[2] % 50)
        elif op[1] == 'py':
            random.seed(op[2])
            random.random()
        else:
            np.random.seed(op[2] % (1 << 32))
    elif what == 'clock':
        SHIFT[0] += [3600.0, -7200.0, 1e6][n % 3]
        ctx.fault('clock jump')
    elif what == 'gc':
        gc.collect()
    elif what == 'alloc':
        plan.setdefault('_keep', []).append([bytearray(100 + i) for i in range(200)])
        del plan['_keep']
    elif what == 'err':
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            np.seterr(all='ignore')


def describe(j):
    return {'sim': 'simulation', 'kf': 'filtering', 'ks': 'smoothing', 'it': 'iterated filtering or smoothing', 'ep': 'expectation propagation',
            'mct': 'Monte Carlo expectation propagation', 'sweep': 'a sweep', 'sample': 'sampling', 'build': 'constructing models',
            'metric': 'scoring', 'degen': 'projecting and reading degenerate beliefs'}[j['kind']] + ' (%s)' % (j.get('obj') or j.get('est') or '')
