"""C18: concurrent runs that share model, estimator, transforms, measurements and prior do not disturb each other.

Two to four inference runs execute in simulated threads, switched at source lines, calls, returns and model calls of the plan's choosing.
Each must end with bit for bit the result it has when it runs alone on fresh objects; model calls of some runs fail, which must not touch
the others; the shared objects must be unchanged afterwards.
"""
import copy
import os
import numpy as np
import ep
import filt
import models
import simthread
from core import Violation, canon
from seams import EXC, LINALG, FOREIGN
from .common import ep_plan

LAST = {}


ROOT = os.environ.get('VERIF_REPO', '/repo')


def setup(scratch):
    simthread.instrument(ROOT)
    with simthread.locks():
        load()


def load():
    import ExpectationPropagation.Iterations, ExpectationPropagation.Nodes, Filters.KalmanFilter, MomentMatching.Estimator   # noqa
    import Utils.Metrics, Systems, StateModel, MomentMatching   # noqa


def gen(rng, tier, idx):
    s = filt.gen_sys(rng)
    d = filt.dim(s)
    K = rng.choice([2, 2, 2, 3])
    N = rng.choice([1, 2, 2, 2, 3])
    e = [ep.gen_est(rng, d=d) for _ in range(rng.choice([1, 1, 1, 2]))]
    tr = [ep.gen_est(rng, powers=[1], dampings=[1], d=d)['tm'] for _ in range(2)]
    if rng.random() < 0.5:
        tr = [e[0]['tm'], e[0]['mm']]                # the estimator's own transforms
    tasks = []
    alike = rng.choice(['ep', 'ep', 'ep', 'ep', 'ep', 'kfs', 'kfs', 'read', None, None])
    for _ in range(K):
        k = alike or rng.choice(['ep', 'ep', 'ep', 'ep', 'kfs', 'kfs', 'iekf', 'ieks', 'read'])
        if k == 'ep':
            t = {'k': k, 'e': rng.randrange(len(e)), 'order': rng.choice(['es', 'se']),
                 'ops': rng.choice([ep.start_ops(rng, N), [['S', 'ep_fwd_back_updates']]]) + ep.gen_ops(rng, N, rng.randint(0, 3)), 'metrics': rng.choice([0, 0, 1]),
                 'marg': rng.choice([None, rng.randrange(1 << 30), rng.randrange(1 << 30)])}
            for _ in range(rng.choice([0, 0, 1])):
                t['ops'].insert(rng.randrange(len(t['ops']) + 1), [rng.choice(['copy', 'build'])])
        elif k == 'kfs':
            t = {'k': k, 'prior': rng.choice([0, 1]), 'rounds': rng.choice([1, 1, 2])}
        elif k in ('iekf', 'ieks'):
            t = {'k': k, 'iters': rng.choice([1, 2, 3])}
        else:
            t = {'k': k, 'reads': [rng.choice(['mean', 'cov', 'precision', 'shift', 'chol_cov', 'copy', 'nll', 'mul', 'pow', 'div', 'eq', 'str'])
                                   for _ in range(rng.randint(2, 8))]}
        if rng.random() < 0.15 and k != 'read':
            t['fault'] = {'exc': rng.choice(LINALG + tuple(FOREIGN)), 'at': rng.randrange(12), 'n': rng.choice([1, 1, 3])}
        tasks.append(t)
    if rng.random() < 0.1:                            # the same run several times: most likely to collide
        tasks[1:] = [copy.deepcopy(tasks[0]) for _ in tasks[1:]]
    return {'sys': s, 'N': N, 'seed': rng.randrange(1 << 30), 'est': e, 'tr': tr, 'threads': tasks, 'share': rng.choice([0, 1, 1]),
            'pmode': rng.choice(['moment', 'moment', 'natural']), 'yshape': rng.choice(['vec', 'mat', 'arr', 'col']),
            'fargs': ep.gen_fargs(rng, N),
            'scheds': gen_scheds(rng)}


def gen_scheds(rng):
    out = [{'seed': rng.randrange(1 << 30), 'style': rng.choice(['coin', 'prio', 'stall']), 'p': rng.choice([0.3, 0.1, 0.03, 0.01])}]
    n = 6
    for j in range(n):         # hold threads up right after a store into an object; together the schedules cover these points
        out.append({'seed': rng.randrange(1 << 30), 'style': 'stop', 'p': 0, 'hot': [[1, round((j + rng.random()) / n, 4)]]})
    for _ in range(2):
        out.append({'seed': rng.randrange(1 << 30), 'style': 'stop', 'p': rng.choice([0, 0.002, 0.01]),
                    'hot': [[rng.choice([0, 0, 1]), round(rng.random(), 4)] for _ in range(rng.choice([1, 2, 4, 8]))]})
    return out


class World:
    """Everything the runs share."""

    def __init__(self, plan):
        self.S = S = models.build(plan['sys'])
        self.plan = plan
        if plan['pmode'] == 'natural':
            S.repo.init_state = filt.gaussian(S.m0, S.P0, 'natural')
        self.xs, ys = models.make_data(S, plan['N'], plan['seed'])
        self.meas = ep.shape_meas(ys, plan['yshape'])
        self.fargs = ep.farg_list(plan, S)
        cache = {}

        def tr(spec):
            return cache.setdefault(repr(spec), ep.make_transform(spec, S.d))
        self.est = [ep.make_estimator(S, e) for e in plan['est']]
        if plan['share']:
            for e, est in zip(plan['est'], self.est):
                est.trans_map, est.meas_map = tr(e['tm']), tr(e['mm'])
        self.tr = [tr(t) for t in plan['tr']]
        self.belief = filt.gaussian(S.m0, S.P0, plan['pmode'])
        self.calls, self.raised, self.fired = {}, {}, {}
        for t in S.taps:
            t.hook = self.tap

    def tap(self, tap, a, k):
        s = simthread.CUR
        if s is None or not s.inside():
            return
        s.point()
        i = self.label(s.current)
        c = self.calls[i] = self.calls.get(i, -1) + 1
        f = self.plan['threads'][i].get('fault')
        if f and f['at'] <= c < f['at'] + f['n']:
            e = EXC[f['exc']]()
            self.raised.setdefault(i, []).append(e)
            self.fired[i] = self.fired.get(i, 0) + 1
            raise e

    def shared_bits(self):
        S = self.S
        out = [ep.env_arrays(S, self.meas), filt.bits(self.belief), repr(self.fargs)]
        for e in self.est:
            out += [e.transition_noise.tobytes(), e.measurement_noise.tobytes(), e.power, e.damping]
        return repr(out)

    def task(self, i):
        t = self.plan['threads'][i]

        def body():
            with np.errstate(all='ignore'):
                try:
                    return getattr(self, 'do_' + t['k'])(t)
                except BaseException as e:
                    if isinstance(e, np.linalg.LinAlgError):
                        return 'LinAlgError'
                    if any(e is r for r in self.raised.get(i, [])):
                        return 'injected ' + type(e).__name__
                    raise
        return body

    # -- the runs
    def graph(self, t):
        from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
        nodes = build_nodes(N=self.plan['N'], dim=self.S.d)
        if t['marg'] is not None:
            rs = models.rs_of('marg', t['marg'])
            for n in nodes:
                n.marginal = filt.gaussian(self.S.m0 + 0.3 * np.sqrt(np.diag(self.S.P0)) * rs.randn(self.S.d), self.S.P0 * rs.uniform(0.3, 3))
        est, sysm = self.est[t['e']], self.S.repo
        if t['order'] == 'es':
            nodes = node_estimator(nodes=nodes, estimator=est)
        nodes = node_system(nodes=nodes, system_model=sysm, measurements=self.meas, farg_list=self.fargs)
        if t['order'] == 'se':
            nodes = node_estimator(nodes=nodes, estimator=est)
        return nodes

    def do_ep(self, t):
        nodes = self.graph(t)
        out = []
        for op in t['ops']:
            try:
                if op[0] in ep.KIND:
                    if op[1] < len(nodes):
                        getattr(nodes[op[1]], ep.KIND[op[0]])()
                elif op[0] == 'S':
                    ep.run_sweep(op[1], nodes)
                elif op[0] == 'copy':
                    nodes = copy.deepcopy(nodes)
                elif op[0] == 'build':
                    out.append(self.final(nodes))
                    nodes = self.graph(t)
            except np.linalg.LinAlgError:
                raise
            except BaseException as e:
                if not any(e is r for rs in self.raised.values() for r in rs):
                    raise
                out.append(type(e).__name__)
        if t['metrics']:
            from Utils.Metrics import node_metrics
            try:
                out.append(repr(node_metrics(nodes, list(self.xs))))
            except ValueError as e:                   # scipy refuses indefinite covariances
                out.append(str(e))
        return out + self.final(nodes)

    def final(self, nodes):
        return [repr(ep.raw(s)) for s in ep.snap(nodes)]

    def do_kfs(self, t):
        from Filters.KalmanFilter import KalmanFilterSmoother
        f = KalmanFilterSmoother(self.tr[0], self.S.repo, meas_moment_matching=self.tr[1])
        out = []
        for _ in range(t['rounds']):
            r = f.kalman_filter(self.meas, prior_state=self.belief if t['prior'] else None)
            out += filt.listbits(r) + filt.listbits(f.kalman_smoother(r))
        return out

    def do_iekf(self, t):
        from Filters.KalmanFilter import IEKF
        f = IEKF(system_model=self.S.repo, sys_dim=self.S.d)
        r = f(self.meas, num_iter=t['iters'])
        return filt.listbits(r) + filt.listbits(f.kalman_smoother(r))

    def do_ieks(self, t):
        from Filters.KalmanFilter import IEKS
        f = IEKS(system_model=self.S.repo, sys_dim=self.S.d)
        return filt.listbits(f(self.meas, num_iter=t['iters']))

    def do_read(self, t):
        out = []
        for g in (self.belief, self.S.repo.init_state):
            for r in t['reads']:
                if r in ('mean', 'cov', 'precision', 'shift', 'chol_cov'):
                    out.append(np.asarray(getattr(g, r)).tobytes())
                elif r == 'copy':
                    out.append(filt.bits(g.copy()))
                elif r == 'nll':
                    out.append(repr(g.nll(self.xs[0])))
                elif r == 'eq':
                    out.append(repr(g == self.belief))
                elif r == 'str':
                    out.append(str(g))
                else:
                    h = {'mul': lambda: g * self.belief, 'pow': lambda: g ** 0.5, 'div': lambda: (g * g) / self.belief}[r]()
                    out.append(np.asarray(h.precision).tobytes() + np.asarray(h.shift).tobytes())
        return out


def outcome(r):
    res, exc = r
    return res if exc is None else 'escaped ' + type(exc).__name__ + ': ' + str(exc)


def run(plan, ctx):
    with simthread.locks():
        execute(plan, ctx)


def execute(plan, ctx):
    K = len(plan['threads'])
    alone, known, seen = [], {}, {}
    for i in range(K):
        key = canon(plan['threads'][i])
        if key not in known:
            w = World(plan)
            w.label = lambda j, i=i: i
            s = simthread.Scheduler({'seed': 0, 'trace': 1})
            r = s.run([w.task(i)])[0]
            if r[1] is not None:
                raise r[1]
            known[key] = r[0], list(s.seen)
            if w.fired.get(i):
                ctx.fault('model call: ' + plan['threads'][i]['fault']['exc'], w.fired[i])
        alone.append(known[key][0])
        for l in known[key][1]:
            seen[l] = seen.get(l, 0) + 1
    lines = [l for l in seen if seen[l] > 1] or list(seen) or [None]
    after = [l for l in lines if l is not None and simthread.POINTS[l][4]] or lines
    for k, spec in enumerate(plan['scheds']):
        together(plan, ctx, dict(spec, events=plan['events']) if 'events' in plan else spec, k, alone, lines, after)


def together(plan, ctx, spec, k, alone, lines, after):
    K = len(plan['threads'])
    w = World(plan)
    w.label = lambda j: j
    before = w.shared_bits()
    s = simthread.Scheduler(spec, ctx)
    s.hots = frozenset(pick[min(int(r * len(pick)), len(pick) - 1)] for how, r in spec.get('hot', []) for pick in ((lines, after)[how],))
    LAST['switches'], LAST['k'] = s.switches, k
    got = s.run([w.task(i) for i in range(K)])
    ctx.steps += s.step
    n = len(s.switches)
    ctx.probe('schedules: ' + spec['style'])
    ctx.fault('preemption', n)
    ctx.simtime += plan['N'] * w.S.dt * K
    for i in range(0, n):
        ctx.state(plan['sys']['kind'], [t['k'] for t in plan['threads']], [tuple(x) for x in s.switches[max(0, i - 2):i + 1]])
    for i in range(K):
        ctx.event(repr(alone[i]), s.step, n)
        if outcome(got[i]) != alone[i]:
            raise Violation('disturbed', 'run %d (%s) gives another result next to the others than alone: %s' % (
                i, plan['threads'][i]['k'], difference(got[i], alone[i])))
    if w.shared_bits() != before:
        raise Violation('disturbed', 'the runs changed an object they share')


def difference(got, want):
    o = outcome(got)
    if isinstance(o, str) or isinstance(want, str):
        return '%s instead of %s' % (o if isinstance(o, str) else 'results', want if isinstance(want, str) else 'results')
    if len(o) != len(want):
        return '%d values instead of %d' % (len(o), len(want))
    k = next(k for k in range(len(o)) if o[k] != want[k])
    return 'value %d of %d differs' % (k, len(o))


def shrinks(plan):
    if 'events' not in plan:
        try:
            from core import Ctx
            run(plan, Ctx('C18', 'quick'))
        except Violation:
            pass
        yield dict(plan, scheds=[plan['scheds'][LAST['k']]], events=[list(x) for x in LAST['switches']])
