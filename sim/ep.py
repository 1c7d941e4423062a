"""The EP world: factor graphs of the real code driven one update at a time under the simulator."""
import copy
import numpy as np

import models
import ref
from core import Violation
from seams import Fuse, Bend, LA, LA_KINDS, EXC, Tap

UPD = ('fwd_update', 'meas_update', 'back_update')
KIND = {'f': 'fwd_update', 'm': 'meas_update', 'b': 'back_update'}
MSG = {'f': 'F', 'm': 'M', 'b': 'B'}
ATTR = {'X': 'marginal', 'F': 'forward_factor', 'M': 'measurement_factor', 'B': 'back_factor'}


# ---------------------------------------------------------------- code side

def make_transform(spec, d):
    from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
    if spec[0] == 'UT':
        return UnscentedTransform(dim=d, alpha=spec[1], beta=spec[2], kappa=spec[3])
    if spec[0] == 'TT':
        return TaylorTransform(dim=d)
    return MonteCarloTransform(dim=d, number_of_samples=spec[1])


def make_estimator(S, e):
    """e: {'tm','mm','power','damping'[, 'share']} -> the code's Estimator (and its transforms)."""
    from MomentMatching.Estimator import Estimator
    tm = make_transform(e['tm'], S.d)
    mm = tm if e.get('share') and e['tm'] == e['mm'] else make_transform(e['mm'], S.d)
    Q, R = est_noise(S, e)
    return Estimator(trans_map=tm, meas_map=mm, trans_noise=Q.copy(), meas_noise=R.copy(),
                     power=e['power'], damping=e['damping'])


def est_noise(S, e):
    return S.Q * e.get('qs', 1.0), S.R * e.get('rs', 1.0)


def ref_estimator(S, e):
    Q, R = est_noise(S, e)
    return ref.Est(e['tm'], e['mm'], Q, R, e['power'], e['damping'])


def farg_list(plan, S):
    """Transition arguments of every step: explicit, or None for the library's default."""
    fa = plan.get('fargs')
    if fa is None:
        return None
    return [dict(t=a[0], u=(np.array(a[1]) if isinstance(a[1], list) else a[1])) for a in fa]


def ref_fargs(plan, S, N):
    fa = farg_list(plan, S)
    if fa is not None:
        return fa
    out, t = [], 0.0
    for _ in range(N):
        out.append({'t': t, 'u': 0.0})
        t += S.dt
    return out


def build_graph(S, est, ys, fargs=None, order='es', yshape='vec', marg_init=None):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    N = len(ys)
    nodes = build_nodes(N=N, dim=S.d)
    if marg_init is not None:
        from StateModel import Gaussian
        for n in nodes:
            n.marginal = Gaussian(np.array(marg_init[0]), np.array(marg_init[1]))
    meas = shape_meas(ys, yshape)
    if order == 'es':
        nodes = node_estimator(nodes=nodes, estimator=est)
        nodes = node_system(nodes=nodes, system_model=S.repo, measurements=meas, farg_list=fargs)
    else:
        nodes = node_system(nodes=nodes, system_model=S.repo, measurements=meas, farg_list=fargs)
        nodes = node_estimator(nodes=nodes, estimator=est)
    return nodes, meas


def shape_meas(ys, yshape):
    ys = [np.array(y, dtype=float) for y in ys]
    if yshape == 'mat':
        return [y.reshape(1, -1) for y in ys]
    if yshape == 'arr':
        return np.array(ys)
    if yshape == 'col':
        return [y.reshape(-1, 1) for y in ys]
    return ys


# ---------------------------------------------------------------- observation

def nat_of(g):
    """Natural parameters of a belief, read from a shallow copy so that observing caches nothing in the original."""
    c = copy.copy(g)
    LA.paused += 1
    try:
        return np.array(c.precision, dtype=float), np.array(c.shift, dtype=float)
    finally:
        LA.paused -= 1


def mom_of(g):
    c = copy.copy(g)
    LA.paused += 1
    try:
        return np.array(c.mean, dtype=float), np.array(c.cov, dtype=float)
    finally:
        LA.paused -= 1


def snap_node(n):
    return {k: nat_of(getattr(n, a)) for k, a in ATTR.items()}


def snap(nodes):
    return [snap_node(n) for n in nodes]


def raw(s):
    """Bitwise identity of a node snapshot."""
    return {k: (v[0].tobytes() + b'|' + v[1].tobytes(), v[0].shape, v[1].shape) for k, v in s.items()}


def same(a, b):
    return all(a[k][0].shape == b[k][0].shape and a[k][1].shape == b[k][1].shape and
               np.array_equal(a[k][0], b[k][0]) and np.array_equal(a[k][1], b[k][1]) for k in a)


def near(a, b, rel=1e-9):
    """Equal up to the rounding a fall-back solver may leave in a lazily converted belief."""
    for k in a:
        for j in (0, 1):
            x, y = a[k][j], b[k][j]
            if x.shape != y.shape or not np.all(np.abs(x - y) <= rel * max(np.max(np.abs(x)), 1e-300)):
                return False
    return True


def check_shapes(s, d, where):
    for k, (P, sh) in s.items():
        if P.shape != (d, d) or sh.shape != (d,):
            raise Violation('shape', '%s: %s has precision %s and shift %s in dimension %d'
                            % (where, ATTR[k], P.shape, sh.shape, d))


def env_arrays(S, meas):
    """Arrays no update may modify: measurements, prior, noise covariances."""
    st = S.repo.init_state
    pm = mom_of(st)
    out = [np.array(m, dtype=float) for m in meas] + [pm[0], pm[1],
           np.array(S.repo.system_noise.cov, dtype=float), np.array(S.repo.measurement_noise.cov, dtype=float)]
    return b''.join(a.tobytes() for a in out)


# ---------------------------------------------------------------- reference step

def ref_step(S, e, fargs, ys, pre, op, i, prior=None):
    """-> function fz -> result of update `op` ('f','m','b') on node i from the observed pre-state."""
    est = e if isinstance(e, ref.Est) else ref_estimator(S, e)
    if op == 'f':
        a = fargs[i]
        prev = ('prior',) + (prior or (S.m0, S.P0)) if i == 0 else (pre[i - 1]['X'], pre[i - 1]['B'])
        return lambda fz: ref.step_fwd(prev, pre[i], est, lambda x: S.f(x, **a), lambda x: S.Df(x, **a), fz)
    if op == 'm':
        y = np.atleast_1d(np.squeeze(np.asarray(ys[i], dtype=float)))
        return lambda fz: ref.step_meas(pre[i], est, S.h, S.Dh, y, fz)
    if i == len(pre) - 1:
        return None
    a = fargs[i + 1]
    return lambda fz: ref.step_back(pre[i], pre[i + 1], est, lambda x: S.f(x, **a), lambda x: S.Df(x, **a), fz)


def judge(ctx, pre, post, op, i, step, where, faulted=False, fallback=False):
    """Compare one executed update with the reference.  Returns 'commit', 'skip' or 'ill'."""
    msg = MSG[op]
    changed = not same(pre, post)
    if step is None:                       # backward update of the last node
        if changed:
            raise Violation('refinement', where + ': backward update of the last node changed it')
        return 'noop'
    outs = ref.outcomes(step, fallback=fallback)
    kinds = set(k for k, _ in outs)
    if not changed:
        if kinds == {'commit'} and not faulted:
            # a commit may legitimately be invisible only if it reproduces the old values
            r = outs[0][1]
            noises = [o[1] for o in outs[1:]]
            v = compare(pre, r, noises, pre, msg)
            if v[0] == 'bad':
                raise Violation('refinement', where + ': the update had no effect, the reference update commits',
                                diff=v[1])
            return 'ill' if v[0] == 'ill' else 'commit'
        return 'skip'
    if kinds == {'skip'}:   # clearly impossible, in every noisy evaluation
        raise Violation('refinement', where + ': the update committed where the reference must skip (%s)' % outs[0][1])
    if kinds != {'commit'}:
        ctx.probe('boundary')
        return 'ill'
    r = outs[0][1]
    noises = [o[1] for o in outs[1:]]
    v = compare(post, r, noises, pre, msg)
    if v[0] == 'bad':
        raise Violation('refinement', where + ': ' + v[1])
    return v[0] if v[0] == 'ill' else 'commit'


def compare(post, r, noises, pre, msg):
    """post: observed node snapshot; r: reference result."""
    verdict = 'ok'
    sP = ref.scale_mat(r['proj'][0], pre['X'][0], r['marg'][0], r['msg'][0])
    ss = np.sqrt(np.diag(sP)) * (1 + np.max(np.abs(r['mom'][0]) * np.sqrt(np.maximum(np.diag(sP), 0)))) \
        + np.max(np.abs(np.array([r['proj'][1], pre['X'][1], r['marg'][1], r['msg'][1]])), axis=0)
    for name, got, key in (('message', post[msg], 'msg'), ('marginal', post['X'], 'marg')):
        for j, what, sc in ((0, 'precision', sP), (1, 'shift', ss)):
            c = ref.close(got[j], r[key][j], [n[key][j] for n in noises], sc)
            if c == 'bad':
                return 'bad', '%s %s is %s, reference %s' % (name, what, got[j].tolist(), r[key][j].tolist())
            if c == 'ill':
                verdict = 'ill'
    return verdict, ''


# ---------------------------------------------------------------- plan generation

def gen_est(rng, mct=False, powers=None, dampings=None, d=1):
    def tr():
        k = rng.choice(['UT', 'UT', 'TT', 'TT'] + (['MCT'] if mct else []))
        if k == 'UT':
            return ['UT'] + rng.choice([[1, 2, 3], [1, 2, 2], [1, 0, 0.5], [1, 2, 1], [0.5, 2, 1], [1.2, 1, 1], [1, 0, 3 - d if d < 3 else 1]])
        if k == 'TT':
            return ['TT']
        return ['MCT', rng.choice([50, 200])]
    tm = tr()
    mm = tm if rng.random() < 0.4 else tr()
    e = {'tm': tm, 'mm': mm,
         'power': rng.choice(powers or [1, 1, 1.0, 0.5, 0.8, 0.3, 0.1, round(rng.uniform(0.05, 1), 3)]),
         'damping': rng.choice(dampings or [1, 1, 1.0, 0.5, 0.8, 0.2, round(rng.uniform(0.05, 1), 3)])}
    if rng.random() < 0.3:
        e['share'] = 1
    if rng.random() < 0.2:
        e['qs'] = rng.choice([0.5, 2.0])
    if rng.random() < 0.2:
        e['rs'] = rng.choice([0.5, 2.0])
    return e


def gen_fargs(rng, N):
    r = rng.random()
    if r < 0.6:
        return None
    t0 = rng.choice([0.0, 1.0, 2.5])
    dt = rng.choice([1.0, 0.5, 0.3])
    if r < 0.8:
        return [[t0 + k * dt, round(rng.uniform(-1, 1), 3)] for k in range(N)]
    ts = sorted(round(rng.uniform(0, 10), 2) for _ in range(N))     # irregular sampling
    return [[t, rng.choice([0.0, 1.0, -0.5])] for t in ts]


def gen_ops(rng, N, n, sweeps=True, cover=False):
    """A schedule: mostly local, in random order, sometimes library sweeps, sometimes bursts on one node."""
    ops = []
    mode = rng.choice(['any', 'any', 'walk', 'burst', 'sweep', 'rev'])
    i = 0
    while len(ops) < n:
        r = rng.random()
        if sweeps and (mode == 'sweep' and r < 0.5 or r < 0.05):
            ops.append(['S', rng.choice(['kalman_filter', 'kalman_smoother', 'ep_fwd_back_updates', 'ep_update'])])
        elif mode == 'walk':
            ops.append([rng.choice('fmb'), i])
            i = min(N - 1, max(0, i + rng.choice([-1, 0, 1, 1])))
        elif mode == 'burst':
            k, j = rng.choice('fmb'), rng.randrange(N)
            ops += [[k, j] for _ in range(rng.randint(1, 4))]
        elif mode == 'rev':
            k = rng.choice('fmb')
            ops += [[k, j] for j in reversed(range(N))]
        else:
            ops.append([rng.choice('fmb'), rng.randrange(N)])
    return ops[:n]


def start_ops(rng, N):
    """Give most runs a sensible start so that later updates are not all on vague beliefs."""
    r = rng.random()
    if r < 0.5:
        return [[k, i] for i in range(N) for k in 'fm']
    if r < 0.65:
        return [['S', 'ep_fwd_back_updates']]
    if r < 0.75:
        return [['f', i] for i in range(N)]
    return []


# ---------------------------------------------------------------- recorded library sweeps

class Recorder:
    """Wraps the update attributes of equipped nodes so that library sweeps are seen update by update."""

    def __init__(self, nodes, on):
        self.nodes, self.saved = nodes, []
        for i, n in enumerate(nodes):
            for op, name in KIND.items():
                f = getattr(n, name)
                self.saved.append((n, name, f))
                setattr(n, name, self._wrap(f, op, i, on))

    @staticmethod
    def _wrap(f, op, i, on):
        def call(*a, **k):
            return on(op, i, lambda: f(*a, **k))
        return call

    def restore(self):
        for n, name, f in self.saved:
            setattr(n, name, f)


SWEEP_ORDER = {
    'kalman_filter': lambda N: [(k, i) for i in range(N) for k in 'fm'],
    'kalman_smoother': lambda N: [('b', i) for i in reversed(range(N))],
    'ep_fwd_back_updates': lambda N: [(k, i) for i in range(N) for k in 'fm'] + [('b', i) for i in reversed(range(N))],
    'ep_update': lambda N: [(k, i) for i in range(N) for k in 'fmb'],
}


def run_sweep(name, nodes):
    import ExpectationPropagation.Iterations as It
    return getattr(It, name)(nodes)


# ---------------------------------------------------------------- executor

class EPRun:
    """Executes a plan on the real code; subclasses add oracles in on_update / on_op."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.S = models.build(plan['sys'])
        self.ys = data_of(plan, self.S)
        self.N = len(self.ys)
        self.e = plan['est']
        self.est = self.equip_est(self.e)
        self.fargs = ref_fargs(plan, self.S, self.N)
        self.nodes, self.meas = build_graph(self.S, self.est, self.ys, farg_list(plan, self.S),
                                            plan.get('order', 'es'), plan.get('yshape', 'vec'), plan.get('marg'))
        self.step_no = 0
        self.log = []
        if plan.get('rng') is not None:
            np.random.seed(plan['rng'])

    def equip_est(self, e):
        est = make_estimator(self.S, e)
        if self.plan.get('maptap'):
            tm, mm = est.trans_map, est.meas_map
            self.mtaps = [Tap(tm, 'tm')]
            self.mtaps.append(self.mtaps[0] if mm is tm else Tap(mm, 'mm'))
            est.trans_map, est.meas_map = self.mtaps
        return est

    # -- faults
    def fuse_for(self, fault):
        site = fault['site']
        if site == 'la':
            return LaFuse(fault['kinds'], fault['at'], fault.get('n', 1))
        taps = {'model': self.S.taps, 'f': self.S.taps[:1], 'h': self.S.taps[1:]}.get(site)
        if site == 'map':
            taps = list({id(t): t for t in self.mtaps}.values())
        if 'bend' in fault:
            return Bend(taps, fault['bend'], fault['at'], fault.get('n', 1))
        return Fuse(taps, fault['exc'], fault['at'], fault.get('n', 1), fault.get('when', 'hook'))

    # -- execution
    def run(self):
        self.start()
        for op in self.plan['ops']:
            self.do(op)
        self.finish()

    def start(self):
        pass

    def finish(self):
        pass

    def do(self, op):
        k = op[0]
        fault = op[2] if len(op) > 2 else None
        if k in KIND:
            if op[1] < self.N:
                self.update(k, op[1], lambda: getattr(self.nodes[op[1]], KIND[k])(), fault)
        elif k == 'S':
            self.sweep(op[1], fault)
        elif k == 'E':
            from ExpectationPropagation.Nodes import node_estimator
            self.e = op[1]
            self.est = self.equip_est(op[1])
            self.nodes = node_estimator(nodes=self.nodes, estimator=self.est)
            self.ctx.probe('re-equipped')
            self.on_equip()
        else:
            raise ValueError(k)

    def on_equip(self):
        pass

    def sweep(self, name, fault=None):
        order = []
        fz = self.fuse_for(fault) if fault else None

        def on(op, i, call):
            order.append((op, i))
            return self.update(op, i, call, None, fuse=fz, in_sweep=True)
        rec = Recorder(self.nodes, on)
        self.swept = order
        escaped = None
        try:
            if fz is None:
                run_sweep(name, self.nodes)
            else:
                with fz:
                    try:
                        run_sweep(name, self.nodes)
                    except BaseException as e:
                        if not any(e is r for r in fz.raised):
                            raise
                        escaped = e
        finally:
            rec.restore()
        self.on_sweep(name, order, fault, fz, escaped)

    def on_sweep(self, name, order, fault, fz, escaped):
        pass

    def update(self, op, i, call, fault, fuse=None, in_sweep=False):
        self.step_no += 1
        self.ctx.steps += 1
        pre = snap(self.nodes)
        env = env_arrays(self.S, self.meas)
        noise = self.est.transition_noise.tobytes() + self.est.measurement_noise.tobytes()
        fz = self.fuse_for(fault) if fault else fuse
        before = fz.fired if fz and not fault else 0
        escaped = None
        try:
            if fault:
                with fz:
                    call()
            else:
                call()
        except BaseException as e:
            if fz is None or not any(e is r for r in fz.raised):
                raise
            escaped = e
        fired = (fz.fired - before) if fz else 0
        if fired:
            f = fault or getattr(fz, 'spec', None)
            self.ctx.fault('%s:%s' % (fz.site_name(), fz.exc_name()), fired)
        post = snap(self.nodes)
        where = 'step %d: %s(node %d)' % (self.step_no, KIND[op], i)
        if env_arrays(self.S, self.meas) != env or \
                self.est.transition_noise.tobytes() + self.est.measurement_noise.tobytes() != noise:
            raise Violation('locality', where + ' modified the measurements, the prior or a noise covariance')
        self.ctx.event(op, i, fired, type(escaped).__name__, raw(post[i])['X'][0])
        self.ctx.state(self.N, op, i, abstract(post))
        self.on_update(op, i, pre, post, fz, fired, escaped, where)
        if escaped is not None and in_sweep:
            raise escaped

    def on_update(self, op, i, pre, post, fuse, fired, escaped, where):
        pass


class LaFuse:
    def __init__(self, kinds, at, n):
        self.kinds, self.at, self.n = kinds, at, n
        self.raised = []

    @property
    def fired(self):
        return LA.fired

    def __enter__(self):
        LA.arm(self.kinds, self.at, self.n)
        return self

    def __exit__(self, *e):
        LA.disarm()
        return False

    def site_name(self):
        return 'la(' + '+'.join(self.kinds) + ')'

    def exc_name(self):
        return 'LinAlgError'


Fuse.site_name = lambda self: '+'.join(t.name for t in self.taps) + ('' if self.when == 'hook' else ' (after the call)')
Fuse.exc_name = lambda self: self.exc


def data_of(plan, S):
    d = plan['data']
    xs, ys = models.make_data(S, d['N'], d['seed'], d.get('outlier', 0.0))
    for k, i, v in d.get('set', []):
        if k < len(ys) and i < ys.shape[1]:
            ys[k, i] = v
    return ys


def abstract(post):
    """Coarse state of a graph: which messages are set and the sign and size class of the marginals."""
    out = []
    for s in post:
        cls = tuple(0 if not np.any(s[k][0]) else 1 for k in 'FMB')
        tr = float(np.trace(s['X'][0]))
        out.append((cls, int(np.floor(np.log2(tr))) // 4 if tr > 0 else -99))
    return out


def product_error(s, base, power, runmax):
    """Largest scaled deviation of the marginal from base x product of messages^(1/power)."""
    worst = 0.0
    for j in (0, 1):
        tot = base[j] + (s['F'][j] + s['M'][j] + s['B'][j]) / power
        err = np.abs(s['X'][j] - tot)
        if not np.all(np.isfinite(err)):
            return float('inf')
        worst = max(worst, float(np.max(err / runmax[j])))
    return worst


def grow(runmax, s, power):
    for j in (0, 1):
        m = np.max(np.abs(np.array([s['X'][j], s['F'][j] / power, s['M'][j] / power, s['B'][j] / power])), axis=0)
        runmax[j] = np.maximum(runmax[j], np.max(m))
