"""C17: a recorded row describes the iteration it is filed under.

Sweeps with model functions failing inside chosen passes run on the simulated disk; next to them a loop written here drives the same
updates pass by pass (same failing calls, same random numbers) and scores the marginals with its own RMSE and log likelihood.  Rows,
trajectories and, in extra operations, arbitrary arrays are read back through the repository's converters and compared.
"""
import itertools
import pickle
import sqlite3
import numpy as np
from numpy.linalg import LinAlgError
import simdisk
import sweep
from core import Violation
from simdisk import World, Disk

DTYPES = ['float64', 'float64', 'float32', 'int64', 'int32', 'uint8', 'complex128', 'bool', '>f8', 'S3', 'U4', 'float16']


def gen(rng, tier, idx):
    p = sweep.gen_sweep(rng, mct=0.06, iters=(1, 2, 3, 4, 6))
    p['fail'] = [{'cfg': rng.random(), 'it': rng.random(), 'at': rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34]), 'n': rng.choice([1, 1, 3, 20, 1000])}
                 for _ in range(rng.choice([0, 1, 2, 3]))]
    p['crash'] = rng.random() if rng.random() < 0.3 else None
    p['arrays'] = [{'dtype': rng.choice(DTYPES), 'shape': rng.choice([[1], [1, 2], [3, 2], [2, 3, 4], [], [0], [1, 0, 2], [1, 5], [40, 40]]),
                    'order': rng.choice('CFT'), 'seed': rng.randrange(1 << 30), 'special': rng.random() < 0.3} for _ in range(rng.choice([0, 2, 4]))]
    return p


def shrinks(plan):
    for key in ('fail', 'arrays'):
        v = plan[key]
        for k in range(len(v)):
            yield dict(plan, **{key: v[:k] + v[k + 1:]})
    if plan['crash'] is not None:
        yield dict(plan, crash=None)
    for key in ('seeds', 'trans', 'powers', 'damps'):
        if len(plan[key]) > 1:
            yield dict(plan, **{key: plan[key][:1]})


class Failing:
    """Makes model calls fail: within pass j of the whole sweep, calls at..at+n."""

    def __init__(self, seq, fail, ctx):
        self.ctx, self.j, self.n = ctx, -1, 0
        self.plan = {}
        cfg = [x for x in seq if x[0] != 'sim']
        for f in fail:
            c = cfg[int(f['cfg'] * len(cfg))]
            self.plan.setdefault(seq.index(c), []).append((f['at'], f['at'] + f['n']))

    def on_run(self, j):
        self.j, self.n = j, 0

    def call(self, kind):
        n = self.n
        self.n += 1
        for a, b in self.plan.get(self.j, ()):
            if a <= n < b:
                if self.ctx:
                    self.ctx.fault('model function fails inside a pass')
                raise LinAlgError('injected')


def transforms(trans, d):
    from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
    if trans == 'TT':
        return TaylorTransform(dim=d), TaylorTransform(dim=d)
    if trans == 'MCT':
        return [MonteCarloTransform(dim=d, number_of_samples=10000) for _ in range(2)]
    return UnscentedTransform(dim=d, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=d, alpha=1, beta=2, kappa=2)


def score(states, xs, idx):
    """Own RMSE and mean negative log likelihood; None where the covariance is near singular."""
    se, ll = [], []
    for s, x in zip(states, xs):
        m, P = np.array(s.mean, dtype=float)[idx], np.array(s.cov, dtype=float)[np.ix_(idx, idx)]
        e = np.reshape(x, -1)[idx] - m
        se.append(e @ e)
        w, V = np.linalg.eigh((P + P.T) / 2)
        if w[0] <= 1e-8 * w[-1]:
            ll.append(None)
            continue
        z = V.T @ e
        ll.append(0.5 * (np.sum(z * z / w) + np.sum(np.log(w)) + len(idx) * np.log(2 * np.pi)))
    n = len(states)
    return np.sqrt(sum(se) / n), None if None in ll else sum(ll) / n, max(np.abs([v for v in ll if v is not None] + [1.0]))


QUANT = {'position': [0, 2], 'velocity': [1, 3], 'angle': [4], '': None}


def own_sweep(sw, plan, out):
    """The sweep as documented, without the repository's sweep, recording or metrics code."""
    from MomentMatching.Estimator import Estimator
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system

    def go():
        p = simdisk.W.cur
        p.on_run, p.t_prev, p.runs = plan['_failing'].on_run, None, -1
        sys_, d = sw.S.repo, sw.S.d
        for seed in plan['seeds']:
            np.random.seed(seed)
            data = sys_.simulate(plan['T'])
            state = np.random.get_state()
            xs, ys = [x for x, y in data], [y for x, y in data]
            for t, (x, y) in enumerate(data):
                out['sim'][(seed, t)] = (np.array(x), np.array(y))
            for trans, power, damp in itertools.product(plan['trans'], plan['powers'], plan['damps']):
                np.random.set_state(state)
                tm, mm = transforms(trans, d)
                est = Estimator(trans_map=tm, meas_map=mm, trans_noise=sys_.transition_noise.cov, meas_noise=sys_.measurement_noise.cov,
                                power=power, damping=damp)
                nodes = node_system(node_estimator(build_nodes(N=plan['T'], dim=d), est), system_model=sys_, measurements=ys)
                for k in range(1, plan['iters'] + 1):
                    for node in nodes:
                        node.fwd_update()
                        node.meas_update()
                    for node in nodes[::-1]:
                        node.back_update()
                    states = [node.marginal for node in nodes]
                    for q, idx in QUANT.items():
                        if (q == '') != sw.bott:
                            out['exp'][((seed, trans, float(power), float(damp)), k, q)] = \
                                score(states, xs, list(range(d)) if idx is None else idx)
    return go


def run(plan, ctx):
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        empty = sw.read({})
        seq = sw.sequence(empty)
        # the loop written here
        out = {'exp': {}, 'sim': {}}
        f = Failing(seq, plan['fail'], None)
        sw.tick_extra = f.call
        w = simdisk.activate(World(ctx=ctx))
        r = w.solo(own_sweep(sw, dict(plan, _failing=f), out))
        if r[0] != 'ok':
            raise Violation('failure', 'driving the updates directly raised %r' % (r[1],))
        # the repository's sweep, possibly crashed once and rerun (with no failing calls, then: they would not be the same ones)
        f = Failing(seq, plan['fail'], ctx)
        sw.tick_extra = f.call
        image = {}
        if plan['crash'] is not None and not plan['fail']:
            w = simdisk.activate(World(ctx=ctx))
            w.crash = {'at': int(plan['crash'] * 40 * len(seq)), 'who': None, 'mode': 'before', 'kind': 'kill', 'unit': 'op'}
            r = w.solo(sw.task())
            image = w.crashed or w.disk.image()
        w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
        r = w.solo(sw.task(on_run=f.on_run))
        sw.tick_extra = None
        if r[0] != 'ok':
            raise Violation('failure', 'the sweep raised %r' % (r[1],))
        ctx.steps += w.steps
        image = w.disk.image()
        rows = sw.read(image, 'after the sweep')
        where = '' if not plan['fail'] else ' (with failing updates)'
        for key in sorted(set(rows.exp) | set(out['exp']), key=repr):
            c, it, q = key
            if key not in rows.exp or key not in out['exp']:
                raise Violation('row', 'row %s is %s%s' % (key, 'missing' if key not in rows.exp else 'unexpected', where))
            rmse, nll = rows.exp[key][:2]
            e, l, big = out['exp'][key]
            if not abs(rmse - e) <= 1e-8 * (1 + e):
                raise Violation('rmse', 'RMSE recorded for %s is %.12g, the marginals after that pass give %.12g%s' % (key, rmse, e, where))
            if l is None:
                ctx.probe('near-singular marginal: NLL not compared')
            elif not abs(nll - l) <= 1e-7 * (1 + big):
                raise Violation('nll', 'NLL recorded for %s is %.12g, the marginals after that pass give %.12g%s' % (key, nll, l, where))
        check_arrays(sw, plan, image, out['sim'], ctx)
        ctx.event(rows.digest())
        ctx.state(len(rows.exp), sorted(f.plan.items()), plan['T'], sw.bott)
    ctx.simtime += plan['T'] * sw.S.dt


def make(a):
    rs = np.random.RandomState(a['seed'])
    dt = np.dtype(a['dtype'])
    if dt.kind in 'SU':
        x = rs.choice(np.array(['a', 'xyz', '', 'b0']), size=a['shape']).astype(dt)
        x = np.asarray(x)
    else:
        x = np.asarray(rs.uniform(-100, 100, size=a['shape']))
        if dt.kind == 'c':
            x = x + 1j * rs.uniform(-1, 1, size=a['shape'])
        if dt.kind == 'u':
            x = np.abs(x)
        x = np.asarray(x).astype(dt)
        if a['special'] and dt.kind in 'fc' and x.size > 2:
            x = x.copy()
            x.reshape(-1)[:3] = [np.nan, -np.inf, -0.0]
    if a['order'] == 'F':
        x = np.asfortranarray(x)
    if a['order'] == 'T':
        x = x.T
    return np.asarray(x)


def same_array(a, b):
    return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_arrays(sw, plan, image, sim, ctx):
    from Utils import Database as D
    w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
    arrays = [make(a) for a in plan['arrays']]
    boxed = [a for a in arrays if a.nbytes > 1]      # PyPy's pickle cannot dump two empty or one-byte arrays in one list

    def read():
        con = D.open_database(sweep.DB)
        try:
            return con.execute('SELECT Seed, t, X, Y FROM %s ORDER BY Seed, t' % sw.names[0]).fetchall()
        finally:
            con.close()

    def write():
        con = D.open_database(sweep.DB)
        try:
            db = con.cursor()
            D.create_dynamics_table(db, 'OTHER')
            D.create_experiment_table(db, 'OTHER_EXP')
            D.insert_dynamics_data(db, 'OTHER', [(a, a[::-1] if a.ndim else a) for a in arrays], 3)
            D.insert_dynamics_data(db, 'OTHER', [(np.zeros(1), np.zeros(1))] * len(arrays), 3)      # a second insert changes nothing
            D.insert_dynamics_data(db, 'OTHER', [(a, a) for a in arrays[:1]], 4)
            for k in range(len(boxed)):
                D.insert_experiment_data(db, 'OTHER_EXP', dict(Transform='UT', Seed=k, Iter=1, Power=0.1, Damping=1.0, RMSE=0.1 + k, NLL=-k / 3,
                                                               Mean=boxed[:k], Variance=[a.copy() for a in boxed[k:]]))
            con.commit()
        finally:
            con.close()

    def reread():
        con = D.open_database(sweep.DB)
        try:
            return (con.execute('SELECT Seed, t, X, Y FROM OTHER ORDER BY Seed, t').fetchall(),
                    con.execute('SELECT Seed, RMSE, NLL, Mean, Variance FROM OTHER_EXP ORDER BY Seed').fetchall())
        finally:
            con.close()

    def must(fn, what):
        r = w.solo(fn)
        if r[0] != 'ok':
            raise Violation('failure', '%s raised %r' % (what, r[1]))
        return r[1]
    got = must(read, 'reading the trajectories')
    want = [(s, float(t)) + sim[(s, t)] for s, t in sorted(sim)]
    if [g[:2] for g in got] != [x[:2] for x in want]:
        raise Violation('trajectory', 'trajectory rows %s, expected %s' % ([g[:2] for g in got], [x[:2] for x in want]))
    for g, x in zip(got, want):
        if not (same_array(g[2], x[2]) and same_array(g[3], x[3])):
            raise Violation('trajectory', 'the trajectory of seed %s at step %s reads back as %r, %r; simulated were %r, %r' % (g[:2] + g[2:] + x[2:]))
    if not arrays:
        return
    ctx.probe('arrays written and read back', len(arrays))
    must(write, 'writing arrays')
    dyn, exp = must(reread, 'reading arrays')
    want = [(3, float(k), a, a[::-1] if a.ndim else a) for k, a in enumerate(arrays)] + [(4, 0.0, arrays[0], arrays[0])]
    if [g[:2] for g in dyn] != [x[:2] for x in want]:
        raise Violation('array', 'rows written for arrays: %s, read back: %s' % ([x[:2] for x in want], [g[:2] for g in dyn]))
    for g, x in zip(dyn, want):
        for a, b in zip(g[2:], x[2:]):
            if not same_array(a, b):
                raise Violation('array', 'a %s array of shape %s reads back as %s of %s: %r, written %r'
                                % (b.dtype, b.shape, a.dtype, a.shape, a, b))
    for k, g in enumerate(exp):
        lists = (boxed[:k], boxed[k:])
        if g[:3] != (k, 0.1 + k, -k / 3) or any(len(a) != len(b) or not all(same_array(x, y) for x, y in zip(a, b)) for a, b in zip(g[3:], lists)):
            raise Violation('array', 'an experiment row reads back as %r' % (g,))
