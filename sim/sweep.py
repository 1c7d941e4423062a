"""The experiment sweeps of the real code running as simulated processes on the simulated disk."""
import io
import sqlite3
import numpy as np

import models
import simdisk
from core import Violation
from simdisk import World, Disk

DB = '/db/exp.db'


def gen_lists(rng, p):
    """A part of the grid, in another order."""
    return {k: rng.sample(p[k], rng.randint(1, len(p[k]))) for k in ('seeds', 'trans', 'powers', 'damps')}


def gen_sweep(rng, kinds=None, small=True, mct=0.08, bott=0.2, iters=(1, 2, 3, 4)):
    """A sweep description: model, length, grid."""
    p = {'kind': 'bott' if rng.random() < bott else 'full'}
    if p['kind'] == 'bott':
        if rng.random() < 0.3:
            p['sys'] = {'kind': 'bott', 'delta': 1, 'seed': 0}
        else:
            p['sys'] = models.gen_spec(rng, ('lin', 'nl'), dmax=2, mmax=2)
            p['sys'].update(d=5, batch='mat', dt=rng.choice([1, 0.5]))
        trans = ['TT', 'UT']
    else:
        k = rng.choice(['lin', 'nl', 'ungm', 'ungm'])
        p['sys'] = models.gen_spec(rng, (k,), dmax=2, mmax=2)
        trans = ['TT', 'UT', 'XX']
    p['T'] = rng.choice([2, 2, 3, 4])
    p['iters'] = rng.choice(iters)
    p['seeds'] = rng.sample([0, 1, 7, 101, 12345], rng.choice([1, 1, 2, 3]))
    p['trans'] = rng.sample(trans, rng.choice([1, 2]) if len(trans) > 1 else 1)
    if rng.random() < mct and p['kind'] == 'full':
        p['trans'] = rng.sample(['MCT', rng.choice(trans)], rng.choice([1, 2]))
        p['T'] = 2
        p['iters'] = min(p['iters'], 2)
    p['powers'] = rng.sample([1.0, 1, 0.8, 0.5, 0.1, 0.30000000000000004, 0.7000000000000001], rng.choice([1, 1, 2]))
    if 1 in p['powers'] and len(p['powers']) > 1:      # 1 and 1.0 are one power
        p['powers'] = [x for x in p['powers'] if x != 1] or [1.0]
    p['damps'] = rng.sample([1.0, 0.8, 0.5], rng.choice([1, 1, 2]))
    p['nptypes'] = rng.choice([0, 0, 1])
    return p


class Sweep:
    """Built once per run: the model is shared by all simulated processes, as it would be by forked ones."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.S = models.build(plan['sys'])
        self.t_prev = None
        self.on_run = None
        simdisk.install()
        self.S.taps[0].hook = self.hook_f
        self.S.taps[1].hook = self.hook_h
        self.tick_extra = None
        self.names = ('SIM', 'EXP')
        self.bott = plan['kind'] == 'bott'

    # -- seam: model functions of the simulated processes
    def hook_f(self, tap, a, k):
        w = simdisk.W
        p = w.cur
        if p is None:
            return
        t = k.get('t')
        prev = getattr(p, 't_prev', None)
        if t == 0.0 and prev != 0.0:
            p.runs = getattr(p, 'runs', -1) + 1       # a simulation or a pass begins
            if p.on_run:
                p.on_run(p.runs)
        p.t_prev = t
        if self.tick_extra:
            self.tick_extra('f')
        w.tick()

    def hook_h(self, tap, a, k):
        if simdisk.W.cur is not None:
            if self.tick_extra:
                self.tick_extra('h')
            simdisk.W.tick()

    # -- one simulated process
    def task(self, override=False, lists=None, iters=None, on_run=None, timeout=5.0, setup_only=False):
        plan = dict(self.plan, **(lists or {}))
        n = iters or plan['iters']

        def go():
            p = simdisk.W.cur
            p.on_run, p.t_prev, p.runs = on_run, None, -1
            if self.bott:
                import Experiments.EP_Sweep_BearingsOnly as M
            else:
                import Experiments.EP_FullSweep as M
            con = sqlite3.connect(DB, detect_types=sqlite3.PARSE_DECLTYPES, timeout=timeout)
            try:
                db = con.cursor()
                M.create_dynamics_table(db, name=self.names[0])
                M.create_experiment_table(db, table_name=self.names[1])
                if setup_only:
                    return None
                cfg = M.Config(con=con, system=self.S.repo, timesteps=plan['T'], sys_dim=self.S.d, num_iter=n,
                               dyn_table_name=self.names[0], exp_table_name=self.names[1])
                powers, seeds = list(plan['powers']), list(plan['seeds'])
                if plan.get('nptypes'):
                    powers = list(np.array(powers, dtype=float))
                    seeds = list(np.array(seeds))
                return M.full_sweep(cfg, seeds, plan['trans'], powers, plan['damps'], override)
            finally:
                try:
                    con.close()
                except sqlite3.Error:
                    pass
        return go

    def configs(self, lists=None):
        import itertools
        p = dict(self.plan, **(lists or {}))
        return [(s, t, float(a), float(b)) for s in p['seeds']
                for t, a, b in itertools.product(p['trans'], p['powers'], p['damps'])]

    def sequence(self, rows, override=False, lists=None, iters=None, last=None):
        """The simulations and passes one process should execute, given the rows present at its start.

        last: {config: pass at which the configuration fails}.
        """
        n = iters or self.plan['iters']
        out, seed = [], None
        for c in self.configs(lists):
            if c[0] != seed:
                seed = c[0]
                out.append(('sim', seed))
            if override or not rows.has(c, n):
                for k in range(1, n + 1):
                    out.append((c, k))
                    if last and last.get(c) == k:
                        break
        return out

    def golden(self, **kw):
        w = simdisk.activate(World())
        res = w.solo(self.task(**kw))
        if res[0] != 'ok':
            if isinstance(res[1], np.linalg.LinAlgError) or res[1] is None:
                raise res[1]
            raise res[1]
        self.golden_ops = w.procs[0].ops
        self.golden_ticks = getattr(w.procs[0], 'ticks', -1) + 1
        self.golden_by_kind = dict(w.procs[0].by_kind)
        self.golden_runs = w.procs[0].runs + 1
        # pass boundaries are recognised from the model's own clock; believed only if they add up in an undisturbed sweep
        self.trust = self.golden_runs == len(self.sequence(self.read({}), **{k: v for k, v in kw.items() if k in ('lists', 'iters')}))
        if not self.trust:
            self.ctx.probe('passes not recognised')
        img = w.disk.image()
        self.golden_size = max(sum(map(len, img.values())), 1)
        return self.read(img)

    def read(self, image, where=''):
        return Rows(image, self.bott, where, self.names)


class Rows:
    """Everything in a database image, read by a process of its own on a copy."""

    def __init__(self, image, bott, where, names):
        keep = simdisk.W
        w = simdisk.activate(World(Disk.from_image(image)))
        w.quiet = 1
        self.exp, self.sim = {}, {}
        self.exists = DB in image and len(image[DB]) > 0 or (DB + '-journal') in image
        con = None
        try:
            con = sqlite3.connect(DB)
            chk = con.execute('PRAGMA integrity_check').fetchall()
            if chk != [('ok',)]:
                raise Violation('corrupt', '%s: the database fails its integrity check: %s' % (where, chk[:3]))
            have = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall()}
            q = 'Transform, Seed, Power, Damping, Iter, %s RMSE, NLL' % ('Quantity,' if bott else "'',")
            if names[1] in have:
                for r in con.execute('SELECT %s%s FROM %s' % (q, '' if bott else ', Mean, Variance', names[1])).fetchall():
                    key = ((int(r[1]), r[0], r[2], r[3]), r[4], r[5])
                    if key in self.exp:
                        raise Violation('duplicate', '%s: two rows for %s' % (where, key))
                    self.exp[key] = tuple(r[6:])
            if names[0] in have:
                for r in con.execute('SELECT Seed, t, X, Y FROM %s' % names[0]).fetchall():
                    key = (int(r[0]), r[1])
                    if key in self.sim:
                        raise Violation('duplicate', '%s: two trajectory rows for %s' % (where, key))
                    self.sim[key] = (r[2], r[3])
        except sqlite3.Error as e:
            raise Violation('corrupt', '%s: the database cannot be read: %r' % (where, e))
        finally:
            if con is not None:
                con.close()
            simdisk.activate(keep)

    def has(self, config, it):
        return any(k[0] == config and k[1] == it for k in self.exp)

    def iters(self):
        """config -> {quantity: sorted iterations}."""
        out = {}
        for c, it, q in self.exp:
            out.setdefault(c, {}).setdefault(q, []).append(it)
        return {c: {q: sorted(v) for q, v in d.items()} for c, d in out.items()}

    def seeds_complete(self, T):
        n = {}
        for s, t in self.sim:
            n.setdefault(s, set()).add(t)
        return {s for s, ts in n.items() if ts >= set(range(T))}

    def keys_of(self, config):
        return {k for k in self.exp if k[0] == config}

    def digest(self):
        return repr(sorted(self.exp.items(), key=repr)).encode() + repr(sorted(self.sim.items(), key=repr)).encode()


def load(blob):
    return np.load(io.BytesIO(blob))


def structure(rows, where, bott, T):
    """What must hold of any database image."""
    done = rows.seeds_complete(T)
    for c, d in rows.iters().items():
        if bott and set(d) != {'position', 'velocity', 'angle'}:
            raise Violation('partial', '%s: %s has rows for %s only' % (where, c, sorted(d)))
        its = list(d.values())
        for v in its:
            if v != list(range(1, len(v) + 1)):
                raise Violation('gap', '%s: iterations recorded for %s are %s' % (where, c, v))
        if any(v != its[0] for v in its):
            raise Violation('partial', '%s: quantities of %s have different iterations: %s' % (where, c, d))
        if c[0] not in done:
            raise Violation('trajectory', '%s: results for seed %s are recorded but its trajectory is not complete' % (where, c[0]))
    by = {}
    for s, t in rows.sim:
        by.setdefault(s, []).append(t)
    for s, ts in by.items():
        if sorted(ts) != list(range(T)):
            raise Violation('trajectory', '%s: trajectory of seed %s has steps %s' % (where, s, sorted(ts)))


def subset(rows, gold, where, kind='altered'):
    """Every row present is exactly a row of the uninterrupted sweep."""
    for k, v in rows.exp.items():
        if k not in gold.exp:
            raise Violation('alien', '%s: a row for %s that no uninterrupted sweep records' % (where, k))
        if not same_row(v, gold.exp[k]):
            raise Violation(kind, '%s: row %s is %s, an uninterrupted sweep records %s' % (where, k, v, gold.exp[k]))
    for k, v in rows.sim.items():
        if k not in gold.sim:
            raise Violation('alien', '%s: a trajectory row for %s that no uninterrupted sweep records' % (where, k))
        if v != gold.sim[k]:
            raise Violation(kind, '%s: trajectory row %s differs from the uninterrupted sweep' % (where, k))


def same_row(a, b):
    return all(x == y or (x != x and y != y) for x, y in zip(a, b)) and len(a) == len(b)


def equal(rows, gold, where):
    subset(rows, gold, where)
    for name in ('exp', 'sim'):
        miss = [k for k in getattr(gold, name) if k not in getattr(rows, name)]
        if miss:
            raise Violation('missing', '%s: %d of %d %s rows are missing, first %s'
                            % (where, len(miss), len(getattr(gold, name)), {'exp': 'result', 'sim': 'trajectory'}[name], sorted(miss, key=repr)[0]))


def completed(sw, rows, gold, start, where, iters, lists=None):
    """After an undisturbed sweep with `iters` iterations that found `start`: nothing missing, nothing altered."""
    subset(rows, gold, where)
    qs = ('position', 'velocity', 'angle') if sw.bott else ('',)
    have, old = rows.iters(), start.iters()
    for c in sw.configs(lists):
        n = max([iters] + [v[-1] for v in old.get(c, {}).values()])
        for q in qs:
            got = have.get(c, {}).get(q, [])
            if got != list(range(1, int(n) + 1)):
                raise Violation('missing', '%s: iterations recorded for %s %s are %s, expected 1 to %d' % (where, c, q, got, n))
    for k in start.exp:
        if k not in rows.exp:
            raise Violation('missing', '%s: the row %s that was there before is gone' % (where, k))
    for k in list(start.sim) + [k for k in gold.sim if k[0] in set((lists or sw.plan).get('seeds', sw.plan['seeds']))]:
        if k not in rows.sim:
            raise Violation('missing', '%s: trajectory row %s is missing' % (where, k))


def equal_grid(sw, gold):
    """The uninterrupted sweep records the whole grid."""
    want = {(c, it) for c in sw.configs() for it in range(1, sw.plan['iters'] + 1)}
    have = {(k[0], k[1]) for k in gold.exp}
    if want != have:
        raise Violation('grid', 'an uninterrupted sweep over %d configurations and %d iterations recorded %d of %d rows, e.g. not %s'
                        % (len(sw.configs()), sw.plan['iters'], len(have), len(want), sorted(want ^ have, key=repr)[0],))
    seeds = {s for s, _ in gold.sim}
    if seeds != set(sw.plan['seeds']):
        raise Violation('grid', 'trajectories of seeds %s recorded, expected %s' % (sorted(seeds), sw.plan['seeds']))
