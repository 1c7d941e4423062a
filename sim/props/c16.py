"""C16: sweeps skip finished work, redo it on override, contain failures.

A table is prepared by earlier sweeps of parts of the grid, then rows are removed or given values no sweep computes (so that it shows
whether a row was kept or recomputed).  A sweep of random settings then runs on it, with configurations failing numerically at seeded
passes, possibly twice; the passes it executes and the table it leaves are compared exactly with what is expected.
Some runs drive the shipped command-line programs.
"""
import sys
import numpy as np
from numpy.linalg import LinAlgError
import sqlite3
import os
import shutil
import tempfile
import simdisk
import sweep
from core import Violation
from simdisk import World, Disk


def gen(rng, tier, idx):
    if idx % 45 == 7:
        name = rng.choice(['UNGM', 'UNGM', 'BOTT', 'FULL BOT', 'FULL BOTT'] + (['FULL L96'] if tier == 'thorough' else []))
        p = {'main': name, 'seeds': rng.sample(range(10 ** 6), rng.choice([1, 1, 2]) if name == 'UNGM' else 1),
             'trans': rng.choice(['TT', 'UT', 'UT']), 'crash': rng.random(), 'override': rng.random() < 0.3, 'dflt': rng.random() < 0.5}
        if name == 'FULL L96':
            p['trans'], p['override'] = 'UT', False
        return p
    p = sweep.gen_sweep(rng, mct=0.04)
    p['main'] = None
    p['pre'] = [{'lists': sweep.gen_lists(rng, p) if rng.random() < 0.7 else None,
                 'iters': max(1, p['iters'] + rng.choice([0, 0, 0, 1, -1, -2, 2]))} for _ in range(rng.choice([0, 1, 1, 2]))]
    p['edits'] = [(rng.random(), rng.choice(['stale', 'cut', 'stale'])) for _ in range(rng.choice([0, 1, 2, 4]))]
    p['sweeps'] = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        p['sweeps'].append({'lists': sweep.gen_lists(rng, p) if rng.random() < 0.5 else None, 'override': rng.random() < 0.35,
                            'iters': max(1, p['iters'] + rng.choice([0, 0, 0, 1, -1])),
                            'fail': [(rng.random(), rng.choice(['first', 'any', 'last'])) for _ in range(rng.choice([0, 0, 1, 2]))],
                            'at': rng.choice(['nll', 'squared_error'])})
    return p


def shrinks(plan):
    if plan['main']:
        return
    for key in ('pre', 'edits', 'sweeps'):
        v = plan[key]
        for k in range(len(v)):
            yield dict(plan, **{key: v[:k] + v[k + 1:]})
    v = plan['sweeps']
    for k in range(len(v)):
        for key, to in (('fail', []), ('lists', None), ('override', False)):
            if v[k][key] != to:
                yield dict(plan, sweeps=v[:k] + [dict(v[k], **{key: to})] + v[k + 1:])


class Tracker:
    """Follows one sweep through the passes it should execute; decides where its metrics fail."""

    def __init__(self, seq, fail):
        self.seq, self.fail, self.at, self.fired, self.extra = seq, fail, -1, {}, None

    def on_run(self, j):
        cur = self.seq[self.at] if self.at >= 0 else None
        self.at += 1
        if cur and cur[0] in self.fired:
            while self.at < len(self.seq) and self.seq[self.at][0] == cur[0]:
                self.at += 1
        if self.at >= len(self.seq):
            self.extra = self.at
            self.at = len(self.seq)

    def metric(self):
        if 0 <= self.at < len(self.seq):
            c, k = self.seq[self.at]
            if c != 'sim' and self.fail.get(c) == k:
                self.fired[c] = k
                raise LinAlgError('injected')

    def finished(self):
        cur = self.seq[self.at] if 0 <= self.at < len(self.seq) else None
        rest = [x for x in self.seq[self.at + 1:] if not (cur and cur[0] in self.fired and x[0] == cur[0])]
        return not rest and self.extra is None


T = None


def setup(scratch):
    from StateModel import Gaussian
    for name in ('nll', 'squared_error'):
        def patched(self, x, _real=getattr(Gaussian, name), _name=name):
            if T is not None and T.name == _name and simdisk.W is not None and simdisk.W.cur is not None:
                T.metric()
            return _real(self, x)
        setattr(Gaussian, name, patched)


def edit(image, sw, edits, ctx):
    """Removes or alters rows of the table."""
    rows = sw.read(image)
    groups = sorted({(k[0], k[1]) for k in rows.exp}, key=repr)
    if not groups:
        return image
    w = simdisk.activate(World(Disk.from_image(image)))
    w.quiet = 1
    con = sqlite3.connect(sweep.DB)
    where = 'Transform=? AND Seed=? AND Power=? AND Damping=?'
    for n, (x, what) in enumerate(edits):
        c, it = groups[int(x * len(groups))]
        arg = (c[1], c[0], c[2], c[3], it)
        if what == 'stale':
            con.execute('UPDATE %s SET RMSE=?, NLL=? WHERE %s AND Iter=?' % (sw.names[1], where), (-1.0 - n, -2.0 - n) + arg)
            ctx.probe('row with a foreign value')
        else:
            con.execute('DELETE FROM %s WHERE %s AND Iter>=?' % (sw.names[1], where), arg)
            ctx.probe('rows removed')
    con.commit()
    con.close()
    return w.disk.image()


def run(plan, ctx):
    global T
    T = None
    if plan['main']:
        return run_main(plan, ctx)
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        top = max([plan['iters']] + [a['iters'] for a in plan['pre'] + plan['sweeps']])
        gold = sw.golden(iters=top)
        sweep.structure(gold, 'uninterrupted sweep', sw.bott, plan['T'])
        image = {}
        for a in plan['pre']:
            w = simdisk.activate(World(Disk.from_image(image)))
            r = w.solo(sw.task(lists=a['lists'], iters=a['iters']))
            if r[0] != 'ok':
                raise Violation('failure', 'an undisturbed sweep raised %r' % (r[1],))
            ctx.steps += w.steps
            image = w.disk.image()
        image = edit(image, sw, plan['edits'], ctx)
        qs = ('position', 'velocity', 'angle') if sw.bott else ('',)
        for k, a in enumerate(plan['sweeps']):
            start = sw.read(image)
            seq = sw.sequence(start, a['override'], a['lists'], a['iters'])
            todo = sorted({x[0] for x in seq if x[0] != 'sim'}, key=repr)
            fail = {}
            for x, how in a['fail']:
                if todo and sw.trust:
                    fail[todo[int(x * len(todo))]] = 1 if how == 'first' else a['iters'] if how == 'last' else 1 + int(x * 7919) % a['iters']
            tr = Tracker(seq, fail)
            tr.name = a['at']
            T = tr
            try:
                w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
                r = w.solo(sw.task(override=a['override'], lists=a['lists'], iters=a['iters'], on_run=tr.on_run))
            finally:
                T = None
            where = 'sweep %d%s' % (k, ' with override' if a['override'] else '')
            ctx.steps += w.steps
            if tr.fired:
                ctx.fault('configuration fails numerically', len(tr.fired))
            if r[0] != 'ok':
                raise Violation('failure', '%s (%d configurations failing) raised %r' % (where, len(tr.fired), r[1]))
            if sw.trust:
                n = w.procs[0].runs + 1
                if not tr.finished():
                    raise Violation('work', '%s: %d simulations and passes executed; expected %d%s, over %s'
                                    % (where, n, len(seq), ' less those of failed configurations' if tr.fired else '', todo[:3]))
            want, sims = dict(start.exp), dict(start.sim)
            for c in sw.configs(a['lists']):
                if not a['override'] and start.has(c, a['iters']):
                    continue
                last = tr.fired.get(c, a['iters'] + 1) - 1
                if a['override'] and last >= 1:
                    for key in [key for key in want if key[0] == c]:
                        del want[key]
                for i in range(1, last + 1):
                    for q in qs:
                        want.setdefault((c, float(i), q), gold.exp[(c, float(i), q)])
            for s, t in gold.sim:
                if s in (a['lists'] or plan)['seeds']:
                    sims.setdefault((s, t), gold.sim[(s, t)])
            rows = sw.read(w.disk.image(), where)
            for name, have, exp in (('result', rows.exp, want), ('trajectory', rows.sim, sims)):
                for key in sorted(set(have) | set(exp), key=repr):
                    x, y = have.get(key), exp.get(key)
                    if x is None or y is None or not sweep.same_row(x, y):
                        raise Violation('table', '%s%s: %s row %s is %s, expected %s'
                                        % (where, ', %s failed at pass %s' % list(tr.fired.items())[0] if tr.fired else '', name, key,
                                           'missing' if x is None else x[:2], 'none' if y is None else y[:2]))
            ctx.event(where, rows.digest(), sorted(tr.fired.items(), key=repr))
            ctx.state(a['override'], len(seq), len(start.exp), len(rows.exp), sorted(tr.fired.values()))
            image = w.disk.image()
    ctx.simtime += plan['T'] * sw.S.dt


def run_main(plan, ctx):
    """The shipped command-line programs, against the simulated disk."""
    simdisk.install()
    import Experiments.EP_FullSweep as A
    import Experiments.EP_Sweep_BearingsOnly as B
    bott = plan['main'] == 'BOTT'
    M = B if bott else A
    model = plan['main'].split()[-1]
    args = ['-l', sweep.DB, '-t', plan['trans'], '-i', '1'] + sum((['-s', str(s)] for s in plan['seeds']), [])
    if not bott and not (model == 'UNGM' and plan['dflt']):
        args += ['-d', model]
    if not plan['dflt']:
        args += ['--no-override']
    names = (model + '_SIM', model + '_EXP')
    cwd = os.getcwd()

    def task(extra=()):
        M.main(args=args + list(extra), standalone_mode=False)
    scratch = tempfile.mkdtemp()
    try:
        os.makedirs(scratch + '/log')
        os.makedirs(scratch + '/run')
        os.chdir(scratch + '/run')
        drive_main(plan, ctx, task, args, bott, model, names)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch)


def drive_main(plan, ctx, task, args, bott, model, names):
    T = 100 if model == 'UNGM' else 50
    with np.errstate(all='ignore'):
        w = simdisk.activate(World(ctx=ctx))
        w.crash = {'at': 40 + int(plan['crash'] * 500), 'who': None, 'mode': 'after', 'kind': 'power', 'unit': 'op', 'seed': 5, 'policy': 'some'}
        r = w.solo(task)
        if r[0] == 'exc':
            raise Violation('failure', 'main %s raised %r' % (args, r[1]))
        image = w.crashed if w.crashed is not None else w.disk.image()
        ops = []
        for where in ('rerun', 'second rerun') + (('overriding rerun',) if plan['override'] else ()):
            w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
            r = w.solo(lambda: task(['-o'] if where == 'overriding rerun' else []))
            if r[0] != 'ok':
                raise Violation('failure', '%s of main %s raised %r' % (where, args, r[1]))
            ctx.steps += w.steps
            ops.append(w.procs[0].by_kind.get('write', 0))
            image = w.disk.image()
            rows = sweep.Rows(image, bott, where, names)
            sweep.structure(rows, where, bott, T)
            want = {(s, plan['trans'], float(p), d) for s in plan['seeds'] for p in np.linspace(0.1, 1.0, num=10) for d in (1.0, 0.8)}
            have = {k[0] for k in rows.exp}
            if want != have:
                raise Violation('grid', '%s: main recorded %d configurations, expected %d; e.g. %s'
                                % (where, len(have), len(want), sorted(want ^ have, key=repr)[0],))
            if where == 'rerun':
                first = rows
            elif first.digest() != rows.digest():
                raise Violation('table', 'running main again on a finished table changed it')
            ctx.event(where, rows.digest())
        ctx.probe('main ' + plan['main'])
        ctx.state('main', plan['main'], len(rows.exp))
    ctx.simtime += T
