"""C15: concurrent sweeps can share one database.

Two to four sweeps with overlapping grids run as simulated processes against one database; the scheduler switches between
them at disk operations and model calls, some stall, one may be killed.  Images taken on the way and the final table are checked,
stopped sweeps are rerun, and the table must be that of a single sweep.
"""
import sqlite3
import numpy as np
import simdisk
import sweep
from core import Violation
from simdisk import World, Disk


def gen(rng, tier, idx):
    p = sweep.gen_sweep(rng, mct=0.05)
    n = rng.choice([2, 2, 2, 3, 4])
    p['procs'] = []
    overrides = rng.random() < 0.25
    for k in range(n):
        t = {'lists': sweep.gen_lists(rng, p) if rng.random() < 0.5 else None, 'override': overrides and rng.random() < 0.5,
             'iters': p['iters'], 'timeout': rng.choice([5.0, 5.0, 5.0, 0.5, 0.05, 0])}
        if not overrides and rng.random() < 0.3:
            t['iters'] = max(1, p['iters'] + rng.choice([-1, 1]))
        t['stalls'] = [{'frac': rng.random(), 'unit': rng.choice(['op', 'op', 'tick']), 'for': rng.choice([0.01, 0.3, 2, 20])}
                       for _ in range(rng.choice([0, 0, 1, 2]))]
        p['procs'].append(t)
    p['seed'] = rng.randrange(1 << 30)
    p['switch'] = rng.choice([0.02, 0.1, 0.3, 0.7])
    p['op_time'] = rng.choice([1e-4, 1e-3, 1e-3, 0.02])
    p['pre'] = rng.choice([None, None, None, rng.random()])
    p['kill'] = {'who': rng.randrange(n), 'frac': rng.random(), 'mode': rng.choice(['before', 'after', 'torn']),
                 'unit': rng.choice(['op', 'op', 'tick'])} if rng.random() < 0.3 else None
    p['tables'] = rng.random() < 0.6        # the tables exist before the sweeps start
    p['others'] = [{'how': rng.choice(['BEGIN IMMEDIATE', 'BEGIN IMMEDIATE', 'BEGIN EXCLUSIVE', 'read']), 'frac': rng.random(),
                    'for': rng.choice([0.1, 2, 6, 6, 7, 20])} for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    p['samples'] = [rng.random() for _ in range(4)]
    return p


def shrinks(plan):
    v = plan['procs']
    if plan['kill']:
        yield dict(plan, kill=None)
    if plan['pre'] is not None:
        yield dict(plan, pre=None)
    for k in range(len(plan['others'])):
        yield dict(plan, others=plan['others'][:k] + plan['others'][k + 1:])
    if len(v) > 2 and not plan['kill']:
        for k in range(len(v)):
            yield dict(plan, procs=v[:k] + v[k + 1:])
    for k in range(len(v)):
        for key, to in (('stalls', []), ('lists', None), ('override', False), ('timeout', 5.0)):
            if v[k][key] != to:
                yield dict(plan, procs=v[:k] + [dict(v[k], **{key: to})] + v[k + 1:])


def other(holds, span, ctx):
    """A user of the database who is no sweep: holds a lock from time to time, changes nothing."""
    for o in sorted(holds, key=lambda o: o['frac']):
        if o['frac'] * span > simdisk.W.now:
            simdisk.W.nap(o['frac'] * span - simdisk.W.now)
        con = sqlite3.connect(sweep.DB, timeout=1.0, isolation_level=None)
        try:
            if o['how'] == 'read':
                con.execute('BEGIN')
                con.execute('SELECT COUNT(*) FROM sqlite_master').fetchall()
            else:
                con.execute(o['how'])
            ctx.fault('lock held by another program')
            simdisk.W.nap(o['for'])
            con.execute('ROLLBACK')
        except sqlite3.OperationalError:
            pass
        finally:
            con.close()


def run(plan, ctx):
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        procs = plan['procs']
        top = max([plan['iters']] + [t['iters'] for t in procs])
        gold = sw.golden(iters=top)
        ctx.event(gold.digest())
        image = {}
        if plan['pre'] is not None:
            w = simdisk.activate(World())
            w.crash = {'at': int(plan['pre'] * sw.golden_ops), 'who': None, 'mode': 'before', 'kind': 'kill', 'unit': 'op'}
            w.solo(sw.task())
            image = w.crashed or w.disk.image()
        elif plan['tables']:
            w = simdisk.activate(World())
            w.solo(sw.task(setup_only=True))
            image = w.disk.image()
        start = sw.read(image)
        w = simdisk.activate(World(Disk.from_image(image), seed=plan['seed'], ctx=ctx))
        w.switch, w.op_time = plan['switch'], plan['op_time']
        names = ['p%d' % k for k in range(len(procs))]
        for k, t in enumerate(procs):
            for s in t['stalls']:
                w.stalls.append({'who': names[k], 'at': int(s['frac'] * (sw.golden_ops if s['unit'] == 'op' else sw.golden_ticks)),
                                 'unit': s['unit'], 'for': s['for']})
        if plan['kill']:
            c = plan['kill']
            w.crash = {'who': names[c['who'] % len(names)], 'mode': c['mode'], 'kind': 'kill', 'unit': c['unit'],
                       'at': int(c['frac'] * (sw.golden_ops if c['unit'] == 'op' else sw.golden_ticks))}
        w.samples = {int(x * sw.golden_ops * len(procs)) + 1: None for x in plan['samples']}
        args = [dict(override=t['override'], lists=t['lists'], iters=t['iters'], timeout=t['timeout']) for t in procs]
        tasks = [(n, sw.task(**a)) for n, a in zip(names, args)]
        span = (sw.golden_ops + sw.golden_ticks) * len(procs) * w.op_time
        if plan['others']:
            tasks.append(('other', lambda: other(plan['others'], span, ctx)))
        res = w.run(tasks)
        if plan['others'] and res['other'][0] == 'exc':
            raise res['other'][1]
        ctx.steps += w.steps
        over = any(t['override'] for t in procs)
        stopped = []
        for n, a in zip(names, args):
            r = res[n]
            if r[0] == 'exc':
                if not (isinstance(r[1], sqlite3.OperationalError) and 'locked' in str(r[1])):
                    raise Violation('failure', 'sweep %s stopped with %r' % (n, r[1]))
                ctx.probe('stopped by a lock')
                stopped.append(a)
            elif r[0] == 'dead':
                ctx.probe('killed beside others')
                stopped.append(a)
            else:
                ctx.probe('finished beside others')
        prev = start
        sets = [('image at step %d' % s, im) for s, im in sorted(w.samples.items()) if im is not None] + [('when all had stopped', w.disk.image())]
        lists_over = {c for t in procs if t['override'] for c in sw.configs(t['lists'])}
        for where, im in sets:
            rows = sw.read(im, where)
            sweep.subset(rows, gold, where)
            if not over:
                sweep.structure(rows, where, sw.bott, plan['T'])
            for k in prev.exp:
                if k not in rows.exp and k[0] not in lists_over:
                    raise Violation('removed', '%s: committed row %s is gone' % (where, k))
            for k in prev.sim:
                if k not in rows.sim:
                    raise Violation('removed', '%s: committed trajectory row %s is gone' % (where, k))
            ctx.event(where, rows.digest())
            ctx.state(len(rows.exp), len(rows.sim), sorted((n, len(d)) for n, d in im.items()), ''.join(w.trace[-6:]))
            prev = rows
        image = w.disk.image()
        for a in stopped:
            w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
            r = w.solo(sw.task(**dict(a, timeout=5.0)))
            ctx.steps += w.steps
            if r[0] != 'ok':
                raise Violation('failure', 'rerunning a stopped sweep alone raised %r' % (r[1],))
            image = w.disk.image()
        where = 'after rerunning %d stopped sweeps' % len(stopped)
        rows = sw.read(image, where)
        sweep.structure(rows, where, sw.bott, plan['T'])
        sweep.subset(rows, gold, where)
        want = {}
        for c, d in start.iters().items():
            want[c] = max(v[-1] for v in d.values())
        for t in procs:
            for c in sw.configs(t['lists']):
                want[c] = max(want.get(c, 0), t['iters'])
        have = rows.iters()
        for c in sorted(want, key=repr):
            for q in ('position', 'velocity', 'angle') if sw.bott else ('',):
                v = have.get(c, {}).get(q, [])
                if v != list(range(1, int(want[c]) + 1)):
                    raise Violation('missing', '%s: iterations recorded for %s %s are %s, expected 1 to %d' % (where, c, q, v, want[c]))
        if set(have) != set(want):
            raise Violation('alien', '%s: results for configurations nobody asked for: %s' % (where, sorted(set(have) - set(want), key=repr)[0]))
        seeds = rows.seeds_complete(plan['T'])
        for t in procs:
            for s in (t['lists'] or plan)['seeds']:
                if s not in seeds:
                    raise Violation('missing', '%s: the trajectory of seed %s is not recorded' % (where, s))
        ctx.event('end', rows.digest())
    ctx.simtime += w.now + plan['T'] * sw.S.dt
