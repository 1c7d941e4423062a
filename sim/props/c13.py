"""C13: an interrupted sweep, rerun, ends as if never interrupted.

Any number of attempts at the sweep (of parts of its grid, with other iteration counts, with override) are killed, lose
power, are interrupted by an exception out of a model function, or finish; each starts from what the previous one left.
A last undisturbed run must then leave exactly the table of the uninterrupted sweep.
"""
import numpy as np
import simdisk
import sweep
from core import Violation, SimAbort
from simdisk import World, Disk
from props.c12 import crash_plan, place


def gen(rng, tier, idx):
    p = sweep.gen_sweep(rng, mct=0.15)
    p['attempts'] = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        a = {'crash': crash_plan(rng), 'override': rng.random() < 0.15, 'iters': p['iters'], 'lists': None}
        if rng.random() < 0.3:
            a['iters'] = max(1, p['iters'] + rng.choice([-2, -1, 1, 2]))
        if rng.random() < 0.4:
            a['lists'] = sweep.gen_lists(rng, p)
        if rng.random() < 0.25:
            a['crash'].update(unit='tick', kind='raise', exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'SimAbort', 'ValueError']))
        p['attempts'].append(a)
    return p


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SimAbort': SimAbort, 'ValueError': ValueError}


def shrinks(plan):
    v = plan['attempts']
    for k in range(len(v)):
        yield dict(plan, attempts=v[:k] + v[k + 1:])
    for k in range(len(v)):
        for key, to in (('override', False), ('lists', None), ('iters', plan['iters'])):
            if v[k][key] != to:
                yield dict(plan, attempts=v[:k] + [dict(v[k], **{key: to})] + v[k + 1:])
    for key in ('seeds', 'trans', 'powers', 'damps'):
        if len(plan[key]) > 1 and not any(a['lists'] for a in v):
            yield dict(plan, **{key: plan[key][:-1]})


def run(plan, ctx):
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        top = max([plan['iters']] + [a['iters'] for a in plan['attempts']])
        gold = sw.golden(iters=top)
        ctx.event(gold.digest())
        image, tops = {}, {}
        for k, a in enumerate(plan['attempts']):
            where = 'attempt %d' % k
            w = simdisk.activate(World(Disk.from_image(image), seed=a['crash']['seed'], ctx=ctx))
            c = place(a['crash'], sw)
            cls = None
            if c['kind'] == 'raise':
                cls = EXC[c['exc']]
                count = [0]

                def extra(kind, c=c, count=count, cls=cls):
                    count[0] += 1
                    if count[0] == c['at'] + 1:
                        ctx.fault('exception out of a model function: ' + cls.__name__)
                        raise cls('injected')
                sw.tick_extra = extra
            else:
                w.crash = c
            res = w.solo(sw.task(override=a['override'], lists=a['lists'], iters=a['iters']))
            sw.tick_extra = None
            if res[0] == 'exc' and not (cls and isinstance(res[1], cls)):
                raise Violation('failure', '%s: the sweep raised %r' % (where, res[1]))
            ctx.steps += w.steps
            image = w.crashed if w.crashed is not None else w.disk.image()
            if w.crashed is None and res[0] == 'ok':
                ctx.probe('an attempt finished')
            where += ' (%s)' % c['kind']
            rows = sw.read(image, where)
            sweep.structure(rows, where, sw.bott, plan['T'])
            sweep.subset(rows, gold, where)
            ctx.event(where, rows.digest())
            ctx.state(c['kind'], c['mode'], len(rows.exp), len(rows.sim), k, sorted((n, len(d)) for n, d in image.items()))
        start = sw.read(image)
        w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
        res = w.solo(sw.task())
        if res[0] != 'ok':
            raise Violation('failure', 'the undisturbed run after %d attempts raised %r' % (len(plan['attempts']), res[1]))
        ctx.steps += w.steps
        rows = sw.read(w.disk.image(), 'after the undisturbed run')
        sweep.structure(rows, 'after the undisturbed run', sw.bott, plan['T'])
        sweep.completed(sw, rows, gold, start, 'after the undisturbed run', plan['iters'])
        if top == plan['iters']:
            sweep.equal(rows, gold, 'after the undisturbed run')
        ctx.event('end', rows.digest())
    ctx.simtime += plan['T'] * sw.S.dt
