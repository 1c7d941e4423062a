"""C14: storage errors are reported, never silently absorbed.

Disk operations of a sweep fail at seeded points (errors, short writes, full disk, locks that stay busy), once or from then
on; the sweep must either raise or have recorded everything.  Afterwards the machine may also lose power.  Then committed rows
are compared, and an undisturbed sweep must complete the table.
"""
import random
import sqlite3
import numpy as np
import simdisk
import sweep
from core import Violation
from simdisk import World, Disk
from props.c12 import Acks

KINDS = ['write', 'write', 'write', 'sync', 'sync', 'read', 'truncate', 'size', 'delete', 'lock', 'lock', 'lock', 'open', 'access', 'any', 'any']


def gen_fault(rng):
    op = rng.choice(KINDS)
    err = 'io'
    if op == 'write':
        err = rng.choice(['io', 'short', 'full', 'full'])
    elif op == 'lock':
        err = rng.choice(['io', 'busy', 'busy'])
    n = [1, 1, 1, 2, 3, 10, 10 ** 9]
    if err == 'busy':           # SQLite gives up on a lock after some 60 attempts
        n = [1, 10, 65, 65, 70, 130, 200, 10 ** 9]
    return {'op': op, 'frac': rng.random(), 'n': rng.choice(n), 'err': err, 'who': None}


def gen(rng, tier, idx):
    p = sweep.gen_sweep(rng)
    p['attempts'] = []
    for _ in range(rng.randint(1, 5)):
        p['attempts'].append({'from': rng.choice(['start', 'last', 'last']),
                              'faults': [gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
                              'quota': rng.random() if rng.random() < 0.2 else None,
                              'power': {'seed': rng.randrange(1 << 30), 'policy': rng.choice(['some', 'none', 'all', 'prefix'])}
                              if rng.random() < 0.3 else None,
                              'override': rng.random() < 0.1, 'again': rng.random() < 0.4})
    return p


def shrinks(plan):
    v = plan['attempts']
    for k in range(len(v)):
        yield dict(plan, attempts=v[:k] + v[k + 1:])
    for k in range(len(v)):
        for j in range(len(v[k]['faults'])):
            yield dict(plan, attempts=v[:k] + [dict(v[k], faults=v[k]['faults'][:j] + v[k]['faults'][j + 1:])] + v[k + 1:])
        for key, to in (('quota', None), ('power', None), ('override', False), ('again', False)):
            if v[k][key] != to:
                yield dict(plan, attempts=v[:k] + [dict(v[k], **{key: to})] + v[k + 1:])


def run(plan, ctx):
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        gold = sw.golden()
        size = sw.golden_size
        ctx.event(gold.digest())
        image, start = {}, sw.read({})
        for k, a in enumerate(plan['attempts'] + [None]):
            if a is None or a['from'] == 'start':
                if a is not None:
                    image, start = {}, sw.read({})
                elif not plan['attempts']:
                    break
            if a is None:
                a = {'faults': [], 'quota': None, 'power': None, 'override': False, 'again': False}
            where = 'attempt %d' % k
            seq = sw.sequence(start, a['override'])
            acks = Acks(seq)
            w = simdisk.activate(World(Disk.from_image(image), ctx=ctx))
            for f in a['faults']:
                n = sw.golden_ops if f['op'] == 'any' else sw.golden_by_kind.get(f['op'], 1)
                w.faults.append(dict(f, at=int(f['frac'] * n)))
            if a['quota'] is not None:
                w.quota = int(a['quota'] * size)
            res = w.solo(sw.task(override=a['override'], on_run=acks.on_run))
            ctx.steps += w.steps
            fired = any(f.get('fired') for f in w.faults) or getattr(w, 'full', False)
            if res[0] == 'dead':
                raise Violation('failure', '%s: the sweep died' % where)
            if res[0] == 'exc' and not fired:
                raise Violation('failure', '%s: no fault was injected and the sweep raised %r' % (where, res[1]))
            ctx.probe(('the sweep raised ' + type(res[1]).__name__) if res[0] == 'exc' else
                      'faults absorbed' if fired else 'no fault reached')
            where += ' (%s)' % ', '.join('%s %s at %d' % (f['op'], f['err'], f['at']) for f in w.faults if f.get('fired'))
            images = [('', w.disk.image())]
            if a['power']:
                images.append((', then power loss', w.disk.power_image(random.Random(a['power']['seed']), a['power']['policy'])))
                ctx.fault('power loss after the errors')
            for what, im in images:
                rows = sw.read(im, where + what)
                sweep.structure(rows, where + what, sw.bott, plan['T'])
                if res[0] == 'ok':
                    sweep.completed(sw, rows, gold, start, where + what + ': the sweep returned normally', plan['iters'])
                    sweep.equal(rows, gold, where + what)
                else:
                    sweep.subset(rows, gold, where + what)
                    have = {(c, i) for c, i, _ in rows.exp}
                    need = set(acks.completed()[0]) if sw.trust else set()
                    for c, i, _ in start.exp:
                        if i == 1 or not a['override'] or sw.trust and (c, 1) not in seq[:acks.n + 1]:
                            need.add((c, i))
                    for x in sorted(need, key=repr):
                        if x not in have:
                            raise Violation('lost', '%s: %s was committed before the fault and is not in the database' % (where + what, x))
                    for x in start.sim:
                        if x not in rows.sim:
                            raise Violation('lost', '%s: trajectory row %s is gone' % (where + what, x))
                ctx.event(where + what, rows.digest(), res[0])
                ctx.state(res[0], [(f['op'], f['err'], f['n']) for f in w.faults if f.get('fired')], len(rows.exp), len(rows.sim), acks.n,
                          sorted((n, len(d)) for n, d in im.items()))
            image, start = im, rows
            if a['again']:          # the fault has gone: an undisturbed sweep completes the table
                w = simdisk.activate(World(Disk.from_image(im), ctx=ctx))
                res = w.solo(sw.task())
                ctx.steps += w.steps
                if res[0] != 'ok':
                    raise Violation('failure', '%s: rerunning without faults raised %r' % (where, res[1]))
                sweep.equal(sw.read(w.disk.image(), where), gold, where + what + ', rerun without faults')
    ctx.simtime += plan['T'] * sw.S.dt
