"""C12: a crash keeps every completed sweep iteration, and only whole ones.

A sweep runs on the simulated disk and is killed, or the machine loses power, at a seeded disk operation (before, after
or in the middle of it) or inside a model function.  What the disk then holds is opened by a new process and compared
with the uninterrupted sweep and with what had been completed.  The crashed sweep may go on from that image and crash again.
"""
import numpy as np
import simdisk
import sweep
from core import Violation
from simdisk import World, Disk


def crash_plan(rng):
    c = {'frac': rng.random(), 'unit': rng.choice(['op', 'op', 'op', 'tick']), 'who': None,
         'mode': rng.choice(['before', 'after', 'torn']), 'kind': rng.choice(['kill', 'power', 'power']),
         'seed': rng.randrange(1 << 30), 'policy': rng.choice(['some', 'some', 'none', 'all', 'prefix'])}
    return c


def gen(rng, tier, idx):
    p = sweep.gen_sweep(rng)
    p['attempts'] = []
    for _ in range(rng.randint(2, 6)):
        p['attempts'].append({'from': rng.choice(['start', 'start', 'last']), 'crash': crash_plan(rng),
                              'override': rng.random() < 0.15})
    return p


def place(c, sw, ops=None, ticks=None):
    """A crash plan with a relative position -> one with an absolute step."""
    c = dict(c)
    n = (ops or sw.golden_ops) if c['unit'] == 'op' else (ticks or sw.golden_ticks)
    c['at'] = int(c.pop('frac') * (n + 1))
    return c


class Acks:
    """What one simulated process has completed, from the model calls it makes."""

    def __init__(self, seq):
        self.seq, self.n = seq, 0

    def on_run(self, j):
        self.n = j

    def completed(self, all_=False):
        seq = self.seq if all_ else self.seq[:self.n]
        return [x for x in seq if x[0] != 'sim'], [x[1] for x in (seq if all_ else seq[:self.n]) if x[0] == 'sim']


def run(plan, ctx):
    with np.errstate(all='ignore'):
        sw = sweep.Sweep(plan, ctx)
        gold = sw.golden()
        sweep.structure(gold, 'uninterrupted sweep', sw.bott, plan['T'])
        sweep.equal_grid(sw, gold)
        image = {}
        start = sw.read(image)
        ctx.steps += sw.golden_ops
        ctx.event(gold.digest())
        for k, a in enumerate(plan['attempts']):
            if a['from'] == 'start':
                image, start = {}, sw.read({})
            where = 'attempt %d' % k
            seq = sw.sequence(start, a['override'])
            acks = Acks(seq)
            w = simdisk.activate(World(Disk.from_image(image), seed=a['crash']['seed'], ctx=ctx))
            w.crash = place(a['crash'], sw)
            res = w.solo(sw.task(override=a['override'], on_run=acks.on_run))
            if res[0] == 'exc':
                raise Violation('failure', '%s: the sweep raised %r' % (where, res[1]))
            crashed = w.crashed is not None
            ctx.steps += w.steps
            ctx.probe('crashed' if crashed else 'finished before the crash point')
            new = w.crashed if crashed else w.disk.image()
            where += ' (%s %s operation %d, %s)' % (a['crash']['kind'], a['crash']['mode'], w.procs[0].ops, a['crash']['unit'])
            rows = sw.read(new, where)
            sweep.structure(rows, where, sw.bott, plan['T'])
            sweep.subset(rows, gold, where)
            its, sims = acks.completed(all_=not crashed) if sw.trust or not crashed else ([], [])
            have = {(c, i) for c, i, _ in rows.exp}
            need = set(its)
            for c, i, _ in start.exp:           # rows that were there stay, unless their configuration is being redone,
                if i == 1 or not a['override'] or sw.trust and (c, 1) not in seq[:acks.n + 1] and crashed:
                    need.add((c, i))    # and its first iteration is replaced in one step
            for x in sorted(need, key=repr):
                if x not in have:
                    raise Violation('lost', '%s: %s was completed before the crash and is not in the database' % (where, x))
            done = rows.seeds_complete(plan['T'])
            for s in sorted(set(s for s in sims if any(q[0] != 'sim' and q[0][0] == s for q in seq[:acks.n + 1])) |
                            start.seeds_complete(plan['T'])):
                if s not in done:
                    raise Violation('lost', '%s: the trajectory of seed %s was complete and is not in the database' % (where, s))
            ctx.event(where, rows.digest())
            ctx.state(a['crash']['kind'], a['crash']['mode'], len(rows.exp), len(rows.sim), acks.n, sorted((n, len(d)) for n, d in new.items()))
            image, start = new, rows
    ctx.simtime += plan['T'] * sw.S.dt
