"""C07: deep copies share nothing that changes and resume bit for bit.

Several replicas of one graph are created by copy.deepcopy at arbitrary points, also in the middle of an update.
Every replica carries the list of operations that produced it; each operation fixes the global random state first.
Invariants after every operation: replicas other than the one operated on keep their exact values, and replicas with
equal histories have equal bits.  At the end the histories are replayed on freshly built graphs.
"""
import copy
import numpy as np
import ep
import models
from core import Violation
from seams import Fuse, FOREIGN, LINALG
from .common import ep_plan


def one(rng, N):
    if rng.random() < 0.1:
        return ['S', rng.choice(['kalman_filter', 'kalman_smoother', 'ep_fwd_back_updates', 'ep_update'])]
    op = [rng.choice('fmb'), rng.randrange(N)]
    if rng.random() < 0.12:
        op.append({'exc': rng.choice(LINALG + (rng.choice(FOREIGN),)), 'at': rng.choice([0, 0, 1])})
    return op


def gen(rng, tier, idx):
    plan = ep_plan(rng, idx, nmax=6, ops=(0, 0), mct=rng.random() < 0.35, big=0.0)
    N = plan['data']['N']
    if rng.random() < 0.05:
        N = plan['data']['N'] = rng.choice([15, 25])
        if plan['fargs'] is not None:
            plan['fargs'] = ep.gen_fargs(rng, N)
    plan['start'] = [o for o in ep.start_ops(rng, N)][:rng.randint(0, 3 * N)]
    ops, R = [], 1
    for _ in range(rng.randint(8, 30)):
        r = rng.random()
        seed = rng.randrange(1 << 30)
        if (r < 0.15 or R == 1 and r < 0.4) and R < 4:
            ops.append(['C', rng.randrange(R)])
            R += 1
        elif r < 0.2 and R < 4:
            ops.append(['M', rng.randrange(R), [rng.choice('fmb'), rng.randrange(N)], seed])
            R += 1
        elif r < 0.6 and R > 1:
            a, b = rng.sample(range(R), 2)
            ops.append(['L', a, b, one(rng, N), seed])
        elif r < 0.9:
            ops.append(['u', rng.randrange(R), one(rng, N), seed])
        elif r < 0.95:
            ops.append(['W', rng.randrange(R), rng.randrange(N), rng.choice(['marginal', 'forward_factor', 'measurement_factor', 'back_factor', 'meas', 'prior']),
                        rng.choice(['mean', 'cov', 'precision', 'shift'])])
        elif r < 0.97:
            ops.append(['E', rng.randrange(R), ep.gen_est(rng, d=1)])
        else:
            ops.append(['N', rng.choice([0.5, 3.0])])
    plan['ops'] = ops
    return plan


class Replica:
    def __init__(self, nodes, hist, own_est):
        self.nodes, self.hist, self.taint = nodes, tuple(hist), False
        self.own_est = own_est      # False: equipped with the estimator object the run can still change


def public(n):
    """Everything about a node a user can see, as bytes."""
    out = []
    for a in ('marginal', 'forward_factor', 'measurement_factor', 'back_factor'):
        p, s = ep.nat_of(getattr(n, a))
        m, c = ep.mom_of(getattr(n, a))
        out += [p.tobytes(), s.tobytes(), m.tobytes(), c.tobytes()]
    out.append(np.asarray(n.meas, dtype=float).tobytes())
    out.append(repr((n.power, n.damping, n.index, n.dim)).encode())
    if n.index == 0:
        out += [x.tobytes() for x in ep.mom_of(n.prior)]
    return b'|'.join(out)


def view(nodes):
    return [public(n) for n in nodes]


class Run(ep.EPRun):
    def fresh(self):
        """A new graph with its own model objects."""
        S = models.build(self.plan['sys'])
        nodes, _ = ep.build_graph(S, ep.make_estimator(S, self.e), self.ys, ep.farg_list(self.plan, S),
                                  self.plan.get('order', 'es'), self.plan.get('yshape', 'vec'))
        return nodes, S

    def apply(self, nodes, op, seed, S=None):
        np.random.seed(seed & 0x7fffffff)
        S = S or self.S
        call = (lambda: ep.run_sweep(op[1], nodes)) if op[0] == 'S' else getattr(nodes[op[1]], ep.KIND[op[0]])
        if len(op) > 2:
            with Fuse(S.taps, op[2]['exc'], op[2]['at']) as fz:
                try:
                    call()
                except BaseException as e:
                    if not any(e is r for r in fz.raised):
                        raise
            if fz.fired:
                self.ctx.fault('%s in a model function' % op[2]['exc'])
        else:
            call()
        self.ctx.steps += 1 if op[0] != 'S' else self.N

    def linked(self, nodes, where):
        for i, n in enumerate(nodes):
            if (n.next_node is not (nodes[i + 1] if i + 1 < len(nodes) else None)) or \
                    (n.prev_node is not (nodes[i - 1] if i else None)):
                raise Violation('copy', '%s: node %d of the copy is not linked to the copied neighbours' % (where, i))

    def run(self):
        reps = [Replica(self.nodes, (), False)]
        for op in self.plan['start']:
            self.apply(reps[0].nodes, op, 7)
            reps[0].hist += (repr((op, 7)),)
        self.views = [view(r.nodes) for r in reps]
        for op in self.plan['ops']:
            self.step(reps, op)
        # what the histories say, executed from scratch
        for k, r in enumerate(reps):
            if r.taint or k == 0 and len(reps) > 1:
                continue
            nodes, S = self.fresh()
            for h in r.hist:
                o, seed = eval(h)
                if o[0] == 'E':
                    from ExpectationPropagation.Nodes import node_estimator
                    nodes = node_estimator(nodes=nodes, estimator=ep.make_estimator(S, o[1]))
                else:
                    self.apply(nodes, o, seed, S)
            if view(nodes) != view(r.nodes):
                raise Violation('resume', 'replica %d differs from an uninterrupted run of the same %d operations'
                                % (k, len(r.hist)))
            self.ctx.probe('history replayed')

    def step(self, reps, op):
        k = op[0]
        R = len(reps)
        touched = []
        if k in 'CM':
            r = reps[op[1] % R]
            if k == 'C':
                new = Replica(copy.deepcopy(r.nodes), r.hist, True)
                self.ctx.fault('deep copy between updates')
            else:
                box = []

                def hook(tap, a, kw):
                    if not box:
                        box.append(Replica(copy.deepcopy(r.nodes), r.hist, True))
                for t in self.S.taps:
                    t.hook = hook
                try:
                    self.apply(r.nodes, op[2], op[3])
                finally:
                    for t in self.S.taps:
                        t.hook = None
                r.hist += (repr((op[2], op[3])),)
                touched = [op[1] % R]
                if not box:
                    new = None
                else:
                    new = box[0]
                    self.ctx.fault('deep copy inside an update')
            if new is not None:
                new.taint = r.taint
                self.linked(new.nodes, 'after ' + repr(op))
                if k == 'C' and view(new.nodes) != self.views[op[1] % R]:
                    raise Violation('copy', 'the copy taken by %r differs from its original' % (op,))
                if k == 'M' and view(new.nodes) != self.views[op[1] % R]:
                    raise Violation('copy', 'the copy taken inside %r differs from the state before the update' % (op,))
                reps.append(new)
                self.views.append(view(new.nodes))
        elif k == 'u':
            r = reps[op[1] % R]
            self.apply(r.nodes, op[2], op[3])
            r.hist += (repr((op[2], op[3])),)
            touched = [op[1] % R]
        elif k == 'L':
            for j in (op[1] % R, op[2] % R):
                before = [v for i, v in enumerate(self.views)]
                self.apply(reps[j].nodes, op[3], op[4])
                reps[j].hist += (repr((op[3], op[4])),)
                self.unchanged(reps, [j], op)
                self.views[j] = view(reps[j].nodes)
            touched = [op[1] % R, op[2] % R]
        elif k == 'W':
            j = op[1] % R
            r = reps[j]
            n = r.nodes[op[2] if op[3] != 'prior' else 0]
            arr = n.meas if op[3] == 'meas' else getattr(getattr(n, op[3]), op[4])
            try:
                arr += 1.25
                self.ctx.fault('write into an array of one replica')
            except ValueError:      # read-only arrays are fine
                pass
            r.taint = True
            touched = [j]
            if op[3] in ('prior', 'meas'):   # replica 0 holds the caller's own objects
                r.taint = True
        elif k == 'E':
            from ExpectationPropagation.Nodes import node_estimator
            r = reps[op[1] % R]
            e = dict(op[2])
            r.nodes = node_estimator(nodes=r.nodes, estimator=ep.make_estimator(self.S, e))
            r.hist += (repr((['E', e], 0)),)
            r.own_est = True
            touched = [op[1] % R]
        elif k == 'N':
            self.est.transition_noise *= op[1]
            self.est.measurement_noise *= op[1]
            self.ctx.fault('shared estimator changed in place')
            for r in reps:
                if not r.own_est:
                    r.taint = True
        self.unchanged(reps, touched, op)
        for j in touched:
            self.views[j] = view(reps[j].nodes)
        seen = {}
        for j, r in enumerate(reps):
            if r.taint:
                continue
            if r.hist in seen and self.views[seen[r.hist]] != self.views[j]:
                raise Violation('resume', 'after %r replicas %d and %d executed the same operations but differ'
                                % (op, seen[r.hist], j))
            if r.hist in seen and len(r.hist):
                self.ctx.probe('equal histories compared')
            seen.setdefault(r.hist, j)
        self.ctx.event(op, self.views)
        self.ctx.state(self.N, op[0], [(len(r.hist), r.taint) for r in reps])

    def unchanged(self, reps, touched, op):
        for j, r in enumerate(reps[:len(self.views)]):
            if j not in touched and view(r.nodes) != self.views[j]:
                raise Violation('independence', '%r changed replica %d, which it does not operate on' % (op, j))


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += r.N * r.S.dt
