"""C06: with unit power and damping, one pass of updates is the classic filter and smoother, however it is cut up.

Several graphs share one model and one estimator.  Each must execute the classic sequence f0 m0 f1 m1 .. b(N-2) .. b0;
the plan decides how these sequences interleave, which library sweep performs which slice, where a graph is
deep-copied (checkpoint) and which of the two copies goes on, and what happens to the discarded one.
"""
import copy
import numpy as np
import classic
import ep
import models
import ref
from core import Violation
from seams import EXC, Fuse
from .common import sprinkle


def gen(rng, tier, idx):
    kinds = rng.choice([('lin',), ('nl',), ('lin', 'nl')] * 3 + [('ungm',), ('bot',), ('bott',), ('l96',)])
    sysd = models.gen_spec(rng, kinds, dmax=4)
    if sysd['kind'] == 'l96':
        sysd.update(d=rng.choice([4, 5]), F=8, delta=0.05)
    d = sysd.get('d', {'ungm': 1, 'bot': 4, 'bott': 5}.get(sysd['kind'], 1))
    est = ep.gen_est(rng, powers=[1, 1, 1.0], dampings=[1, 1.0], d=d)
    G = rng.choice([1, 1, 2, 2, 3])
    graphs = []
    for g in range(G):
        N = rng.choice([1, 2, 3, 4, 5, 6, 8] + ([15, 25] if rng.random() < 0.1 else []))
        graphs.append({'N': N, 'seed': rng.randrange(1 << 30), 'order': rng.choice(['es', 'se']),
                       'yshape': rng.choice(['vec', 'mat', 'arr', 'col']), 'fargs': ep.gen_fargs(rng, N),
                       'outlier': rng.choice([0, 0, 0, 5.0])})
    plan = {'sys': sysd, 'est': est, 'graphs': graphs, 'ops': [], 'future': rng.random() < 0.3}
    total = sum(3 * g['N'] for g in graphs)
    ops = plan['ops']
    todo = total
    noisy = rng.random() < 0.5
    while todo > 0 and len(ops) < 120:
        g = rng.randrange(G)
        r = rng.random()
        if r < 0.45:
            n = rng.choice([1, 1, 1, 2, 3])
            ops += [['u', g]] * n
            todo -= n
        elif r < 0.75:
            n = rng.randint(1, 6)
            ops.append(['k', g, n])
            todo -= 2 * n
        elif r < 0.8:
            ops.append(['S', g])
            todo -= 3 * graphs[g]['N']
        elif r < 0.9:
            ops.append(['c', g, rng.choice(['drop', 'junk', 'keep'])])
        elif r < 0.93:
            ops.append(['e', g])
        elif noisy:
            ops.append(['x', rng.choice('fmbS'), rng.randrange(4),
                        rng.choice([None, 'LinAlgError', 'ValueError', 'KeyboardInterrupt']), rng.choice([0, 0, 1])])
    return plan


class Graph:
    def __init__(self, S, est, plan, e):
        self.S, self.est, self.plan, self.e = S, est, plan, e
        self.xs, self.ys = models.make_data(S, plan['N'], plan['seed'], plan['outlier'])
        self.N = plan['N']
        self.fargs = ep.ref_fargs(plan, S, self.N)
        self.nodes, self.meas = ep.build_graph(S, est, self.ys, ep.farg_list(plan, S), plan['order'], plan['yshape'])
        self.pos = 0
        self.seq = ep.SWEEP_ORDER['ep_fwd_back_updates'](self.N)
        self.history = {}
        self.expect()

    def expect(self):
        """All textbook estimates of this graph, computed up front."""
        S, FZ = self.S, classic.fzs()
        E = ep.ref_estimator(S, self.e)
        b = classic.const(S.m0, S.P0)
        self.pred, self.filt, self.smth = [], [], [None] * self.N
        for k in range(self.N):
            a = self.fargs[k]
            b = classic.predict(E.tm, lambda x: S.f(x, **a), lambda x: S.Df(x, **a), E.Q, b, FZ)
            b = classic.vague(b, FZ)
            self.pred.append(b)
            b = classic.correct(E.mm, S.h, S.Dh, E.R, self.ys[k], b, FZ)
            self.filt.append(b)
        self.smth[-1] = b
        for k in reversed(range(self.N - 1)):
            a = self.fargs[k + 1]
            self.smth[k] = b = classic.smooth(E.tm, lambda x: S.f(x, **a), lambda x: S.Df(x, **a), E.Q, self.filt[k], b, FZ)
        self.blind = any(not x.ok for x in self.filt + self.smth)   # a projection is impossible or undecidable somewhere


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.S = models.build(plan['sys'])
        self.est = ep.make_estimator(self.S, plan['est'])
        self.gs = [Graph(self.S, self.est, g, plan['est']) for g in plan['graphs']]
        self.junk, _ = ep.build_graph(self.S, self.est, models.make_data(self.S, 4, 99)[1])
        self.copies = []

    def verify(self, g, upto, what):
        """Compare every node's marginal with what the prefix executed so far implies."""
        G = self.gs[g]
        if G.blind:
            self.ctx.probe('graph not judged')
            return
        fdone = min(upto, 2 * G.N)
        bdone = max(0, upto - 2 * G.N)
        for k in range(G.N):
            if 2 * k + 1 > fdone:
                continue
            if 2 * k + 1 == fdone:
                b, name = G.pred[k], 'predicted'
            elif bdone > G.N - 1 - k:
                b, name = G.smth[k], 'smoothed'
            else:
                b, name = G.filt[k], 'filtered'
            if G.history.get(k) == name:
                continue
            v = classic.judge(ep.mom_of(G.nodes[k].marginal), b, 'graph %d after %s, node %d (%s)' % (g, what, k, name))
            self.ctx.probe('%s estimate %s' % (name, v))
            G.history[k] = name

    def advance(self, g, n, how):
        G = self.gs[g]
        N = G.N
        if how == 'k':
            import ExpectationPropagation.Iterations as It
            if G.pos < 2 * N and G.pos % 2 == 0:
                a = G.pos // 2
                n = min(n, N - a)
                It.kalman_filter(G.nodes[a:a + n])
                G.pos += 2 * n
            elif G.pos >= 2 * N:
                done = G.pos - 2 * N
                n = min(n, N - done)
                It.kalman_smoother(G.nodes[N - done - n:N - done])
                G.pos += n
            else:
                how = 'u'
        if how == 'u' and G.pos < 3 * N:
            op, i = G.seq[G.pos]
            getattr(G.nodes[i], ep.KIND[op])()
            G.pos += 1
        self.ctx.steps += n

    def do(self, op):
        k = op[0]
        if k == 'x':      # work on another graph that shares model and estimator, possibly failing
            _, what, i, exc, at = op
            call = (lambda: ep.run_sweep('ep_update', self.junk)) if what == 'S' else getattr(self.junk[i], ep.KIND[what])
            if exc is None:
                call()
                return
            with Fuse(self.S.taps, exc, at) as fz:
                try:
                    call()
                except BaseException as e:
                    if not any(e is r for r in fz.raised):
                        raise
            if fz.fired:
                self.ctx.fault('%s in another graph' % exc)
            return
        g = op[1] % len(self.gs)
        G = self.gs[g]
        if k == 'c':
            twin = copy.deepcopy(G.nodes)
            self.ctx.fault('checkpoint and resume from the copy')
            old, G.nodes = G.nodes, twin
            if op[2] == 'junk':
                ep.run_sweep('ep_update', old)
            elif op[2] == 'keep':
                G.nodes = old
                ep.run_sweep('ep_update', twin)
            G.history.clear()
        elif k == 'e':
            from ExpectationPropagation.Nodes import node_estimator
            G.nodes = node_estimator(G.nodes, self.est)
        elif k == 'S':
            if G.pos == 0:
                ep.run_sweep('ep_fwd_back_updates', G.nodes)
                G.pos = 3 * G.N
                self.ctx.steps += G.pos
        else:
            self.advance(g, op[2] if len(op) > 2 else 1, k)
        self.verify(g, G.pos, repr(op))
        self.ctx.event(op, G.pos, [x.tobytes() for n in G.nodes for x in ep.nat_of(n.marginal)])
        self.ctx.state([(q.N, q.pos) for q in self.gs], op[0])

    def run(self):
        for op in self.plan['ops']:
            self.do(op)
        for g, G in enumerate(self.gs):
            while G.pos < 3 * G.N:
                self.advance(g, 1, 'u')
                self.verify(g, G.pos, 'the final pass')
            G.history.clear()
            self.verify(g, G.pos, 'the run')
            self.ctx.event([x.tobytes() for n in G.nodes for x in ep.nat_of(n.marginal)])
        if self.plan['future']:
            self.no_lookahead()

    def no_lookahead(self):
        """Filtering estimates up to k do not change by a bit when measurements after k do."""
        G = self.gs[0]
        k = max(0, G.N // 2 - 1)
        ys = [y + 100.0 if j > k else y for j, y in enumerate(G.ys)]
        out = []
        for data in (G.ys, ys):
            nodes, _ = ep.build_graph(self.S, self.est, data, ep.farg_list(G.plan, self.S), 'es', G.plan['yshape'])
            ep.run_sweep('kalman_filter', nodes)
            out.append([np.concatenate([x.ravel() for x in ep.nat_of(n.marginal)]) for n in nodes[:k + 1]])
        for j in range(k + 1):
            if not np.array_equal(out[0][j], out[1][j], equal_nan=True):
                raise Violation('look-ahead', 'the filtering estimate of node %d depends on measurements after node %d' % (j, k))
        self.ctx.probe('look-ahead checked')


def run(plan, ctx):
    with np.errstate(all='ignore'):
        r = Run(plan, ctx)
        r.run()
    ctx.simtime += sum(g.N for g in r.gs) * r.S.dt
