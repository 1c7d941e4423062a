"""Plan generators shared by the EP properties."""
import ep
import models


def ep_plan(rng, idx, nmax=8, ops=(10, 40), kinds=None, mct=False, harsh=False, powers=None, dampings=None,
            sweeps=True, dmax=4, big=0.03):
    kinds = kinds or rng.choice([('lin',), ('nl',), ('nl',), ('lin', 'nl'), ('ungm',), ('bot',), ('bott',), ('l96',)]
                                if rng.random() < 0.35 else [('lin',), ('nl',)])
    sysd = models.gen_spec(rng, kinds, dmax=dmax, harsh=harsh)
    if sysd['kind'] == 'l96':
        sysd.update(d=rng.choice([4, 5, 6]), F=rng.choice([8, 3]), delta=0.05)
    d = sysd.get('d', {'ungm': 1, 'bot': 4, 'bott': 5}.get(sysd['kind'], 1))
    N = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
    N = min(N, nmax)
    if rng.random() < big:
        N = rng.choice([20, 40])
        n = rng.randint(6, 12)
    else:
        n = rng.randint(*ops)
    plan = {'sys': sysd, 'data': {'N': N, 'seed': rng.randrange(1 << 30)},
            'est': ep.gen_est(rng, mct=mct, powers=powers, dampings=dampings, d=d),
            'fargs': ep.gen_fargs(rng, N), 'order': rng.choice(['es', 'se']),
            'yshape': rng.choice(['vec', 'mat', 'arr', 'col']),
            'ops': (ep.start_ops(rng, N) + ep.gen_ops(rng, N, n, sweeps=sweeps))}
    if harsh or rng.random() < 0.1:
        plan['data']['outlier'] = rng.choice([3.0, 30.0] + ([1e3, 1e6] if harsh else []))
    return plan


def sprinkle(rng, ops, prob, faults):
    """Attach faults to some operations, biased to bursts and to the operations right after a success."""
    out, hot = [], 0
    for op in ops:
        p = prob * (3 if hot > 0 else 1)
        hot -= 1
        if op[0] in ('f', 'm', 'b', 'S') and len(op) == 2 and rng.random() < p:
            out.append(op + [faults(rng, op)])
            hot = 2 if rng.random() < 0.4 else 0
        else:
            out.append(op)
    return out
