"""State-space models: a JSON spec -> the repository's system object plus an independent reference.

The reference functions are written here from the models' published definitions; they share no
code with /repo.  Jacobians of the reference are analytic or complex-step.
"""
import numpy as np
from seams import Tap

BOT_SENSORS = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
BOTT_SENSORS = [(-20000, 20000), (20000, 20000), (-20000, -20000), (20000, -20000)]


def rs_of(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def spd(rs, d, lo, hi):
    """Random SPD matrix with eigenvalues log-uniform in [lo, hi]."""
    q, _ = np.linalg.qr(rs.randn(d, d))
    e = np.exp(rs.uniform(np.log(lo), np.log(hi), size=d))
    c = (q * e) @ q.T
    return (c + c.T) / 2


def cstep(f, x):
    """Complex-step Jacobian of f at x, f: (d,) -> (m,)."""
    x = np.asarray(x, dtype=float)
    cols = []
    for i in range(x.size):
        z = x.astype(complex)
        z[i] += 1e-30j
        cols.append(np.imag(np.asarray(f(z)).reshape(-1)) / 1e-30)
    return np.array(cols).T


class System:
    """Reference side of a model: f, h on (d,) or (n, d) real or complex arrays; Df, Dh; Q, R, m0, P0."""
    pass


def gen_spec(rng, kinds=('lin', 'nl'), dmax=4, mmax=3, harsh=False, ht=False):
    kind = rng.choice(kinds)
    s = {'kind': kind, 'seed': rng.randrange(1 << 30)}
    if kind in ('lin', 'nl'):
        s['d'] = rng.choice([1, 1, 2, 2, 3, 4, 5, 6][:max(2, dmax + 2)])
        s['d'] = min(s['d'], dmax)
        s['m'] = rng.choice([1, 1, 2, 3, 4][:mmax + 1])
        s['m'] = min(s['m'], mmax)
        s['dt'] = rng.choice([1, 1, 0.5, 0.25, 0.1])
        s['batch'] = rng.choice(['vec', 'mat'])
        s['tv'] = rng.choice([0, 0, 1])
        s['rad'] = rng.choice([0.5, 0.9, 1.0, 1.05])
        s['q'] = rng.choice([[0.1, 1.0], [0.5, 2.0], [0.01, 0.1]])
        s['r'] = rng.choice([[0.1, 1.0], [0.5, 2.0], [0.01, 0.1], [2.0, 10.0]])
        s['nl'] = rng.choice([0.1, 0.5, 1.5]) if kind == 'nl' else 0
        s['hk'] = rng.choice(['sin', 'sq', 'tanh']) if kind == 'nl' else 'lin'
        s['form'] = rng.choice(['dense'] * 6 + ['block', 'block', 'plain', 'scaled'])
        if ht:
            s['ht'] = rng.choice([0, 1])
        if harsh:
            s['rad'] = rng.choice([0.1, 1.0, 1.3, 3.0])
            s['q'] = rng.choice([[1e-6, 1e-2], [0.1, 1.0], [1.0, 100.0]])
            s['r'] = rng.choice([[1e-8, 1e-3], [0.1, 1.0], [1.0, 1e3]])
            s['nl'] = rng.choice([0.5, 5.0, 25.0]) if kind == 'nl' else 0
    return s


def _random_model(S, s):
    d, m = s['d'], s['m']
    rs = rs_of('model', s['seed'])
    A = rs.randn(d, d)
    A *= s['rad'] / max(np.linalg.norm(A, 2), 1e-9) if d > 1 else s['rad'] / abs(A[0, 0])
    A2 = rs.randn(d, d) * 0.15 * s['rad'] / np.sqrt(d)
    b = rs.randn(d) * 0.5
    g = rs.randn(d) * 0.7
    B = rs.randn(d, d) / np.sqrt(d)
    c = rs.randn(d) * 0.5
    C = rs.randn(m, d)
    for i in range(min(m, d)):
        C[i, i] += 1.5 * np.sign(C[i, i])
    e = rs.randn(m) * 0.3
    D = rs.randn(m, d) / np.sqrt(d)
    k = rs.randn(m) * 0.5
    Q, R, m0, P0 = spd(rs, d, *s['q']), spd(rs, m, *s['r']), rs.randn(d), spd(rs, d, 0.2, 2.0)
    form = s.get('form', 'dense')
    if form == 'block' and d > 1:
        cut = 1 + rs.randint(d - 1)
        part = np.arange(d) >= cut
        same = part[:, None] == part[None, :]
        for M in (A, A2, B, Q, P0):
            M *= same
        sees = np.arange(m) % 2 == rs.randint(2)
        for M in (C, D):
            M *= sees[:, None] == part[None, :]
    elif form == 'plain':
        A, A2, B = s['rad'] * np.eye(d), 0.1 * np.eye(d), np.eye(d)
        Q, R, P0, m0 = s['q'][1] * np.eye(d), s['r'][1] * np.eye(m), np.eye(d), np.zeros(d)
        C, D, e = np.eye(m, d), np.eye(m, d), np.zeros(m)
    elif form == 'scaled':
        sc = 10.0 ** rs.uniform(-1.5, 1.5, size=d)
        A, A2, B = A * sc[:, None] / sc, A2 * sc[:, None] / sc, B / sc
        Q, P0, m0, b, g = Q * sc[:, None] * sc, P0 * sc[:, None] * sc, m0 * sc, b * sc, g * sc
        C, D = C / sc, D / sc
    tv, ht, nl, hk = s['tv'], s.get('ht', 0), s['nl'], s['hk']
    mat = s['batch'] == 'mat'
    span = sc if form == 'scaled' else 1.0

    def trans(xp, x, t, u):
        t = 0.0 if t is None else t
        u = 0.0 if u is None else u
        At = A + A2 * np.cos(0.7 * t) if tv else A
        y = xp.dot(x, At.T) + b * np.sin(0.9 * t + 0.3) + g * u
        if nl:
            y = y + nl * xp.tanh(xp.dot(x, B.T) + c) * span
        return y

    def meas(xp, x, t, u):
        y = xp.dot(x, C.T) + e
        if ht:
            y = y + k * np.sin(0.5 * (0.0 if t is None else t)) + 0.3 * k * (0.0 if u is None else u)
        if hk == 'sin':
            y = y + nl * xp.sin(xp.dot(x, D.T))
        elif hk == 'tanh':
            y = y + nl * xp.tanh(xp.dot(x, D.T))
        elif hk == 'sq':
            y = y + 0.1 * nl * xp.dot(x, D.T) ** 2
        return y

    S.d, S.m, S.dt = d, m, s['dt']
    S.Q, S.R, S.m0, S.P0 = Q, R, m0, P0
    S.f = lambda x, t=None, u=None: trans(np, x, t, u)
    S.h = lambda x, t=None, u=None: meas(np, x, t, u)
    S.Df = lambda x, t=None, u=None: cstep(lambda z: trans(np, z, t, u), x)
    S.Dh = lambda x, t=None, u=None: cstep(lambda z: meas(np, z, t, u), x)
    S.lin = kind_lin = (s['kind'] == 'lin')
    if kind_lin:
        S.A = lambda t: (A + A2 * np.cos(0.7 * t) if tv else A)
        S.bvec = lambda t, u: b * np.sin(0.9 * t + 0.3) + g * u
        S.C, S.cvec = C, e

    import autograd.numpy as anp

    def code_f(x, t=None, u=None):
        y = trans(anp, x, t, u)
        return anp.atleast_2d(y) if mat else y

    def code_h(x, t=None, u=None):
        y = meas(anp, x, t, u)
        return anp.atleast_2d(y) if mat else y
    S.code_f, S.code_h = code_f, code_h


def l96_rhs(x, F):
    # Lorenz (1996) with the index running the other way round the circle (a relabelling)
    n = x.shape[-1]
    k = np.arange(n)
    return (x[..., k - 1] - x[..., (k + 2) % n]) * x[..., (k + 1) % n] - x + F


def build(spec, tap=True):
    """-> System with .repo (a DynamicSystemModel) and, if tap, .taps = [transition Tap, measurement Tap]."""
    from Systems import DynamicSystemModel, GaussianNoise
    from StateModel import Gaussian
    S = System()
    S.spec = spec
    k = spec['kind']
    S.lin = False
    if k in ('lin', 'nl'):
        _random_model(S, spec)
        S.repo = DynamicSystemModel(
            system_dim=S.d, measurement_dim=S.m, transition=S.code_f, measurement=S.code_h,
            system_noise=GaussianNoise(dimension=S.d, cov=S.Q.copy()),
            measurement_noise=GaussianNoise(dimension=S.m, cov=S.R.copy()),
            init_distribution=Gaussian(S.m0.copy(), S.P0.copy()), dt=S.dt)
    elif k == 'ungm':
        from Systems import UniformNonlinearGrowthModel
        S.repo = UniformNonlinearGrowthModel()
        S.d, S.m, S.dt = 1, 1, 1
        S.Q, S.R, S.m0, S.P0 = np.eye(1), 10 * np.eye(1), np.zeros(1), 5 * np.eye(1)
        S.f = lambda x, t=None, u=None: 0.5 * x + 25 * x / (1 + x * x) + 8 * np.cos(1.2 * t)
        S.h = lambda x, t=None, u=None: x * x / 20
        S.Df = lambda x, t=None, u=None: cstep(lambda z: S.f(z, t), x)
        S.Dh = lambda x, t=None, u=None: cstep(S.h, x)
    elif k == 'bot':
        from Systems import BearingsOnlyTracking
        dt = spec.get('delta', 0.1)
        S.repo = BearingsOnlyTracking(delta_t=dt)
        S.d, S.m, S.dt = 4, 4, 1
        A = np.eye(4)
        A[0, 2] = A[1, 3] = dt
        S.Q = 0.01 * np.kron(np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]]), np.eye(2))
        S.R = 0.001 * np.eye(4)
        S.m0, S.P0 = np.array([0., 0, 1, 0]), 0.1 * np.eye(4)
        S.f = lambda x, t=None, u=None: x @ A.T
        S.Df = lambda x, t=None, u=None: A.copy()
        _bearings(S, BOT_SENSORS, 0, 1)
    elif k == 'bott':
        from Systems import BearingsOnlyTrackingTurn
        dt = spec.get('delta', 1)
        S.repo = BearingsOnlyTrackingTurn(delta_t=dt)
        S.d, S.m, S.dt = 5, 4, 1
        M = np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]])
        S.Q = np.zeros((5, 5))
        S.Q[:2, :2] = S.Q[2:4, 2:4] = 0.1 * M
        S.Q[4, 4] = dt * 1.75e-4
        S.R = 1e-5 * np.eye(4)
        S.m0 = np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)])
        S.P0 = np.diag([100, 10, 100, 10, 1e-4])

        def f(x, t=None, u=None):
            x = np.asarray(x)
            a, va, b, vb, w = (x[..., i] for i in range(5))
            s, c = np.sin(w * dt), np.cos(w * dt)
            return np.stack([a + s / w * va - (1 - c) / w * vb, c * va - s * vb,
                             b + (1 - c) / w * va + s / w * vb, s * va + c * vb, w], axis=-1)
        S.f = f
        S.Df = lambda x, t=None, u=None: cstep(f, x)
        _bearings(S, BOTT_SENSORS, 0, 2)
    elif k == 'l96':
        from Systems import L96
        import os
        d, F, delta = spec['d'], spec.get('F', 8), spec.get('delta', 0.05)
        S.d = S.m = d
        S.dt = 1
        x0 = np.sin(np.arange(d) * 1.7) * 3 + 2.5
        np.save('l96_init.npy', x0)
        given = {k: v for k, v, default in (('F', F, 8), ('delta_t', delta, 0.05), ('dim', d, 40)) if v != default}
        q, r = (0.1, 1) if F == 8 else (0.3, 2.0)
        if F != 8:
            given.update(Q_sigma=q, R_sigma=r)
        S.repo = L96(init_cond_path='l96_init.npy', **given)
        os.remove('l96_init.npy')
        S.Q, S.R, S.m0, S.P0 = q * np.eye(d), r * np.eye(d), x0, np.eye(d)

        def f(x, t=None, u=None):
            k1 = l96_rhs(x, F)
            k2 = l96_rhs(x + delta / 2 * k1, F)
            k3 = l96_rhs(x + delta / 2 * k2, F)
            k4 = l96_rhs(x + delta * k3, F)
            return x + delta / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        S.f = f
        S.h = lambda x, t=None, u=None: x * x
        S.Df = lambda x, t=None, u=None: cstep(f, x)
        S.Dh = lambda x, t=None, u=None: np.diag(2 * np.asarray(x))
    else:
        raise ValueError(k)
    S.taps = []
    if tap:
        ft, ht = Tap(S.repo.transition, 'f'), Tap(S.repo.measurement, 'h')
        S.repo.transition, S.repo.measurement = ft, ht
        S.taps = [ft, ht]
    return S


def _bearings(S, sensors, ix, iy):
    def h(x, t=None, u=None):
        x = np.asarray(x)
        return np.stack([np.arctan2(x[..., iy] - sy, x[..., ix] - sx) for sx, sy in sensors], axis=-1)

    def Dh(x, t=None, u=None):
        J = np.zeros((len(sensors), S.d))
        for j, (sx, sy) in enumerate(sensors):
            dx, dy = x[ix] - sx, x[iy] - sy
            r2 = dx * dx + dy * dy
            J[j, ix], J[j, iy] = -dy / r2, dx / r2
        return J
    S.h, S.Dh = h, Dh


def make_data(S, N, seed, outlier=0.0, t_zero=0.0, us=None):
    """Reference trajectory and measurements drawn by the harness itself: xs (N,d), ys (N,m)."""
    rs = rs_of('data', seed)
    Lq, Lr, L0 = (np.linalg.cholesky(c + 1e-300 * np.eye(len(c))) for c in (S.Q, S.R, S.P0))
    x = S.m0 + L0 @ rs.randn(S.d)
    t = t_zero
    xs, ys = [], []
    for k in range(N):
        u = None if us is None else us[k]
        x = np.asarray(S.f(x, t=t, u=u)).reshape(-1) + Lq @ rs.randn(S.d)
        y = np.asarray(S.h(x, t=t, u=u)).reshape(-1) + Lr @ rs.randn(S.m)
        if outlier and rs.rand() < 0.25:
            y = y + outlier * rs.randn(S.m) * np.sqrt(np.diag(S.R))
        xs.append(x)
        ys.append(y)
        t += S.dt
    return np.array(xs), np.array(ys)
