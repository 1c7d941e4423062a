"""Reference model of Gaussian EP: plain natural-parameter arithmetic, no code shared with /repo.

Every quantity is computed once exactly as written and again several times with relative noise
injected at each operation (Fz).  The spread of the noisy results bounds what rounding may do, so
comparisons against the code tolerate any reordering of the arithmetic and nothing more; where the
noisy results disagree on whether an update is possible at all, either outcome is accepted.
"""
import numpy as np
from seams import orig

BIG = 1e10


class Skip(Exception):
    """The reference update cannot be performed.  clear: beyond what rounding could explain."""

    def __init__(self, msg, clear=False):
        super().__init__(msg)
        self.clear = clear


_BANK = np.random.RandomState(20220101).uniform(-1, 1, size=1 << 16)


class Fz:
    def __init__(self, eps=0.0, seed=0):
        self.eps = eps
        self.pos = seed * 977 % 40000

    def u(self, shape):
        """Uniform noise in [-1, 1]: the next stretch of a fixed bank."""
        n = int(np.prod(shape)) if shape else 1
        if self.pos + n > len(_BANK):
            self.pos = 0
            if n > len(_BANK):
                return np.resize(_BANK, shape)
        v = _BANK[self.pos:self.pos + n]
        self.pos += n
        return v.reshape(shape)

    def __call__(self, a):
        if not self.eps:
            return a
        a = np.asarray(a, dtype=float)
        return a * (1 + self.eps * self.u(a.shape))

    def cancel(self, a, A, B, w):
        """Rounding a cancelling evaluation of A' diag(w) B about the origin may leave in a."""
        if not self.eps:
            return a
        mag = (np.abs(A).T * np.abs(w)) @ np.abs(B)
        return a + 1e-2 * self.eps * mag * self.u(a.shape)

    def sub(self, a, b):
        """a - b where both were rounded before: a few ulp of the operands, not of the result."""
        if not self.eps:
            return a - b
        n = self.u(a.shape)
        if a.ndim == 2:
            n = (n + n.T) / 2
        return a - b + 1e-2 * self.eps * n * np.maximum(np.abs(a), np.abs(b))

    def sym(self, a):
        if not self.eps:
            return (a + a.T) / 2
        n = self.eps * self.u(a.shape)
        a = (a + a.T) / 2
        return a * (1 + (n + n.T) / 2)


class Jit(Fz):
    """Noise of the size of the fall-back solvers' jitter (1e-10) on the diagonal of every matrix that is factorised."""

    def sym(self, a):
        a = super().sym(a)
        return a + 1e-10 * self.u((len(a),)) * np.eye(len(a))


EXACT = Fz()


def noisy(n=3, eps=1e-13):
    return [Fz(eps, 1000 + i) for i in range(n)]


def sym(a):
    return (a + a.T) / 2


def chol(c, scale=None):
    """scale: matrices whose difference c is; a deficit that is small against them may be rounding."""
    if not np.all(np.isfinite(c)):
        raise Skip('non-finite matrix', True)
    try:
        return orig.cholesky(c)
    except np.linalg.LinAlgError:
        big = max(np.max(np.abs(m)) for m in (c,) + tuple(scale or ()))
        raise Skip('not positive definite', bool(np.min(orig.eigvalsh(c)) < -1e-5 * big))


def is_pd(c):
    try:
        chol(c)
        return True
    except Skip:
        return False


def solve(a, b):
    try:
        with np.errstate(all='ignore'):
            return orig.solve(a, b)
    except np.linalg.LinAlgError:
        raise Skip('singular')


def read(P, s, fz=EXACT):
    """Natural -> moments, with the documented vague reading of a belief without precision."""
    d = len(s)
    P = fz.sym(P)
    if np.trace(P) < 1e-10:
        return np.zeros(d), BIG * np.eye(d)
    if not np.all(np.isfinite(P)):
        raise Skip('non-finite precision')
    if is_pd(P):
        cov = solve(P, np.eye(d))
    else:
        cov = solve(P + (1e-10 if fz.eps == 0 else 1e-10 * abs(fz.u((1,))[0])) * np.eye(d), np.eye(d))
    cov = fz.sym(cov)
    return fz(cov @ s), cov


def nat(m, C, fz=EXACT):
    """Moments -> natural."""
    C = fz.sym(C)
    P = sym(solve(C, np.eye(len(m))))
    return fz.sym(P), fz(P @ m)


class Transform:
    def __init__(self, spec):
        self.spec = spec

    def __call__(self, func, jac, m, C, fz=EXACT):
        """-> mean, cov, cross-cov of func(x), x ~ N(m, C)."""
        k = self.spec[0]
        if k == 'TT':
            J = fz(jac(m))
            mean = fz(np.asarray(func(m)).reshape(-1))
            return mean, sym(J @ C @ J.T), C @ J.T
        if k == 'UT':
            a, b, kp = self.spec[1:]
            n = len(m)
            lam = a * a * (n + kp) - n
            C = fz.sym(C)
            try:
                L = chol(C).T
            except Skip:
                L = chol(C + 1e-10 * np.eye(n)).T
            S = np.sqrt(n + lam) * L
            X = np.vstack([m[None], m + S, m - S])
            Y = fz(np.asarray(func(X)).reshape(2 * n + 1, -1))
            wm = np.full(2 * n + 1, 0.5 / (n + lam))
            wc = wm.copy()
            wm[0] = lam / (n + lam)
            wc[0] = wm[0] + 1 - a * a + b
            mean = fz.cancel(fz(wm) @ Y, np.ones((2 * n + 1, 1)), Y, wm).reshape(-1)
            dY, dX = Y - mean, X - m      # the weighted mean of the sigma points is m
            return (mean, sym(fz.cancel((dY.T * wc) @ dY, Y, Y, wc)), fz.cancel((dX.T * wc) @ dY, X, Y, wc))
        if k == 'SMP':  # moments of given samples (Monte Carlo, samples recorded from the code's own draw)
            X = self.samples.pop(0)
            Y = np.asarray(func(X)).reshape(len(X), -1)
            mean = fz(Y.mean(0))
            dY, dX = Y - Y.mean(0), X - X.mean(0)
            return mean, fz.sym(dY.T @ dY / (len(X) - 1)), fz(dX.T @ dY / (len(X) - 1))
        raise ValueError(k)


class Est:
    """Reference estimator settings."""

    def __init__(self, tm, mm, Q, R, power, damping):
        self.tm, self.mm = Transform(tm), Transform(mm)
        self.Q, self.R, self.power, self.damping = Q, R, power, damping


def commit_ok(P, s, fz, scale=()):
    """May (P, s) be committed as a marginal?  Raises Skip otherwise."""
    chol(P, scale)
    m, C = read(P, s, fz)
    chol(C, (BIG * np.eye(len(s)),))
    if not np.all(np.isfinite(m)):
        raise Skip('mean not finite', True)


def finish(old, proj, marg, d, p, fz, fwd):
    """Damped message and marginal from the projection (P, s)."""
    Pp, sp = proj
    if fwd:
        newP = (1 - d) * old[0] + d * Pp
        news = (1 - d) * old[1] + d * sp
        mP = marg[0] + (newP - old[0]) / p
        ms = marg[1] + (news - old[1]) / p
    else:
        rP, rs = Pp - marg[0], sp - marg[1]
        newP, news = old[0] + d * rP, old[1] + d * rs
        mP, ms = marg[0] + d / p * rP, marg[1] + d / p * rs
    mP = sym(mP)
    commit_ok(mP, ms, fz, (marg[0], Pp * (d / p), old[0] / p))
    mm, mC = read(mP, ms, fz)
    return {'msg': (newP, news), 'marg': (mP, ms), 'mom': (mm, mC), 'proj': (Pp, sp)}


def step_fwd(prev, node, est, f, Df, fz=EXACT):
    """prev: ('prior', m, C) or (marg, B); node: dict with M (marginal), F."""
    if prev[0] == 'prior':
        m, C = prev[1], prev[2]
    else:
        (mP, ms), (bP, bs) = prev
        m, C = read(fz.sub(mP, bP / est.power), fz.sub(ms, bs / est.power), fz)
    xm, xC, _ = est.tm(f, Df, m, C, fz)
    xC = fz.sym((xC + est.Q) / est.power)
    chol(xC)
    proj = nat(xm, xC, fz)
    return finish(node['F'], proj, node['X'], est.damping, est.power, fz, True)


def step_meas(node, est, h, Dh, y, fz=EXACT):
    cP, cs = fz.sub(node['X'][0], node['M'][0]), fz.sub(node['X'][1], node['M'][1])
    m, C = read(cP, cs, fz)
    chol(C)
    zm, zC, xz = est.mm(h, Dh, m, C, fz)
    zC = fz.sym(zC + est.R / est.power)
    chol(zC)
    K = solve(zC, xz.T).T
    pm = fz(m + K @ (np.atleast_1d(y) - zm))
    KX = K @ xz.T
    pC = fz.sym(C - fz(KX))
    chol(pC, (C, KX))
    return finish(node['M'], nat(pm, pC, fz), node['X'], est.damping, est.power, fz, False)


def step_back(node, nxt, est, f, Df, fz=EXACT):
    """f, Df: transition into the next node."""
    p = est.power
    cP, cs = fz.sub(node['X'][0], node['B'][0]), fz.sub(node['X'][1], node['B'][1])
    m, C = read(cP, cs, fz)
    xm, xC, xx = est.tm(f, Df, m, C, fz)
    xC = fz.sym(xC + est.Q / p)
    J = solve(xC, xx.T).T
    P, s = nat(xm, xC, fz)
    fP, fs = fz.sub(nxt['X'][0], nxt['F'][0] / p), fz.sub(nxt['X'][1], nxt['F'][1] / p)
    mu, Sg = read(P + p * fP, s + p * fs, fz)
    pm = fz(m + J @ (mu - xm))
    JS = J @ (Sg - xC) @ J.T
    pC = fz.sym(C + fz(JS))
    chol(pC, (C, JS, J @ xC @ J.T))
    return finish(node['B'], nat(pm, pC, fz), node['X'], est.damping, p, fz, False)


def outcomes(step, n=3, eps=1e-13, fallback=False):
    """Run a reference step exactly and noisily -> list of ('commit', res) / ('skip', why).

    fallback: the code may have used its jittered solvers."""
    out = []
    for fz in [EXACT] + noisy(n, eps) + ([Jit(1e-9, 5000 + i) for i in range(6)] if fallback else []):
        try:
            with np.errstate(all='ignore'):
                out.append(('commit', step(fz)))
        except Skip as e:
            out.append(('skip' if e.clear else 'maybe', str(e)))
    return out


def scale_mat(*mats):
    """Entrywise scale of symmetric matrices: sqrt(|a_ii| |a_jj|)."""
    dg = np.zeros(len(mats[0]))
    for a in mats:
        dg = np.maximum(dg, np.sqrt(np.abs(np.diag(a))))
        # off-diagonals of improper matrices may exceed the diagonal scale
        dg = np.maximum(dg, np.sqrt(np.max(np.abs(a), axis=0) * 1e-3))
    return np.outer(dg, dg)


def close(got, clean, noises, scale, rel=1e-7, amp=30.0, ill=1e-3):
    """-> 'ok', 'bad' or 'ill' (the noise swamps the value; nothing can be concluded)."""
    got, clean = np.asarray(got, dtype=float), np.asarray(clean, dtype=float)
    if got.shape != clean.shape:
        return 'bad'
    spread = np.zeros(clean.shape)
    for n in noises:
        spread = np.maximum(spread, np.abs(n - clean))
    if not np.all(np.isfinite(spread)):
        return 'ill'
    spread = np.maximum(spread, 0.1 * np.max(spread / np.maximum(scale, 1e-300)) * scale) if spread.size else spread
    tol = rel * scale + amp * spread
    if np.all(np.abs(got - clean) <= tol):
        return 'ok'
    if np.any(amp * spread > ill * scale + 1e-300):
        # only conclude from entries whose own tolerance is tight
        tight = amp * spread <= ill * scale
        bad = np.abs(got - clean) > tol
        return 'bad' if np.any(bad & tight) and not np.any(~tight) else 'ill'
    return 'bad'
