"""Textbook recursive estimators in moment form, independent of /repo: the linearised Gaussian filter and
smoother, the iterated EKF and the iterated EKS.

Every estimate is an interval in spirit: a clean value plus values computed with injected rounding noise
(ref.Fz).  `Est` objects carry all of them through a recursion, so a whole filter run yields tolerances that
have accumulated like rounding does.  A lane whose linear algebra fails is None.
"""
import numpy as np
import ref
from core import Violation
from ref import Skip, EXACT, solve, sym, chol

LANES = 4


class Belief:
    """Clean and noisy (mean, cov) pairs; lanes that failed are None."""

    def __init__(self, lanes):
        self.lanes = lanes

    @property
    def clean(self):
        return self.lanes[0]

    @property
    def ok(self):
        return all(x is not None for x in self.lanes)


FALLBACK = False        # the code may have used its jittered solvers in the call that is being judged


def fzs(eps=1e-13, n=LANES - 1):
    if FALLBACK:
        return [EXACT] + [ref.Jit(1e-9, 5000 + i) for i in range(n)]
    return [EXACT] + ref.noisy(n, eps)


def const(m, C):
    return Belief([(np.asarray(m, float), np.asarray(C, float))] * LANES)


def lift(fn, FZ, *bs):
    out = []
    for i, fz in enumerate(FZ):
        args = [b.lanes[i] for b in bs]
        if any(a is None for a in args):
            out.append(None)
            continue
        try:
            with np.errstate(all='ignore'):
                m, C = fn(fz, *args)
            if not (np.all(np.isfinite(m)) and np.all(np.isfinite(C))):
                raise Skip('overflow')
            chol(C)
            out.append((m, C))
        except (Skip, np.linalg.LinAlgError):
            out.append(None)
    return Belief(out)


def predict(tr, f, Df, Q, b, FZ):
    def go(fz, x):
        m, C, _ = tr(f, Df, x[0], x[1], fz)
        return m, fz.sym(C + Q)
    return lift(go, FZ, b)


def vague(b, FZ, base=1e-10):
    """Multiply by the initial belief of a node in the noisy lanes only: it may or may not be there."""
    def go(fz, x):
        if fz.eps == 0:
            return x
        P, s = ref.nat(x[0], x[1], fz)
        return ref.read(P + base * (1 + abs(fz.u((1,))[0])) * np.eye(len(s)), s, fz)
    return lift(go, FZ, b)


def correct(tr, h, Dh, R, y, b, FZ):
    def go(fz, x):
        m, C = x
        zm, zC, xz = tr(h, Dh, m, C, fz)
        zC = fz.sym(zC + R)
        chol(zC)
        K = solve(zC, xz.T).T
        return fz(m + fz(K @ (y - zm))), fz.sym(fz.sub(C, fz(K @ xz.T)))
    return lift(go, FZ, b)


def smooth(tr, f, Df, Q, b, nxt, FZ):
    def go(fz, x, n):
        m, C = x
        xm, xC, xx = tr(f, Df, m, C, fz)
        xC = fz.sym(xC + Q)
        J = fz(solve(xC, xx.T).T)
        return fz(m + fz(J @ fz.sub(n[0], xm))), fz.sym(C + fz.sym(J @ fz.sub(n[1], xC) @ J.T))
    return lift(go, FZ, b, nxt)


def iekf_correct(h, Dh, R, y, b, num_iter, FZ):
    def go(fz, x):
        m, C = x
        z, P = m, C
        for _ in range(num_iter):
            H = fz(Dh(z))
            zC = fz.sym(H @ C @ H.T + R)
            chol(zC)
            K = solve(zC, H @ C).T
            zm = fz(np.asarray(h(z)).reshape(-1)) + fz(H @ fz.sub(m, z))
            z = fz(m + fz(K @ (y - zm)))
            P = fz.sym(fz.sub(C, fz(K @ H @ C)))
        return z, P
    return lift(go, FZ, b)


def judge(got, b, where, kind='refinement', ctx=None, rel=1e-7):
    """Compare moments with a Belief.  -> 'ok' or 'ill'; raises Violation."""
    if not b.ok:
        return 'ill'
    m, C = b.clean
    gm, gC = np.asarray(got[0], float), np.asarray(got[1], float)
    if gm.shape != m.shape or gC.shape != C.shape:
        raise Violation(kind, '%s: mean of shape %s and covariance of shape %s, expected %s and %s'
                        % (where, gm.shape, gC.shape, m.shape, C.shape))
    sd = np.sqrt(np.abs(np.diag(C)))
    verdict = 'ok'
    for got_, j, name, sc in ((gm, 0, 'mean', sd + np.abs(m)), (gC, 1, 'covariance', np.outer(sd, sd))):
        c = ref.close(got_, b.clean[j], [l[j] for l in b.lanes[1:]], sc, rel=rel)
        if c == 'bad':
            raise Violation(kind, '%s: %s is %s, expected %s' % (where, name, got_.tolist(), b.clean[j].tolist()))
        if c == 'ill':
            verdict = 'ill'
    return verdict


# ---------------------------------------------------------------- whole recursions

def run_filter(S, E, ys, prior, t0, u, FZ=None):
    """E: object with tm, mm (ref.Transform), Q, R.  prior: (m, C).  -> list of Belief."""
    FZ = FZ or fzs()
    b = prior if isinstance(prior, Belief) else const(*prior)
    out, t = [], t0
    for y in ys:
        b = predict(E.tm, lambda x: S.f(x, t=t, u=u), lambda x: S.Df(x, t=t, u=u), E.Q, b, FZ)
        b = correct(E.mm, lambda x: S.h(x, t=t, u=u), lambda x: S.Dh(x, t=t, u=u), E.R, y, b, FZ)
        out.append(b)
        t += S.dt
    return out


def run_smoother(S, E, filt, t0, u, FZ=None):
    """filt: list of Belief.  The state at index k was filtered at time t0 + k dt."""
    FZ = FZ or fzs()
    out = [filt[-1]]
    for k in reversed(range(len(filt) - 1)):
        t = t0 + (k + 1) * S.dt
        out.append(smooth(E.tm, lambda x: S.f(x, t=t, u=u), lambda x: S.Df(x, t=t, u=u), E.Q, filt[k], out[-1], FZ))
    return out[::-1]


def run_iekf(S, E, ys, prior, t0, u, num_iter, FZ=None):
    FZ = FZ or fzs()
    b = const(*prior)
    out, t = [], t0
    for y in ys:
        b = predict(E.tm, lambda x: S.f(x, t=t, u=u), lambda x: S.Df(x, t=t, u=u), E.Q, b, FZ)
        b = iekf_correct(lambda x: S.h(x, t=t, u=u), lambda x: S.Dh(x, t=t, u=u), E.R, y, b, num_iter, FZ)
        out.append(b)
        t += S.dt
    return out


def run_ieks(S, E, ys, num_iter, FZ=None):
    """Gauss-Newton on the whole trajectory x_0 .. x_N (Bell 1994), started from the EKS.  -> list of Belief."""
    FZ = FZ or fzs()
    lanes = []
    N = len(ys)
    for fz in FZ:
        try:
            with np.errstate(all='ignore'):
                lanes.append(_ieks(S, E, ys, num_iter, fz, N))
        except (Skip, np.linalg.LinAlgError):
            lanes.append([None] * N)
    return [Belief([l[k] for l in lanes]) for k in range(N)]


def _ieks(S, E, ys, num_iter, fz, N):
    pts = None
    for _ in range(max(1, num_iter)):
        m, C = S.m0, S.P0
        filt, preds = [(m, C)], []
        for k in range(N):
            t = k * S.dt
            x0 = m if pts is None else pts[k]
            F = fz(S.Df(x0, t=t))
            pm = fz(np.asarray(S.f(x0, t=t)).reshape(-1)) + F @ fz.sub(m, x0)
            pC = fz.sym(F @ C @ F.T + E.Q)
            preds.append((pm, pC, C @ F.T))
            x1 = pm if pts is None else pts[k + 1]
            H = fz(S.Dh(x1, t=t))
            zm = fz(np.asarray(S.h(x1, t=t)).reshape(-1)) + H @ fz.sub(pm, x1)
            zC = fz.sym(H @ pC @ H.T + E.R)
            chol(zC)
            K = solve(zC, H @ pC).T
            m = fz(pm + fz(K @ (ys[k] - zm)))
            C = fz.sym(fz.sub(pC, fz(K @ H @ pC)))
            chol(C)
            filt.append((m, C))
        sm = [filt[-1]]
        for k in reversed(range(N)):
            m, C = filt[k]
            pm, pC, xx = preds[k]
            J = fz(solve(pC, xx.T).T)
            n = sm[-1]
            sm.append((fz(m + J @ fz.sub(n[0], pm)), fz.sym(C + J @ fz.sub(n[1], pC) @ J.T)))
        sm = sm[::-1]
        pts = [x[0] for x in sm]
        if not all(np.all(np.isfinite(p)) for p in pts):
            raise Skip('overflow')
    for x in sm[1:]:
        chol(x[1])
    return sm[1:]
