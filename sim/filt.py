"""Filters and smoothers of the real code under the simulator."""
import numpy as np
import classic
import ep
import models
import ref


def gen_sys(rng, harsh=False):
    kinds = rng.choice([('lin',), ('nl',), ('nl',)] * 3 + [('ungm',), ('bot',), ('bott',), ('l96',)])
    s = models.gen_spec(rng, kinds, dmax=4, ht=True, harsh=harsh)
    if s['kind'] == 'l96':
        s.update(d=rng.choice([4, 5]), F=8, delta=0.05)
    if 'dt' in s:
        s['dt'] = rng.choice([1, 1, 0.5, 0.25])       # exact in binary: times can be compared
    return s


def dim(s):
    return s.get('d', {'ungm': 1, 'bot': 4, 'bott': 5}.get(s['kind'], 1))


def gen_obj(rng, s, kinds=('KFS', 'KFS', 'IEKF', 'IEKS')):
    k = rng.choice(kinds)
    o = {'kind': k}
    if k == 'KFS':
        e = ep.gen_est(rng, powers=[1], dampings=[1], d=dim(s))
        o.update(tm=e['tm'], mm=e['mm'], share=rng.choice([0, 1]))
    return o


DEFAULTS = {'prior_state': None, 't_zero': 0.0, 'u': None, 'num_iter': 5}


def given(style, **kw):
    """The arguments of a call: all of them, or only those that differ from the documented defaults."""
    return {k: v for k, v in kw.items() if style != 'few' or not (v is DEFAULTS[k] or isinstance(v, (int, float)) and v == DEFAULTS[k])}


def make_obj(S, o, cache=None):
    """cache: transforms shared between objects of a run."""
    from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
    if o['kind'] == 'IEKF':
        return IEKF(system_model=S.repo, sys_dim=S.d)
    if o['kind'] == 'IEKS':
        return IEKS(system_model=S.repo, sys_dim=S.d)

    def tr(spec):
        if cache is not None and o.get('share'):
            return cache.setdefault(repr(spec), ep.make_transform(spec, S.d))
        return ep.make_transform(spec, S.d)
    if o['tm'] == o['mm']:
        return KalmanFilterSmoother(tr(o['tm']), S.repo)
    return KalmanFilterSmoother(tr(o['tm']), S.repo, meas_moment_matching=tr(o['mm']))


def ref_est(S, o):
    if o['kind'] == 'KFS':
        return ref.Est(o['tm'], o['mm'], S.Q, S.R, 1, 1)
    return ref.Est(['TT'], ['TT'], S.Q, S.R, 1, 1)


def bits(g):
    m, C = ep.mom_of(g)
    return m.tobytes() + b'|' + C.tobytes()


def listbits(gs):
    return [bits(g) for g in gs]


def gaussian(m, C, mode='moment'):
    from StateModel import Gaussian
    if mode == 'natural':
        P = np.linalg.inv(np.asarray(C))
        P = (P + P.T) / 2
        return Gaussian(precision_mat=P, shift_vec=P @ np.asarray(m))
    return Gaussian(np.array(m, float), np.array(C, float))
