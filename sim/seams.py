"""Seams: the points where the simulator decides what happens.

* linear algebra entry points (numpy.linalg / scipy.linalg attributes), patched before /repo is imported
* model functions and moment-matching transforms, wrapped in Tap objects handed to the public API
* numpy's global random generator
"""
import numpy as np
import scipy.linalg
import types

from core import SimAbort

orig = types.SimpleNamespace(
    cholesky=np.linalg.cholesky, solve=np.linalg.solve, inv=np.linalg.inv, eigvalsh=np.linalg.eigvalsh,
    sp_cholesky=scipy.linalg.cholesky, sp_solve=scipy.linalg.solve,
    mvn=np.random.multivariate_normal)

LA_KINDS = ('np.cholesky', 'np.solve', 'sp.solve', 'sp.cholesky')


class LaSeam:
    """Counts the linear-algebra calls made by the code under test and fails the armed ones."""

    def __init__(self):
        self.armed = None      # {'kind': k or None, 'at': n (0-based), 'n': how many in a row}
        self.count = 0
        self.fired = 0
        self.paused = 0        # while the simulator itself observes
        self.only = None       # in simulated threads: is the running thread the one whose calls fail?

    def arm(self, kinds, at, n=1):
        self.armed, self.count, self.fired = (frozenset(kinds), at, n), 0, 0

    def disarm(self):
        self.armed = None
        return self.fired

    def hit(self, kind):
        a = self.armed
        if a is None or self.paused or kind not in a[0] or self.only is not None and not self.only():
            return
        c = self.count
        self.count = c + 1
        if a[1] <= c < a[1] + a[2]:
            self.fired += 1
            raise np.linalg.LinAlgError('injected: %s call %d failed' % (kind, c))


LA = LaSeam()


def _wrap(kind, fn):
    def seam(*a, **k):
        LA.hit(kind)
        return fn(*a, **k)
    seam.__name__ = getattr(fn, '__name__', kind)
    return seam


def install():
    np.linalg.cholesky = _wrap('np.cholesky', orig.cholesky)
    np.linalg.solve = _wrap('np.solve', orig.solve)
    np.linalg.inv = _wrap('np.solve', orig.inv)
    scipy.linalg.solve = _wrap('sp.solve', orig.sp_solve)
    scipy.linalg.cholesky = _wrap('sp.cholesky', orig.sp_cholesky)


class LinAlgSub(np.linalg.LinAlgError):
    pass


EXC = {
    'LinAlgSub': lambda: LinAlgSub('injected subclass of LinAlgError'),
    'LinAlgError': lambda: np.linalg.LinAlgError('injected LinAlgError'),
    'ValueError': lambda: ValueError('injected ValueError'),
    'AttributeError': lambda: AttributeError('injected AttributeError'),
    'TypeError': lambda: TypeError('injected TypeError'),
    'MemoryError': lambda: MemoryError('injected allocation failure'),
    'FloatingPointError': lambda: FloatingPointError('injected FloatingPointError'),
    'ZeroDivisionError': lambda: ZeroDivisionError('injected ZeroDivisionError'),
    'RuntimeError': lambda: RuntimeError('injected RuntimeError'),
    'AssertionError': lambda: AssertionError('injected AssertionError'),
    'KeyError': lambda: KeyError('injected KeyError'),
    'IndexError': lambda: IndexError('injected IndexError'),
    'LookupError': lambda: LookupError('injected LookupError'),
    'OSError': lambda: OSError(28, 'injected: no space left on device'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected interrupt'),
    'SimAbort': lambda: SimAbort('injected abort'),
}
LINALG = ('LinAlgError', 'LinAlgSub')
FOREIGN = [k for k in EXC if k not in LINALG]


class Tap:
    """A model function / transform the simulator can observe, fail or pause."""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.hook = None      # called before the real function
        self.post = None      # called after it
        self.bend = None      # changes what it returns

    def __call__(self, *a, **k):
        if self.hook is not None:
            self.hook(self, a, k)
        out = self.fn(*a, **k)
        if self.post is not None:
            self.post(self, a, k)
        if self.bend is not None:
            out = self.bend(out)
        return out

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


BEND = {
    'nan': lambda x: x * np.nan,
    'inf': lambda x: x * np.inf,
    '-inf': lambda x: x - np.inf,
    'huge': lambda x: x * 1e150,
    'overflow': lambda x: x * 1e300,
    'zero': lambda x: x * 0.0,
    'tiny': lambda x: x * 1e-200,
}


class Bend:
    """From the at-th call on, n calls of a model function return a distorted value."""

    def __init__(self, taps, how, at, n=1):
        self.taps, self.how, self.at, self.n = taps, how, at, n
        self.calls, self.fired, self.raised = 0, 0, []

    def __enter__(self):
        for t in self.taps:
            t.bend = self._bend
        return self

    def __exit__(self, *e):
        for t in self.taps:
            t.bend = None
        return False

    def _bend(self, out):
        c = self.calls
        self.calls += 1
        if self.at <= c < self.at + self.n:
            self.fired += 1
            return BEND[self.how](out)
        return out

    def site_name(self):
        return '+'.join(t.name for t in self.taps)

    def exc_name(self):
        return 'value ' + self.how


class Fuse:
    """Fails the at-th call seen through any of the taps it is attached to."""

    def __init__(self, taps, exc, at, n=1, when='hook'):
        self.taps, self.exc, self.at, self.n, self.when = taps, exc, at, n, when
        self.calls, self.fired, self.raised = 0, 0, []

    def __enter__(self):
        for t in self.taps:
            setattr(t, self.when, self._hit)
        return self

    def __exit__(self, *e):
        for t in self.taps:
            setattr(t, self.when, None)
        return False

    def _hit(self, tap, a, k):
        c = self.calls
        self.calls += 1
        if self.at <= c < self.at + self.n:
            self.fired += 1
            e = EXC[self.exc]()
            self.raised.append(e)
            raise e
