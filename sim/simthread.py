"""Simulated threads: real threads of which exactly one runs at a time, switched at points the plan decides.

A switch can happen before every statement, at every entry of a function and before every return of the code under test (whose
source is instrumented when it is imported, see instrument) and at every model call (Tap hooks).  Locks created by the code under test are simulated: waiting for one hands the baton on, and a cycle is a deadlock.
"""
import ast
import builtins
import importlib.machinery
import os
import random
import sys
import threading
import _thread

from core import Violation

RAW = _thread.allocate_lock
CUR = None         # the scheduler in charge


POINTS = []        # (file, function, line, kind, does the statement before it store into an object?)


def hit(i):
    s = CUR
    if s is not None and _thread.get_ident() == s.ident:
        s.at(i)


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'sort', 'fill',
            'resize', 'setflags', 'put', 'itemset', '__setitem__', '__setattr__', 'setattr', 'copyto', 'delattr', '__dict__', 'resetflags', 'vars'}


def stores(node):
    """Could this statement itself store into something other than a fresh local variable?"""
    if isinstance(node, (ast.If, ast.While)):
        todo = [node.test]
    elif isinstance(node, (ast.For, ast.AsyncFor)):
        todo = [node.iter, node.target]
    elif isinstance(node, (ast.With, ast.AsyncWith)):
        todo = list(node.items)
    elif isinstance(node, (ast.Try, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        todo = []
    else:
        if isinstance(node, (ast.AugAssign, ast.Global, ast.Nonlocal)):
            return True
        todo = [node]
    for t in todo:
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, ast.Call):
                f = n.func
                if (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)) in MUTATORS or any(k.arg == 'out' for k in n.keywords):
                    return True
    return False


class Instrument(ast.NodeTransformer):
    def __init__(self, name):
        self.file, self.fn = name, []

    def point(self, at, kind, after):
        POINTS.append((self.file, '.'.join(self.fn), at.lineno, kind, bool(after) and self.fn[-1] != '__init__'))
        c = ast.Expr(ast.Call(ast.Name('__sim_point__', ast.Load()), [ast.Constant(len(POINTS) - 1)], []))
        return ast.fix_missing_locations(ast.copy_location(c, at))

    def function(self, node):
        self.fn.append(node.name)
        head = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        rest = node.body[head:]
        body = node.body[:head] + [self.point(node, 'entry', False)] + (self.block(rest) if rest else [])
        last = rest[-1] if rest else None
        if rest and not isinstance(last, (ast.Return, ast.Raise)):
            body.append(self.point(last, 'end', stores(last)))
        node.body = body
        self.fn.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else s for s in node.body]
        self.fn.pop()
        return node

    def visit_Module(self, node):
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else s for s in node.body]
        return node

    def block(self, body):
        out, after = [], False
        for s in body:
            out.append(self.point(s, 'line', after))
            after = stores(s)
            for name in ('body', 'orelse', 'finalbody'):
                inner = getattr(s, name, None)
                if inner and isinstance(inner, list) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    setattr(s, name, self.block(inner))
            for h in getattr(s, 'handlers', []):
                h.body = self.block(h.body)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                s = self.visit(s)
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                keep = ast.copy_location(ast.Assign([ast.Name('__sim_ret__', ast.Store())], s.value), s)
                out += [ast.fix_missing_locations(keep), self.point(s, 'return', after)]
                s = ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name('__sim_ret__', ast.Load())), s))
            out.append(s)
        return out


class Loader(importlib.machinery.SourceFileLoader):
    root = None

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Instrument(os.path.relpath(path, self.root)).visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader) and spec.origin.startswith(Loader.root + os.sep):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def instrument(root):
    """From now on modules of the code under test are imported with scheduling points; call before importing any."""
    Loader.root = root
    builtins.__sim_point__ = hit
    sys.meta_path.insert(0, Finder)


class Stop(BaseException):
    """Unwinds a thread when the run is over."""


class SimLock:
    """threading.Lock / RLock as seen by the code under test."""
    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = CUR.current if CUR is not None and CUR.inside() else 'outside'
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0 and CUR is not None and CUR.inside() and not CUR.others():
                return False
            if CUR is None or not CUR.inside():
                raise Violation('deadlock', 'a thread waits for a lock that nobody will release')
            CUR.wait(self)
            if timeout >= 0 and self.owner is not None:
                return False
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *e):
        self.release()
        return False

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    __reduce__ = None


class SimRLock(SimLock):
    reentrant = True


class locks:
    """While active, locks made through the threading module are simulated."""

    def __enter__(self):
        self.keep = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = SimLock, SimRLock

    def __exit__(self, *e):
        threading.Lock, threading.RLock = self.keep
        return False


class Scheduler:
    """run(tasks) executes every task (a callable) in a thread of its own; -> [(result, exception)].

    spec: {'seed', 'p', 'style'} draws switches, or {'events': [[step, target], ...]} replays them.
    """

    def __init__(self, spec, ctx=None, max_steps=2000000):
        self.spec, self.ctx = spec, ctx
        self.rng = random.Random(spec.get('seed', 0))
        self.explicit = None if spec.get('events') is None else {s: t for s, t in spec['events']}
        self.switches, self.step, self.max_steps = [], 0, max_steps
        self.current = None
        self.dead = None
        self.note = spec.get('trace')
        self.ident = None          # of the running thread
        self.hots = frozenset()    # points where style 'stop' holds threads up
        self.seen = {}             # points passed, in order of first passing

    # -- bookkeeping
    def inside(self):
        return self.ident is not None and _thread.get_ident() == self.ident

    def others(self):
        return [i for i in self.alive if i != self.current]

    def run(self, tasks):
        global CUR
        n = len(tasks)
        self.gates = [RAW() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.main = RAW()
        self.main.acquire()
        self.out = [None] * n
        self.alive = list(range(n))
        self.waiting = {}
        style = self.spec.get('style', 'coin')
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        self.style, self.p = style, self.spec.get('p', 0.05)
        self.stalled = self.rng.randrange(n) if style == 'stall' else None
        prev, CUR = CUR, self
        try:
            for i, t in enumerate(tasks):
                _thread.start_new_thread(self._body, (i, t))
            self.current = self.first()
            self.gates[self.current].release()
            self.main.acquire()
        finally:
            CUR = prev
        if self.dead is not None:
            raise self.dead
        return self.out

    def first(self):
        if self.explicit is not None and 0 in self.explicit:
            return min(self.explicit[0], len(self.gates) - 1)
        k = self.rng.randrange(len(self.gates))
        self.switches.append([0, k])
        return k

    def _body(self, i, task):
        self.gates[i].acquire()
        self.ident = _thread.get_ident()
        try:
            try:
                if self.dead is not None:
                    return
                self.out[i] = (task(), None)
            except Stop:
                pass
            except BaseException as e:
                self.out[i] = (None, e)
        finally:
            self.alive.remove(i)
            if not self.alive:
                self.main.release()
            elif self.dead is not None:
                self._pass(self.alive[0])
            else:
                run = [k for k in self.alive if not self._blocked(k)]
                if not run:
                    self._deadlock()
                    self._pass(self.alive[0])
                else:
                    self._pass(self.choose(run))

    # -- switching
    def _blocked(self, k):
        lk = self.waiting.get(k)
        return lk is not None and lk.owner is not None

    def _pass(self, k):
        self.current, self.ident = k, None
        self.gates[k].release()

    def _deadlock(self):
        self.dead = Violation('deadlock', 'every unfinished thread waits for a lock')

    def switch(self, k):
        me = self.current
        if k == me:
            return
        self._pass(k)
        self.gates[me].acquire()
        self.ident = _thread.get_ident()
        if self.dead is not None:
            raise Stop()

    def choose(self, run):
        """Which of the runnable threads goes on when the current one cannot."""
        self.step += 1
        if self.explicit is not None:
            k = self.explicit.get(self.step)
            return k if k in run else run[0]
        k = self.rng.choice(run)
        self.switches.append([self.step, k])
        return k

    def wait(self, lock):
        if self.dead is not None:
            raise Stop()
        me = self.current
        self.waiting[me] = lock
        run = [k for k in self.alive if k != me and not self._blocked(k)]
        if not run:
            self._deadlock()
            raise Stop()
        if self.ctx is not None:
            self.ctx.probe('waited for a lock')
        self.switch(self.choose(run))
        self.waiting.pop(me, None)

    def at(self, i):
        if self.note and i not in self.seen:
            self.seen[i] = 1
        self.point(i)

    def point(self, key=None):
        """A scheduling point of the running thread."""
        if self.dead is not None:
            raise Stop()
        self.step += 1
        s = self.step
        if s > self.max_steps:
            self.dead = Violation('no-progress', 'the threads did not finish within %d steps' % self.max_steps)
            raise Stop()
        if self.explicit is not None:
            k = self.explicit.get(s)
            if k is not None and k in self.alive and not self._blocked(k):
                self.switch(k)
            return
        style = self.style
        if style == 'prio':                          # run one thread until a change point hits it
            if self.rng.random() >= self.p:
                return
        elif style == 'stall':                       # one thread is slow: it runs only now and then
            p = self.p if self.current != self.stalled else min(1.0, 20 * self.p)
            if self.rng.random() >= p:
                return
        elif style == 'stop':
            p = 0.75 if key in self.hots else self.p
            if p == 0 or self.rng.random() >= p:
                return
        elif self.rng.random() >= self.p:
            return
        run = [k for k in self.alive if k != self.current and not self._blocked(k)]
        if not run:
            return
        if style == 'prio':
            self.prio.remove(self.current)
            self.prio.append(self.current)
            k = next(x for x in self.prio if x in run)
        else:
            k = self.rng.choice(run)
        self.switches.append([s, k])
        self.switch(k)
