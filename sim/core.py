"""Core of the simulator: seeded PRNG, run context, violations, result records.

A run is a pure function of its plan (a JSON value) and of the code under test.
gen(rng, tier, idx) draws a plan from a PRNG seeded by (property, VERIF_SEED, idx);
run(plan, ctx) executes it.  Nothing in here reads a clock.
"""
import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """The property under test is broken in this run."""

    def __init__(self, kind, msg, **detail):
        super().__init__(kind + ': ' + msg)
        self.kind, self.msg, self.detail = kind, msg, detail


class HarnessError(Exception):
    """The simulator itself cannot do its job; never reported as a violation."""


class SimCrash(BaseException):
    """The simulated process dies here.  BaseException: no handler may survive it."""


class SimAbort(BaseException):
    """A custom exception no code can know; used as an injected foreign exception."""


def rng_for(prop, seed, idx):
    h = hashlib.sha256(('%s|%s|%s' % (prop, seed, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))


def h64(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b'|')
    return int.from_bytes(h.digest(), 'big')


class Ctx:
    """Collects what a run did.  Never influences it."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.faults = Counter()    # fault kinds that actually fired
        self.probes = Counter()    # rare conditions reached
        self.states = set()        # abstract states / interleavings reached
        self.simtime = 0.0         # simulated seconds covered
        self.steps = 0             # scheduler steps / operations
        self._digest = hashlib.sha256()

    def event(self, *parts):
        for p in parts:
            self._digest.update(p if isinstance(p, bytes) else repr(p).encode())
            self._digest.update(b'|')

    def digest(self):
        return self._digest.hexdigest()

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def state(self, *parts):
        self.states.add(h64(*parts))

    def violate(self, kind, msg, **detail):
        raise Violation(kind, msg, **detail)

    def check(self, cond, kind, msg, **detail):
        if not cond:
            raise Violation(kind, msg, **detail)
