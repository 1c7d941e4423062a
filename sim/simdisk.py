"""A simulated disk under SQLite, and a seeded scheduler for the simulated processes that use it.

SQLite is the real library; its operating-system layer (VFS) is replaced by this one and made the default, so that
sqlite3.connect() anywhere in the code under test ends up here.  Every VFS call is a numbered step of the simulated
process that makes it: the scheduler may switch to another process, the disk may fail, the process may be killed or the
machine may lose power.  Files live in memory as durable content plus a list of writes not yet synced.

Simulated processes are threads of which exactly one runs at any time (a baton); all choices come from one PRNG.
"""
import itertools
import random
import threading
import time

from cffi import FFI
import numpy as np

from core import SimCrash, HarnessError, Violation

ffi = FFI()
ffi.cdef('''
typedef struct sqlite3_file sqlite3_file; typedef struct sqlite3_vfs sqlite3_vfs; typedef struct sqlite3_io_methods sqlite3_io_methods;
struct sqlite3_file { const sqlite3_io_methods *pMethods; };
typedef struct { sqlite3_file base; int64_t id; } simfile;
struct sqlite3_io_methods {
  int iVersion;
  int (*xClose)(sqlite3_file*);
  int (*xRead)(sqlite3_file*, void*, int iAmt, int64_t iOfst);
  int (*xWrite)(sqlite3_file*, const void*, int iAmt, int64_t iOfst);
  int (*xTruncate)(sqlite3_file*, int64_t size);
  int (*xSync)(sqlite3_file*, int flags);
  int (*xFileSize)(sqlite3_file*, int64_t *pSize);
  int (*xLock)(sqlite3_file*, int);
  int (*xUnlock)(sqlite3_file*, int);
  int (*xCheckReservedLock)(sqlite3_file*, int *pResOut);
  int (*xFileControl)(sqlite3_file*, int op, void *pArg);
  int (*xSectorSize)(sqlite3_file*);
  int (*xDeviceCharacteristics)(sqlite3_file*);
};
struct sqlite3_vfs {
  int iVersion; int szOsFile; int mxPathname; sqlite3_vfs *pNext; const char *zName; void *pAppData;
  int (*xOpen)(sqlite3_vfs*, const char *zName, sqlite3_file*, int flags, int *pOutFlags);
  int (*xDelete)(sqlite3_vfs*, const char *zName, int syncDir);
  int (*xAccess)(sqlite3_vfs*, const char *zName, int flags, int *pResOut);
  int (*xFullPathname)(sqlite3_vfs*, const char *zName, int nOut, char *zOut);
  void *xDlOpen; void *xDlError; void *xDlSym; void *xDlClose;
  int (*xRandomness)(sqlite3_vfs*, int nByte, char *zOut);
  int (*xSleep)(sqlite3_vfs*, int microseconds);
  int (*xCurrentTime)(sqlite3_vfs*, double*);
  int (*xGetLastError)(sqlite3_vfs*, int, char *);
  int (*xCurrentTimeInt64)(sqlite3_vfs*, int64_t*);
};
int sqlite3_vfs_register(sqlite3_vfs*, int makeDflt);
''')

OK, BUSY, FULL, CANTOPEN, NOTFOUND = 0, 5, 13, 14, 12
IOERR = {'read': 266, 'short': 522, 'write': 778, 'sync': 1034, 'truncate': 1546, 'size': 1802, 'unlock': 2058,
         'delete': 2570, 'lock': 3850, 'open': CANTOPEN, 'access': 3338, 'io': 10}
SECTOR = 512


class File:
    def __init__(self):
        self.durable = b''
        self.durable_exists = False
        self.cur = bytearray()
        self.pending = []          # ('w', off, bytes) | ('t', size)
        self.locks = {}            # handle id -> level

    def write(self, off, data):
        if len(self.cur) < off:
            self.cur.extend(b'\0' * (off - len(self.cur)))
        self.cur[off:off + len(data)] = data
        self.pending.append(('w', off, bytes(data)))

    def truncate(self, size):
        del self.cur[size:]
        self.pending.append(('t', size))

    def sync(self):
        self.durable = bytes(self.cur)
        self.durable_exists = True
        self.pending.clear()


class Disk:
    """The state all simulated processes of a machine share."""

    def __init__(self):
        self.files = {}
        self.deleted = {}     # name -> File, unlinked since the last sync of anything (power loss may bring them back)

    def image(self):
        """What a killed process leaves: everything written."""
        return {n: bytes(f.cur) for n, f in self.files.items()}

    def power_image(self, rng, policy):
        """What a power loss leaves: durable content plus some of the unsynced sectors.

        Directory operations (unlink) are taken to be durable when they return; a created file exists after
        its first sync, or by chance before.
        """
        out = {}
        for n in sorted(self.files):
            f = self.files[n]
            if not f.durable_exists and rng.random() < 0.5:
                continue
            d = bytearray(f.durable)
            for k, op in enumerate(f.pending):
                if policy == 'none':
                    continue
                if policy == 'prefix' and k >= len(f.pending) * rng.random():
                    break
                if op[0] == 't':
                    if policy == 'all' or rng.random() < 0.5:
                        del d[op[1]:]
                    continue
                _, off, data = op
                for s in range(off // SECTOR, (off + len(data) - 1) // SECTOR + 1):
                    if policy not in ('all', 'prefix') and rng.random() < 0.5:
                        continue
                    a, b = max(off, s * SECTOR), min(off + len(data), (s + 1) * SECTOR)
                    if len(d) < a:
                        d.extend(b'\0' * (a - len(d)))
                    d[a:b] = data[a - off:b - off]
            out[n] = bytes(d)
        return out

    @classmethod
    def from_image(cls, img):
        disk = cls()
        for n, data in img.items():
            f = File()
            f.cur = bytearray(data)
            f.sync()
            disk.files[n] = f
        return disk


class Proc:
    """One simulated process: a name, a thread, a random state of its own, its open files."""

    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.wake = 0.0
        self.done = False
        self.dead = False
        self.result = None         # ('ok', value) | ('exc', exception) | ('dead', None)
        self.np_state = None
        self.thread = None
        self.ops = 0
        self.by_kind = {}


class World:
    """Disk + clock + scheduler + fault plan.  One World is active at a time."""

    def __init__(self, disk=None, seed=0, ctx=None):
        self.disk = disk or Disk()
        self.rng = random.Random(seed)
        self.ctx = ctx
        self.now = 0.0
        self.handles = {}
        self.procs = []
        self.cur = None
        self.quiet = 0              # the simulator's own use of SQLite: no steps, no faults
        self.switch = 0.0           # probability of a switch at a step
        self.faults = []            # [{'op','at','n','err','who'}]
        self.crash = None           # {'at': step, 'who': name|None, 'mode': 'before'|'after'|'torn', 'kind': 'kill'|'power', ...}
        self.stalls = []            # [{'at','who','for'}]
        self.crashed = None         # image left by the crash of the whole machine / only process
        self.trace = []
        self.steps = 0
        self.quota = None           # bytes the disk can hold, or None
        self.sleeping = 0.0
        self.op_time = 0.0          # simulated seconds an operation or a model call takes
        self.max_steps = 400000
        self.stuck = False
        self.samples = {}           # step -> None, filled with disk images

    # -- steps, faults, crashes
    def step(self, op, name, nbytes=0):
        """Called at every VFS operation of the code under test.  -> error code or 0; may switch processes."""
        p = self.cur
        if self.quiet or p is None:
            return 0
        if p.dead or self.crashed is not None:
            return IOERR.get(op, 10)
        n = p.ops
        p.ops += 1
        self.progress()
        if self.stuck:
            return IOERR.get(op, 10)
        k = p.by_kind[op] = p.by_kind.get(op, 0) + 1
        c = self.crash
        if c is not None and c['who'] in (None, p.name) and c.get('unit', 'op') == 'op' and n == c['at']:
            if c['mode'] != 'after' and not (c['mode'] == 'torn' and op == 'write'):
                self.kill(p)
                return IOERR.get(op, 10)
            self.after = c['mode']
        for f in self.faults:
            if f['who'] in (None, p.name) and f['op'] in (op, 'any') and not f.get('off'):
                i = n if f['op'] == 'any' else k - 1
                if f['at'] <= i < f['at'] + f['n']:
                    f['fired'] = f.get('fired', 0) + 1
                    if self.ctx:
                        self.ctx.fault('disk %s: %s' % (op, f['err']))
                    if f['err'] == 'short' and op == 'write':
                        return -1
                    if f['err'] == 'busy':
                        if op == 'lock':
                            return BUSY
                        continue
                    if f['err'] == 'full':
                        if op == 'write':
                            return FULL
                        continue
                    return IOERR.get(op, 10)
        for s in self.stalls:
            if s['who'] == p.name and s['at'] == n:
                if self.ctx:
                    self.ctx.fault('process stalled')
                self.sleep(s['for'])
        if len(self.procs) > 1 and self.switch and self.rng.random() < self.switch:
            self.yield_()
        if p.dead or self.crashed is not None:
            return IOERR.get(op, 10)
        return 0

    after = None

    def progress(self):
        self.steps += 1
        self.now += self.op_time
        if self.steps in self.samples:
            self.samples[self.steps] = self.disk.image()
        if self.steps > self.max_steps and not self.stuck:
            self.stuck = True
            for q in self.procs:
                q.dead = True

    def done_step(self):
        """After the effect of an operation: crash points 'after'."""
        if self.after == 'after' and not self.quiet:
            self.after = None
            self.kill(self.cur)

    def kill(self, p):
        """The process (and with 'power' the machine) ends here."""
        c = self.crash
        if self.ctx:
            self.ctx.fault('power loss' if c['kind'] == 'power' else 'process killed')
        p.dead = True
        if c['kind'] == 'power':
            self.crashed = self.disk.power_image(random.Random(c['seed']), c['policy'])
            for q in self.procs:
                q.dead = True
        elif len(self.procs) == 1:
            self.crashed = self.disk.image()
        for hid, h in list(self.handles.items()):
            if h.proc is p or c['kind'] == 'power':
                h.file.locks.pop(hid, None)
        self.crash = None

    def tick(self):
        """A step outside the disk (a model function is called): crash point and switch point."""
        p = self.cur
        if p is None or self.quiet:
            return
        if p.dead or self.crashed is not None:
            raise SimCrash()
        p.ticks = n = getattr(p, 'ticks', -1) + 1
        self.now += self.op_time
        c = self.crash
        if c is not None and c['who'] in (None, p.name) and c.get('unit') == 'tick' and n == c['at']:
            self.kill(p)
            raise SimCrash()
        for s in self.stalls:
            if s['who'] == p.name and s.get('unit') == 'tick' and s['at'] == n:
                self.sleep(s['for'])
        if len(self.procs) > 1 and self.switch and self.rng.random() < self.switch * 0.5:
            self.yield_()
        if p.dead or self.crashed is not None:
            raise SimCrash()

    # -- scheduling
    def sleep(self, seconds):
        p = self.cur
        self.sleeping += seconds
        if p is None or self.quiet:
            return
        self.progress()
        p.wake = self.now + seconds
        self.yield_(must=True)

    def nap(self, seconds):
        self.sleep(seconds)
        if self.cur.dead or self.crashed is not None:
            raise SimCrash()

    def runnable(self):
        return [q for q in self.procs if not q.done]

    def pick(self):
        live = self.runnable()
        ready = [q for q in live if q.wake <= self.now]
        if not ready:
            self.now = min(q.wake for q in live)
            ready = [q for q in live if q.wake <= self.now]
        return ready[self.rng.randrange(len(ready))]

    def yield_(self, must=False):
        p = self.cur
        q = self.pick()
        if q is p:
            return
        self.hand(p, q)
        p.sem.acquire()
        self.cur = p
        np.random.set_state(p.np_state)

    def hand(self, p, q):
        if p is not None:
            p.np_state = np.random.get_state()
        self.trace.append(q.name)
        q.sem.release()

    def run(self, tasks, seed=12345):
        """tasks: [(name, fn)].  Runs all to completion under the scheduler.  -> {name: result}"""
        self.procs = [Proc(n) for n, _ in tasks]
        main = threading.Semaphore(0)
        keep = np.random.get_state()

        def body(p, fn):
            p.sem.acquire()
            self.cur = p
            np.random.set_state(p.np_state)
            try:
                p.result = ('ok', fn())
            except SimCrash:
                p.result = ('dead', None)
            except BaseException as e:
                p.result = ('dead', e) if p.dead or self.crashed is not None else ('exc', e)
            if p.dead or self.crashed is not None:
                p.result = ('dead', p.result[1])
            for hid, h in list(self.handles.items()):      # the operating system closes its files
                if h.proc is p:
                    h.file.locks.pop(hid, None)
                    del self.handles[hid]
            p.done = True
            live = self.runnable()
            if live:
                q = self.pick()
                self.trace.append(q.name)
                q.sem.release()
            else:
                main.release()
        for k, (p, (_, fn)) in enumerate(zip(self.procs, tasks)):
            np.random.seed(seed + k)
            p.np_state = np.random.get_state()
            p.thread = threading.Thread(target=body, args=(p, fn), daemon=True)
            p.thread.start()
        q = self.pick()
        q.sem.release()
        if not main.acquire(timeout=150):
            raise HarnessError('simulated processes do not finish')
        for p in self.procs:
            p.thread.join(10)
        self.cur = None
        np.random.set_state(keep)
        if self.stuck:
            raise Violation('no-progress', 'the simulated processes made more than %d steps without finishing' % self.max_steps)
        return {p.name: p.result for p in self.procs}

    def solo(self, fn, name='p0'):
        return self.run([(name, fn)])[name]


class Handle:
    def __init__(self, file, name, proc, temp):
        self.file, self.name, self.proc, self.temp = file, name, proc, temp


W = None     # the active World
_ids = itertools.count(1)      # never reused: a connection of an abandoned world may be collected at any time


def activate(world):
    global W
    W = world
    return world


def _h(f):
    hid = ffi.cast('simfile*', f).id
    return hid, W.handles.get(hid)


@ffi.callback('int(sqlite3_file*)', error=10)
def xClose(f):
    hid, h = _h(f)
    if h is not None:
        h.file.locks.pop(hid, None)
        del W.handles[hid]
    return OK


@ffi.callback('int(sqlite3_file*,void*,int,int64_t)', error=10)
def xRead(f, buf, amt, off):
    hid, h = _h(f)
    if h is None:
        return 10
    if not h.temp:
        e = W.step('read', h.name)
        if e:
            return e if e > 0 else 266
    c = bytes(h.file.cur[off:off + amt])
    b = ffi.buffer(buf, amt)
    b[0:len(c)] = c
    if len(c) < amt:
        b[len(c):amt] = b'\0' * (amt - len(c))
        return 522
    return OK


@ffi.callback('int(sqlite3_file*,const void*,int,int64_t)', error=10)
def xWrite(f, buf, amt, off):
    hid, h = _h(f)
    if h is None:
        return 10
    data = bytes(ffi.buffer(buf, amt))
    if not h.temp:
        e = W.step('write', h.name, amt)
        if e == -1:                 # short write: part of it arrives, then the disk is full
            h.file.write(off, data[:max(1, amt // 2)])
            return FULL
        if e:
            return e
        if W.after == 'torn':
            W.after = None
            h.file.write(off, data[:amt * W.rng.randint(0, 7) // 8])
            W.kill(W.cur)
            return 778
        q = W.quota
        if q is not None and not W.quiet and off + amt > len(h.file.cur) and \
                sum(len(x.cur) for x in W.disk.files.values()) + off + amt - len(h.file.cur) > q:
            if W.ctx:
                W.ctx.fault('disk write: no space left')
            W.full = True
            return FULL
    h.file.write(off, data)
    W.done_step()
    return OK


@ffi.callback('int(sqlite3_file*,int64_t)', error=10)
def xTruncate(f, size):
    hid, h = _h(f)
    if h is None:
        return 10
    if not h.temp:
        e = W.step('truncate', h.name)
        if e:
            return abs(e)
    h.file.truncate(size)
    W.done_step()
    return OK


@ffi.callback('int(sqlite3_file*,int)', error=10)
def xSync(f, flags):
    hid, h = _h(f)
    if h is None:
        return 10
    if not h.temp:
        e = W.step('sync', h.name)
        if e:
            return abs(e)
    h.file.sync()
    W.done_step()
    return OK


@ffi.callback('int(sqlite3_file*,int64_t*)', error=10)
def xFileSize(f, p):
    hid, h = _h(f)
    if h is None:
        return 10
    if not h.temp:
        e = W.step('size', h.name)
        if e:
            return abs(e)
    p[0] = len(h.file.cur)
    return OK


@ffi.callback('int(sqlite3_file*,int)', error=10)
def xLock(f, level):
    hid, h = _h(f)
    if h is None:
        return 10
    e = W.step('lock', h.name)
    if e:
        return abs(e)
    if W.handles.get(hid) is None:
        return 10
    locks = h.file.locks
    mine = locks.get(hid, 0)
    if mine >= level:
        return OK
    others = [v for k, v in locks.items() if k != hid]
    top = max(others) if others else 0
    if level == 1:
        if top >= 3:
            return BUSY
    elif level == 2:
        if top >= 2:
            return BUSY
    else:
        if top >= 3 or (top == 2):
            return BUSY
        if others and top >= 1:
            locks[hid] = 3           # pending: no new readers, wait for the old ones
            return BUSY
        level = 4
    locks[hid] = level
    return OK


@ffi.callback('int(sqlite3_file*,int)', error=10)
def xUnlock(f, level):
    hid, h = _h(f)
    if h is None:
        return 10
    if level == 0:
        h.file.locks.pop(hid, None)
    elif h.file.locks.get(hid, 0) > level:
        h.file.locks[hid] = level
    W.step('unlock', h.name)       # a switch point; unlocking itself does not fail
    return OK


@ffi.callback('int(sqlite3_file*,int*)', error=10)
def xCheck(f, p):
    hid, h = _h(f)
    if h is None:
        return 10
    e = W.step('check', h.name)
    if e:
        return abs(e)
    p[0] = int(any(v >= 2 for v in h.file.locks.values()))
    return OK


@ffi.callback('int(sqlite3_file*,int,void*)', error=10)
def xFC(f, op, p):
    return NOTFOUND


@ffi.callback('int(sqlite3_file*)', error=512)
def xSec(f):
    return SECTOR


@ffi.callback('int(sqlite3_file*)', error=0)
def xDev(f):
    return 0


METHODS = ffi.new('sqlite3_io_methods*')
METHODS.iVersion = 1
METHODS.xClose, METHODS.xRead, METHODS.xWrite, METHODS.xTruncate = xClose, xRead, xWrite, xTruncate
METHODS.xSync, METHODS.xFileSize, METHODS.xLock, METHODS.xUnlock = xSync, xFileSize, xLock, xUnlock
METHODS.xCheckReservedLock, METHODS.xFileControl, METHODS.xSectorSize, METHODS.xDeviceCharacteristics = xCheck, xFC, xSec, xDev


@ffi.callback('int(sqlite3_vfs*,const char*,sqlite3_file*,int,int*)', error=14)
def xOpen(v, z, f, flags, out):
    f.pMethods = ffi.NULL
    temp = z == ffi.NULL
    name = '' if temp else ffi.string(z).decode()
    if not temp:
        e = W.step('open', name)
        if e:
            return CANTOPEN
    if temp:
        file = File()
    else:
        file = W.disk.files.get(name)
        if file is None:
            if not flags & 4:       # SQLITE_OPEN_CREATE
                return CANTOPEN
            file = W.disk.files[name] = File()
            W.done_step()
    hid = next(_ids)
    W.handles[hid] = Handle(file, name, W.cur, temp)
    ffi.cast('simfile*', f).id = hid
    f.pMethods = METHODS
    if out != ffi.NULL:
        out[0] = flags
    return OK


@ffi.callback('int(sqlite3_vfs*,const char*,int)', error=10)
def xDelete(v, z, sync):
    name = ffi.string(z).decode()
    e = W.step('delete', name)
    if e:
        return abs(e)
    W.disk.files.pop(name, None)
    W.done_step()
    return OK


@ffi.callback('int(sqlite3_vfs*,const char*,int,int*)', error=10)
def xAccess(v, z, flags, out):
    name = ffi.string(z).decode()
    e = W.step('access', name)
    if e:
        return abs(e)
    out[0] = int(name in W.disk.files)
    return OK


@ffi.callback('int(sqlite3_vfs*,const char*,int,char*)', error=14)
def xFull(v, z, n, out):
    s = ffi.string(z) + b'\0'
    if len(s) > n:
        return CANTOPEN
    ffi.buffer(out, len(s))[:] = s
    return OK


@ffi.callback('int(sqlite3_vfs*,int,char*)', error=0)
def xRand(v, n, out):
    ffi.buffer(out, n)[:] = bytes((7 * i + 13) % 256 for i in range(n))
    return n


@ffi.callback('int(sqlite3_vfs*,int)', error=0)
def xSleep(v, us):
    W.sleep(us / 1e6)
    return us


@ffi.callback('int(sqlite3_vfs*,double*)', error=1)
def xCT(v, p):
    p[0] = 2460000.5 + (W.now if W else 0) / 86400
    return OK


@ffi.callback('int(sqlite3_vfs*,int64_t*)', error=1)
def xCT64(v, p):
    p[0] = int((2460000.5 * 86400 + (W.now if W else 0)) * 1000)
    return OK


@ffi.callback('int(sqlite3_vfs*,int,char*)', error=0)
def xGLE(v, n, out):
    return OK


VFS = ffi.new('sqlite3_vfs*')
_name = ffi.new('char[]', b'simdisk')
VFS.iVersion, VFS.szOsFile, VFS.mxPathname, VFS.zName = 2, ffi.sizeof('simfile'), 512, _name
VFS.xOpen, VFS.xDelete, VFS.xAccess, VFS.xFullPathname, VFS.xRandomness = xOpen, xDelete, xAccess, xFull, xRand
VFS.xSleep, VFS.xCurrentTime, VFS.xGetLastError, VFS.xCurrentTimeInt64 = xSleep, xCT, xGLE, xCT64

_lib = None


def install():
    """Make the simulated disk SQLite's default VFS in this process."""
    global _lib
    if _lib is None:
        _lib = ffi.dlopen('libsqlite3.so.0')
        rc = _lib.sqlite3_vfs_register(VFS, 1)
        if rc:
            raise HarnessError('cannot register the simulated disk: %d' % rc)
        seam_clock()


def seam_clock():
    """Inside a simulated process the time module shows and spends simulated time."""
    def inside():
        return W is not None and W.cur is not None and not W.quiet and W.cur.thread is threading.current_thread()

    def wrap(real, fn):
        def f(*a):
            return fn(*a) if inside() else real(*a)
        return f
    time.sleep = wrap(time.sleep, lambda s: W.nap(s))
    time.time = wrap(time.time, lambda: 1.7e9 + W.now)
    time.monotonic = wrap(time.monotonic, lambda: W.now)
    time.perf_counter = wrap(time.perf_counter, lambda: W.now)
