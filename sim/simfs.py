"""Simulated disk under Python's own file calls (open, os.*), for code that writes plain files.

The files live in a real scratch directory, so that anything not intercepted still sees a consistent state; every operation that changes or
reads them goes through a step at which it can fail, be cut short, or be the last thing the process does.  Besides the visible state the
simulator keeps what is durable: losing power replaces the directory by an image in which unsynced data and the youngest renames are gone.
"""
import builtins
import errno
import io
import os

import simthread
from core import SimCrash

ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT}
real = {n: getattr(os, n) for n in ('open', 'write', 'close', 'fsync', 'rename', 'replace', 'unlink', 'remove', 'link', 'truncate', 'ftruncate',
                                    'getpid', 'fdopen', 'fdatasync') if hasattr(os, n)}
real_open = io.open


class Inode:
    def __init__(self, synced=b'', durable=False):
        self.synced, self.pending, self.durable = synced, [], durable


class FS:
    def __init__(self, root, ctx=None):
        self.root, self.ctx = os.path.realpath(root), ctx
        self.inodes = {}            # st_ino -> Inode
        self.fds = {}               # fd -> path
        self.names = {}             # durable directory: path -> Inode (numbers are used again)
        self.meta = []              # namespace changes not yet durable
        self.procs = {}             # process -> {'ops': n, 'dead': False, 'fault':, 'crash':}
        self.solo = None
        self.log = []
        self.switching = True

    # -- processes
    def current(self):
        s = simthread.CUR
        return s.current if s is not None and s.inside() else self.solo

    def begin(self, name, fault=None, crash=None):
        self.procs[name] = {'ops': 0, 'dead': False, 'fault': fault, 'crash': crash, 'fired': 0, 'kinds': {}, 'open': []}

    def step(self, op, path, nbytes=0):
        """-> None to do the operation, or ('short', k): do only the first k bytes.  Raises its failure."""
        name = self.current()
        p = self.procs.get(name)
        if p is None:
            return None
        if p['dead']:
            raise SimCrash()
        s = simthread.CUR
        if s is not None and s.inside() and self.switching:
            s.point()
        n, k = p['ops'], p['kinds'].get(op, 0)
        p['ops'], p['kinds'][op] = n + 1, k + 1
        self.log.append((name, op, os.path.basename(path).replace(str(os.getpid()), 'PID'), nbytes))
        c = p['crash']
        if c is not None and c['at'] == n:
            p['crashed'] = True
            if c['mode'] == 'torn' and op == 'write' and nbytes:
                p['dying'] = True
                return 'short', int(c['cut'] * nbytes)
            if c['mode'] != 'after':
                self.die(p)
            p['dying'] = True
            return None
        f = p['fault']
        if f is not None and (f['op'] == op or f['op'] == 'any') and f['at'] <= (n if f['op'] == 'any' else k) < f['at'] + f['n']:
            p['fired'] += 1
            if self.ctx:
                self.ctx.fault('file %s: %s' % (op, f['err']))
            if f['err'] == 'short':
                return ('short', max(1, int(f['cut'] * nbytes))) if op in ('write', 'read') else None
            if op == 'write' and nbytes and f.get('cut'):
                part = int(f['cut'] * nbytes)
                if part:
                    p['pend'] = f['err']           # a partial write first, the error on the next one
                    return 'short', part
            raise OSError(ERR[f['err']], os.strerror(ERR[f['err']]), path)
        return None

    def done(self):
        """After an operation took effect: the process may die here."""
        p = self.procs.get(self.current())
        if p is not None and p.get('dying'):
            self.die(p)

    def die(self, p):
        p['dead'] = True
        if self.ctx:
            self.ctx.fault('process killed')
        raise SimCrash()

    def is_dead(self):
        p = self.procs.get(self.current())
        return p is not None and p['dead']

    # -- what is durable
    def ours(self, path):
        try:
            return os.path.realpath(os.fsdecode(os.fspath(path))).startswith(self.root + os.sep)
        except TypeError:
            return False

    def key(self, path):
        return os.path.realpath(os.fsdecode(os.fspath(path)))

    def node(self, fd):
        ino = os.fstat(fd).st_ino
        return self.inodes.setdefault(ino, Inode())

    def adopt(self):
        """The present directory is durable."""
        self.inodes, self.names, self.meta = {}, {}, []
        for base, _, files in os.walk(self.root):
            for f in files:
                path = os.path.join(base, f)
                ino = os.stat(path).st_ino
                with real_open(path, 'rb') as fh:
                    self.names[path] = self.inodes[ino] = Inode(fh.read())

    def commit(self):
        for m in self.meta:
            self.apply(self.names, m)
        self.meta = []

    @staticmethod
    def apply(names, m):
        if m[0] == 'new':
            names[m[1]] = m[2]
        elif m[0] == 'del':
            names.pop(m[1], None)
        else:
            node = names.pop(m[1], None)
            if node is not None:
                names[m[2]] = node

    def power_loss(self, rng):
        """Replaces the directory by what survives."""
        names = dict(self.names)
        for m in self.meta[:rng.randint(0, len(self.meta))]:
            self.apply(names, m)
        image = {}
        for path, node in names.items():
            data = bytearray(node.synced)
            style = rng.choice(['none', 'all', 'some', 'size'])
            for what in node.pending:
                r = rng.random()
                if style == 'none' or style == 'some' and r < 0.4:
                    continue
                if what[0] == 'trunc':
                    n = what[1]
                    data = data[:n] + bytes(max(0, n - len(data)))
                    continue
                off, b = what[1], what[2]
                if style == 'size':
                    b = bytes(len(b))
                elif style == 'some' and r < 0.7:
                    b = b[:rng.randint(0, len(b))]
                data += bytes(max(0, off + len(b) - len(data)))
                data[off:off + len(b)] = b
            image[path] = bytes(data)
        for base, _, files in os.walk(self.root):
            for f in files:
                real['unlink'](os.path.join(base, f))
        for path, data in image.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with real_open(path, 'wb') as fh:
                fh.write(data)
        self.adopt()
        if self.ctx:
            self.ctx.fault('power loss')

    # -- operations
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            raw = Raw(self, file, self.fds[file], mode, closefd)
        else:
            if not self.ours(file):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            plus, kind = '+' in mode, next(c for c in mode if c in 'rwxa')
            flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                     'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[kind]
            if plus:
                flags = flags & ~os.O_WRONLY | os.O_RDWR
            raw = Raw(self, self.os_open(file, flags, 0o666), self.key(file), mode, True)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedReader(raw, size) if 'r' in mode else io.BufferedWriter(raw, size)
        if 'b' in mode:
            return File(buf)
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or not self.ours(path):
            return real['open'](path, flags, mode, dir_fd=dir_fd)
        path = self.key(path)
        if os.path.isdir(path):
            fd = real['open'](path, flags, mode)
            self.fds[fd] = path
            return fd
        self.step('create' if flags & os.O_CREAT else 'open', path)
        there = os.path.exists(path)
        fd = real['open'](path, flags, mode)
        self.fds[fd] = path
        node = self.node(fd)
        if not there:
            node = self.inodes[os.fstat(fd).st_ino] = Inode()
            self.meta.append(('new', path, node))
        elif flags & os.O_TRUNC:
            node.pending.append(('trunc', 0))
        self.done()
        return fd

    def os_write(self, fd, data):
        if fd not in self.fds:
            return real['write'](fd, data)
        if self.is_dead():
            return len(data)
        data = bytes(data)
        p = self.procs.get(self.current())
        if p is not None and p.get('pend'):
            e = p.pop('pend')
            raise OSError(ERR[e], os.strerror(ERR[e]))
        r = self.step('write', self.fds[fd], len(data))
        if r:
            data = data[:r[1]]
        off = os.fstat(fd).st_size if real_flags(fd) & os.O_APPEND else os.lseek(fd, 0, os.SEEK_CUR)
        n = real['write'](fd, data) if data else 0
        self.node(fd).pending.append(('write', off, data))
        self.done()
        return n

    def os_close(self, fd):
        if fd in self.fds and not self.is_dead():
            del self.fds[fd]
        else:
            self.fds.pop(fd, None)
        return real['close'](fd)

    def os_fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd not in self.fds:
            return real['fsync'](fd)
        self.step('sync', self.fds[fd])
        if not os.path.isdir(self.fds[fd]):
            node = self.node(fd)
            with real_open('/proc/self/fd/%d' % fd, 'rb') as fh:
                node.synced, node.pending = fh.read(), []
        self.commit()
        self.done()

    def os_rename(self, a, b, **k):
        if not self.ours(a) and not self.ours(b):
            return real['rename'](a, b, **k)
        a, b = self.key(a), self.key(b)
        self.step('rename', b)
        real['rename'](a, b, **k)
        self.meta.append(('mv', a, b))
        self.done()

    def os_unlink(self, path, **k):
        if not self.ours(path):
            return real['unlink'](path, **k)
        path = os.path.join(self.key(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        self.step('unlink', path)
        real['unlink'](path, **k)
        self.meta.append(('del', path))
        self.done()

    def os_link(self, a, b, **k):
        if not self.ours(b):
            return real['link'](a, b, **k)
        self.step('link', self.key(b))
        real['link'](a, b, **k)
        self.meta.append(('new', self.key(b), self.inodes.setdefault(os.stat(b).st_ino, Inode())))
        self.done()

    def os_truncate(self, path, n):
        if isinstance(path, int):
            return self.os_ftruncate(path, n)
        fd = self.os_open(path, os.O_WRONLY)
        try:
            return self.os_ftruncate(fd, n)
        finally:
            self.os_close(fd)

    def os_ftruncate(self, fd, n):
        if fd not in self.fds:
            return real['ftruncate'](fd, n)
        self.step('truncate', self.fds[fd])
        real['ftruncate'](fd, n)
        self.node(fd).pending.append(('trunc', n))
        self.done()

    def getpid(self):
        p = self.current()
        return real['getpid']() if p is None else 1000 + p if isinstance(p, int) else 999

    # -- installation
    def __enter__(self):
        self.keep = builtins.open, io.open, {n: getattr(os, n) for n in real}
        builtins.open = io.open = self.open
        os.open, os.write, os.close, os.fsync, os.fdatasync = self.os_open, self.os_write, self.os_close, self.os_fsync, self.os_fsync
        os.rename = os.replace = self.os_rename
        os.unlink = os.remove = self.os_unlink
        os.link, os.truncate, os.ftruncate, os.getpid = self.os_link, self.os_truncate, self.os_ftruncate, self.getpid
        return self

    def __exit__(self, *e):
        builtins.open, io.open = self.keep[:2]
        for n, f in self.keep[2].items():
            setattr(os, n, f)
        return False


def real_flags(fd):
    import fcntl
    return fcntl.fcntl(fd, fcntl.F_GETFL)


class Raw(io.RawIOBase):
    def __init__(self, fs, fd, path, mode, closefd):
        self.fs, self.fd, self.path, self.mode, self.closefd = fs, fd, path, mode, closefd
        self.name = path
        self.who = fs.current()

    def fileno(self):
        return self.fd

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    def seekable(self):
        return True

    def dead(self):
        p = self.fs.procs.get(self.who)
        return p is not None and p['dead']

    def readinto(self, b):
        r = self.fs.step('read', self.path, len(b))
        data = os.read(self.fd, min(len(b), r[1]) if r else len(b))
        b[:len(data)] = data
        self.fs.done()
        return len(data)

    def write(self, b):
        if self.dead():
            return len(b)
        return self.fs.os_write(self.fd, bytes(b))

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, os.SEEK_CUR)

    def truncate(self, n=None):
        if not self.dead():
            self.fs.os_ftruncate(self.fd, self.tell() if n is None else n)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self.closefd:
                    self.fs.os_close(self.fd)


class File:
    """A buffered file that numpy does not take for one of its own (it would go round the simulator)."""

    def __init__(self, buf):
        self._buf = buf

    def __getattr__(self, name):
        return getattr(self._buf, name)

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self._buf.close()
        return False

    def __iter__(self):
        return iter(self._buf)
