"""Simulated files and standard streams.

Everything below /sim/ lives in memory.  open() builds the interpreter's real buffered layers over a
simulated raw file, so short, interrupted and failing system calls reach the same code they reach in
deployment.  A fault script decides what every raw call does; nothing here draws random numbers.

Fault: {"at": op, "n": k, "do": kind, "arg": x, "path": suffix (optional)}
  the k-th (from 0) raw call `op` (open read write close seek truncate) matching the path suffers `do`:
  short (transfer only arg bytes, at least 1), eintr (the call is interrupted before any transfer; the
  buffered layer must retry), err (fail with errno arg), eof (read only: premature end), none (write would
  block).  "from": true makes it apply to the k-th and all later calls.
Disk capacity: {"at": "disk", "arg": bytes} - writing beyond fails with ENOSPC after a partial write.
Crash: {"at": "crash", "n": k, "arg": bytes} - process death in the k-th raw write after `arg` bytes.
"""
import builtins
import errno
import io
import os
import stat as stat_mod
import sys

ROOT = '/sim/'


class Crash(BaseException):
    """The simulated process died."""


class SimRaw(io.RawIOBase):
    def __init__(self, world, node, path, readable, writable, append=False):
        self.w = world
        self.node = node
        self.path = path
        self._r = readable
        self._w = writable
        self._append = append
        self.pos = 0
        self.name = path
        self.mode = 'rb+' if readable and writable else 'rb' if readable else 'wb'
        self.fd = None
        self.direct = False      # unbuffered: the runtime itself repeats interrupted calls
        world.opened += 1
        world.live[id(self)] = self

    def readable(self):
        self._checkClosed()
        return self._r

    def writable(self):
        self._checkClosed()
        return self._w

    def seekable(self):
        self._checkClosed()
        return not self.node.get('pipe')

    def fileno(self):
        self._checkClosed()
        if self.fd is None:
            self.fd = self.w.new_fd(self)
        return self.fd

    def isatty(self):
        return False

    def tell(self):
        self._checkClosed()
        return self.pos

    def seek(self, off, whence=0):
        self._checkClosed()
        if self.node.get('pipe'):
            raise OSError(errno.ESPIPE, 'Illegal seek')
        self.w.fault('seek', self.path)
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.node['data']) + off
        if self.pos < 0:
            self.pos = 0
            raise OSError(errno.EINVAL, 'Invalid argument')
        return self.pos

    def truncate(self, size=None):
        self._checkClosed()
        if not self._w:
            raise io.UnsupportedOperation('truncate')
        self.w.fault('truncate', self.path)
        size = self.pos if size is None else size
        d = self.node['data']
        if size < len(d):
            del d[size:]
        else:
            d.extend(bytes(size - len(d)))
        self.w.mutated(self.path)
        return size

    def readinto(self, buf):
        self._checkClosed()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        want = len(buf)
        avail = self.node['data'][self.pos:self.pos + want]
        f = self.w.fault('read', self.path, len(avail), self.direct)
        if f:
            if f[0] == 'short':
                avail = avail[:max(1, f[1])]
            elif f[0] == 'eof':
                avail = b''
        self.w.bytes_read += len(avail)
        buf[:len(avail)] = avail
        self.pos += len(avail)
        return len(avail)

    def write(self, b):
        self._checkClosed()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        b = bytes(b)
        w = self.w
        k = w.counts.get('write', 0)
        for c in w.faults:
            if c['at'] == 'crash' and c['n'] == k and w.match(c, self.path):
                w.hits['crash'] = w.hits.get('crash', 0) + 1
                self._store(b[:c.get('arg', 0)])
                w.crashed = True
                raise Crash()
        f = w.fault('write', self.path, len(b), self.direct)
        if f:
            if f[0] == 'short' and len(b):
                b = b[:max(1, f[1])]
            elif f[0] == 'none':
                return None
        if w.capacity is not None and not self.node.get('pipe'):
            used = sum(len(n['data']) for n in w.files.values())
            free = w.capacity - used
            grow = max(0, self.pos + len(b) - len(self.node['data']))
            if grow > free:
                keep = len(b) - (grow - max(0, free))
                w.hits['enospc'] = w.hits.get('enospc', 0) + 1
                if keep <= 0:
                    raise OSError(errno.ENOSPC, 'No space left on device')
                b = b[:keep]
        return self._store(b)

    def _store(self, b):
        d = self.node['data']
        if self._append or self.node.get('pipe'):
            self.pos = len(d)
        if self.pos > len(d):
            d.extend(bytes(self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        self.w.bytes_written += len(b)
        self.w.mutated(self.path)
        return len(b)

    def close(self):
        if self.closed:
            return
        self.w.live.pop(id(self), None)
        try:
            if not self.w.crashed:
                self.w.fault('close', self.path)
        finally:
            super().close()

    def __del__(self):
        # a leaked raw file vanishes silently, as a killed process's would: the leak itself is in world.live
        pass


class World:
    """One simulated machine: files, fault script, counters."""

    def __init__(self):
        self.files = {}        # path -> {'data': bytearray}
        self.faults = []
        self.counts = {}
        self.hits = {}
        self.live = {}
        self.fds = {}
        self.opened = 0
        self.bytes_read = 0
        self.bytes_written = 0
        self.capacity = None
        self.crashed = False
        self.mutations = {}
        self.log = []
        self.enabled = True
        self.bufsize = io.DEFAULT_BUFFER_SIZE

    # ------------------------------------------------------------ faults
    def script(self, faults):
        """Install a fault script and restart the call counters."""
        self.faults = list(faults or [])
        self.counts = {}
        self.capacity = None
        for f in self.faults:
            if f['at'] == 'disk':
                self.capacity = f['arg']

    def match(self, f, path):
        return not f.get('path') or path.endswith(f['path'])

    def fault(self, op, path, size=0, retry=False):
        k = self.counts.get(op, 0)
        self.counts[op] = k + 1
        kp = self.counts.get((op, path), 0)
        self.counts[(op, path)] = kp + 1
        for f in self.faults:
            if f['at'] != op or not self.match(f, path):
                continue
            n = kp if f.get('path') else k
            if n == f['n'] or (f.get('from') and n >= f['n']):
                kind = f['do']
                key = f'{op}:{kind}' if kind != 'err' else f'{op}:{errno.errorcode.get(f["arg"], f["arg"])}'
                if kind == 'short' and size <= max(1, f.get('arg', 1)):
                    continue
                self.hits[key] = self.hits.get(key, 0) + 1
                if kind == 'eintr':
                    if retry:
                        return self.fault(op, path, size, retry)
                    raise InterruptedError(errno.EINTR, 'Interrupted system call')
                if kind == 'err':
                    raise OSError(f['arg'], os.strerror(f['arg']), path)
                return kind, f.get('arg', 1)
        return None

    def mutated(self, path):
        self.mutations[path] = self.mutations.get(path, 0) + 1

    # ------------------------------------------------------------ contents
    def put(self, path, data):
        self.files[path] = {'data': bytearray(data)}

    def get(self, path):
        n = self.files.get(path)
        return bytes(n['data']) if n is not None else None

    def snapshot(self):
        return {p: bytes(n['data']) for p, n in self.files.items()}

    def new_fd(self, raw):
        fd = 1000000 + len(self.fds)
        self.fds[fd] = raw
        return fd

    # ------------------------------------------------------------ the seams
    def raw_open(self, path, flags_r, flags_w, trunc, create, excl=False, append=False):
        self.fault('open', path)
        node = self.files.get(path)
        if path.endswith('/') or path.rstrip('/') == ROOT.rstrip('/'):
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        if node is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
            node = self.files[path] = {'data': bytearray()}
            self.mutated(path)
        elif excl:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        elif trunc:
            if node['data']:
                self.mutated(path)
            del node['data'][:]
        return SimRaw(self, node, path, flags_r, flags_w, append)

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) and file in self.fds:
            raw = self.fds[file]
        else:
            path = self.path(file)
            if path is None:
                return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
            m = set(mode) - {'b', 't', 'U'}
            up = '+' in m
            base = (m - {'+'}).pop()
            raw = self.raw_open(path, base == 'r' or up, base in 'wax' or up, base == 'w', base in 'wax', base == 'x',
                                base == 'a')
            if base == 'a':
                raw.pos = len(raw.node['data'])
        binary = 'b' in mode
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            raw.direct = True
            return raw
        size = buffering if buffering > 1 else self.bufsize
        if raw._r and raw._w:
            buf = io.BufferedRandom(raw, size)
        elif raw._w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)

    def path(self, p):
        if isinstance(p, (str, bytes)) or hasattr(p, '__fspath__'):
            s = os.fspath(p)
            if isinstance(s, bytes):
                s = s.decode('utf-8', 'surrogateescape')
            if not s.startswith('/'):
                s = ROOT + s if self.enabled and self.cwd_sim else s
            if s.startswith(ROOT) or s == ROOT[:-1]:
                return s
        return None

    cwd_sim = False

    def stat(self, path):
        node = self.files.get(path)
        if node is None:
            if path.rstrip('/') == ROOT.rstrip('/'):
                return os.stat_result((stat_mod.S_IFDIR | 0o755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        return os.stat_result((stat_mod.S_IFREG | 0o644, id(node) & 0xffff, 1, 1, 0, 0, len(node['data']), 0, 0, 0))


_real = {}
_world = None


def world():
    return _world


def _wrap_os(name, handler):
    real = getattr(os, name)
    _real['os.' + name] = real

    def f(*a, **k):
        w = _world
        if w is not None:
            r = handler(w, *a, **k)
            if r is not NotImplemented:
                return r
        return real(*a, **k)
    f.__name__ = name
    setattr(os, name, f)


def install():
    if _real:
        return
    _real['open'] = builtins.open

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if _world is None:
            return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        return _world.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    sim_open.__name__ = 'open'
    builtins.open = sim_open
    io.open = sim_open

    def o_open(w, path, flags, mode=0o777, *, dir_fd=None):
        p = w.path(path)
        if p is None:
            return NotImplemented
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        raw = w.raw_open(p, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR), bool(flags & os.O_TRUNC),
                         bool(flags & os.O_CREAT), bool(flags & os.O_EXCL), bool(flags & os.O_APPEND))
        return raw.fileno()

    def o_write(w, fd, data):
        if fd not in w.fds:
            return NotImplemented
        while True:
            try:
                n = w.fds[fd].write(data)
            except InterruptedError:
                continue
            if n is None:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            return n

    def o_read(w, fd, n):
        if fd not in w.fds:
            return NotImplemented
        b = bytearray(n)
        while True:
            try:
                k = w.fds[fd].readinto(b)
            except InterruptedError:
                continue
            return bytes(b[:k])

    def o_close(w, fd):
        if fd not in w.fds:
            return NotImplemented
        w.fds[fd].close()

    def o_fsync(w, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        if fd not in w.fds:
            return NotImplemented
        w.fault('fsync', w.fds[fd].path)

    def o_lseek(w, fd, pos, how):
        if fd not in w.fds:
            return NotImplemented
        return w.fds[fd].seek(pos, how)

    def o_ftruncate(w, fd, n):
        if fd not in w.fds:
            return NotImplemented
        w.fds[fd].truncate(n)

    def o_fstat(w, fd):
        if fd not in w.fds:
            return NotImplemented
        return w.stat(w.fds[fd].path)

    def o_stat(w, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return o_fstat(w, path)
        p = w.path(path)
        return NotImplemented if p is None else w.stat(p)

    def o_lstat(w, path, *, dir_fd=None):
        p = w.path(path)
        return NotImplemented if p is None else w.stat(p)

    def o_replace(w, a, b, *, src_dir_fd=None, dst_dir_fd=None):
        pa, pb = w.path(a), w.path(b)
        if pa is None or pb is None:
            return NotImplemented
        w.fault('rename', pb)
        if pa not in w.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', pa)
        w.files[pb] = w.files.pop(pa)
        w.mutated(pb)

    def o_remove(w, path, *, dir_fd=None):
        p = w.path(path)
        if p is None:
            return NotImplemented
        if p not in w.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        del w.files[p]
        w.mutated(p)

    def o_access(w, path, mode, **k):
        p = w.path(path)
        return NotImplemented if p is None else p in w.files or p.rstrip('/') == ROOT.rstrip('/')

    def o_listdir(w, path='.'):
        p = w.path(path)
        if p is None:
            return NotImplemented
        return sorted(x[len(ROOT):] for x in w.files)

    for n, h in dict(open=o_open, write=o_write, read=o_read, close=o_close, fsync=o_fsync, fdatasync=o_fsync, lseek=o_lseek,
                     ftruncate=o_ftruncate, fstat=o_fstat, stat=o_stat, lstat=o_lstat, replace=o_replace, rename=o_replace,
                     remove=o_remove, unlink=o_remove, access=o_access, listdir=o_listdir).items():
        _wrap_os(n, h)


class Sink(io.StringIO):
    """Standard error: kept apart, never fails."""


class use:
    """with use(world): the code runs on that machine."""

    def __init__(self, w):
        self.w = w

    def __enter__(self):
        global _world
        install()
        self.old = _world
        _world = self.w
        return self.w

    def __exit__(self, *a):
        global _world
        _world = self.old


class stdio:
    """Simulated standard output: 'buffered' (pipe, as usual) or 'unbuffered' (python -u)."""

    def __init__(self, w, mode='buffered', name='<stdout>'):
        self.w = w
        self.node = {'data': bytearray(), 'pipe': True}
        raw = SimRaw(w, self.node, name, False, True)
        w.live.pop(id(raw), None)
        if mode == 'unbuffered':
            raw.direct = True
            self.stream = io.TextIOWrapper(raw, 'utf-8', write_through=True)
        else:
            self.stream = io.TextIOWrapper(io.BufferedWriter(raw, w.bufsize), 'utf-8')

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = self.stream
        return self

    def __exit__(self, *a):
        sys.stdout = self.old

    def shutdown(self):
        """What the interpreter does at exit: flush; a failure makes the exit status 120."""
        try:
            self.stream.flush()
            return True
        except (OSError, ValueError):
            return False

    def data(self):
        return bytes(self.node['data'])

    def discard(self):
        """Drop the stream without letting its finalizer write any more."""
        old, self.w.faults = self.w.faults, []
        try:
            self.node['data'] = bytearray(self.node['data'])
            self.stream.detach()
        except Exception:
            pass
        self.w.faults = old
