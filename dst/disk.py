"""A simulated disk in front of a scratch directory: every open, write, close, remove and rename below the
directory is an operation which may fail, be cut short, or be the last one before the process dies."""
import builtins
import errno
import io
import os
import shutil

from .engine import SimCrash

_real = dict(open=builtins.open, remove=os.remove, unlink=os.unlink, rename=os.rename, replace=os.replace, fsync=os.fsync,
             ftruncate=os.ftruncate, truncate=os.truncate, osopen=os.open, write=os.write, close=os.close, link=os.link, mkdir=os.mkdir,
             rmdir=os.rmdir, sendfile=os.sendfile)


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.dead = False
        self.epoch = 0
        self.ops = 0
        self.fault = None
        self.fired = []
        self.trace = []
        self.written = 0
        self.fds = {}           # descriptors opened below the root: number -> epoch
        self.clock = 1600000000 * 10**9         # what files are dated by (it may stall, or jump back)

    # ---- faults
    def arm(self, fault):
        """fault: {'kind': crash|enospc|eio|short, 'at': op number, 'frac': part of the write that still arrives, 'n': how many}"""
        self.ops = 0
        self.fault = dict(fault) if fault else None
        self.fired = []
        self.trace = []

    def revive(self):
        """the process is started again"""
        self.dead = False
        self.epoch += 1
        self.fault = None

    def event(self, what, size=0):
        """returns the number of bytes which go through (None: all), or raises after letting `frac` through"""
        if self.dead:
            raise SimCrash('dead')
        k = self.ops
        self.ops += 1
        f = self.fault
        hit = f is not None and f['at'] <= k < f['at'] + f.get('n', 1)
        self.trace.append(what)
        if not hit:
            return None
        kind = f['kind']
        if kind == 'short':
            if what in ('write', 'read') and size > 1:
                self.fired.append((kind, what))
                return max(1, int(size * f['frac']))
            return None
        if kind == 'enospc' and what not in ('write', 'open_w'):
            return None
        self.fired.append((kind, what))
        return int(size * f['frac'])

    def fail(self, what):
        kind = self.fault['kind']
        if kind == 'crash':
            self.dead = True
            raise SimCrash('process died at ' + what)
        no = errno.ENOSPC if kind == 'enospc' else errno.EIO
        raise OSError(no, os.strerror(no) + ' (simulated)')

    def date(self, fd):
        os.utime(fd, ns=(self.clock, self.clock))

    def gate(self, what):
        n0 = len(self.fired)
        self.event(what)
        if len(self.fired) > n0:
            self.fail(what)

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    # ---- the functions the code under test uses
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        elif not self.mine(file):
            return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace('b', '').replace('t', '').replace('U', '')
        fd = None
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, SimRaw.flags(m))
        else:
            self.gate('open_w' if m != 'r' else 'open_r')
        raw = SimRaw(self, file if isinstance(file, int) else os.fspath(file), m, fd, closefd)
        binary = 'b' in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        if '+' in m:
            b = io.BufferedRandom(raw, size)
        elif m in ('w', 'a', 'x'):
            b = io.BufferedWriter(raw, size)
        else:
            b = io.BufferedReader(raw, size)
        b = SimBuffered(b)
        return b if binary else io.TextIOWrapper(b, encoding or 'utf-8', errors, newline)

    def os_open(self, path, flags, mode=0o777, **k):
        if not self.mine(path):
            return _real['osopen'](path, flags, mode, **k)
        self.gate('open_w' if flags & (os.O_WRONLY | os.O_RDWR) else 'open_r')
        fd = _real['osopen'](path, flags, mode, **k)
        self.fds[fd] = self.epoch
        if flags & (os.O_WRONLY | os.O_RDWR):
            self.date(fd)
        return fd

    def os_write(self, fd, b):
        if fd not in self.fds:
            return _real['write'](fd, b)
        return self.do_write(fd, bytes(b))

    def os_close(self, fd):
        if fd not in self.fds:
            return _real['close'](fd)
        e = self.fds.pop(fd)
        _real['close'](fd)
        if e == self.epoch and not self.dead:
            self.gate('close')

    def do_write(self, fd, b):
        n0 = len(self.fired)
        n = self.event('write', len(b))
        if n is not None:
            if n:
                _real['write'](fd, b[:n])
                self.date(fd)
                self.written += n
            if len(self.fired) > n0 and self.fault['kind'] != 'short':
                self.fail('write')
            return n
        self.written += len(b)
        n = _real['write'](fd, b)
        self.date(fd)
        return n

    def _wrap1(self, name):
        f = _real[name]

        def g(path, *a, **k):
            if self.mine(path):
                self.gate(name)
            return f(path, *a, **k)
        return g

    def _wrap2(self, name):
        f = _real[name]

        def g(src, dst, *a, **k):
            if self.mine(src) or self.mine(dst):
                self.gate(name)
            return f(src, dst, *a, **k)
        return g

    def __enter__(self):
        builtins.open = io.open = self.open
        os.remove, os.unlink = self._wrap1('remove'), self._wrap1('unlink')
        os.rename, os.replace = self._wrap2('rename'), self._wrap2('replace')

        os.link, os.mkdir, os.rmdir = self._wrap2('link'), self._wrap1('mkdir'), self._wrap1('rmdir')
        os.open, os.write, os.close = self.os_open, self.os_write, self.os_close

        def sendfile(out, in_, *a, **k):
            if out in self.fds or in_ in self.fds:
                raise OSError(errno.EINVAL, 'not simulated')        # callers fall back to write()
            return _real['sendfile'](out, in_, *a, **k)
        os.sendfile = sendfile

        def fsync(fd):
            if not isinstance(fd, int) or fd in self.fds:
                self.gate('fsync')
                return None
            return _real['fsync'](fd)
        os.fsync = fsync
        return self

    def __exit__(self, *a):
        builtins.open = io.open = _real['open']
        os.remove, os.unlink, os.rename, os.replace = _real['remove'], _real['unlink'], _real['rename'], _real['replace']
        os.fsync, os.link, os.mkdir, os.rmdir = _real['fsync'], _real['link'], _real['mkdir'], _real['rmdir']
        os.open, os.write, os.close, os.sendfile = _real['osopen'], _real['write'], _real['close'], _real['sendfile']
        return False


class SimRaw(io.RawIOBase):
    @staticmethod
    def flags(m):
        plus = '+' in m
        rw = os.O_RDWR if plus else os.O_WRONLY
        return os.O_CLOEXEC | {'r': os.O_RDWR if plus else os.O_RDONLY, 'w': rw | os.O_CREAT | os.O_TRUNC,
                               'a': rw | os.O_CREAT | os.O_APPEND, 'x': rw | os.O_CREAT | os.O_EXCL}[m[0]]

    def __init__(self, disk, path, m, fd=None, closefd=True):
        self.disk, self.name, self.m = disk, path, m
        self.epoch = disk.epoch
        self.closefd = closefd
        self.fd = -1
        if fd is None:
            fd = _real['osopen'](path, self.flags(m), 0o666)
            if m != 'r':
                disk.date(fd)
        disk.fds[fd] = disk.epoch
        self.fd = fd
        self.mode = m + 'b'

    def fileno(self):
        if self.fd < 0:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def readable(self):
        return self.m[0] == 'r' or '+' in self.m

    def writable(self):
        return self.m[0] != 'r' or '+' in self.m

    def seekable(self):
        return True

    def stale(self):
        return self.epoch != self.disk.epoch

    def write(self, b):
        b = bytes(b)
        if self.stale() or self.fd < 0:
            return len(b)           # buffers of a dead process go nowhere
        return self.disk.do_write(self.fd, b)

    def readinto(self, buf):
        d = self.disk
        n0 = len(d.fired)
        n = d.event('read', len(buf))
        if n is not None:
            if d.fault['kind'] != 'short':
                d.fail('read')
        x = os.read(self.fd, len(buf) if n is None else max(1, n))
        buf[:len(x)] = x
        return len(x)

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        self.disk.gate('truncate')
        _real['ftruncate'](self.fd, self.tell() if size is None else size)
        return size

    def close(self):
        if self.closed:
            return
        fd, self.fd = self.fd, -1
        try:
            if fd >= 0 and self.closefd:
                self.disk.fds.pop(fd, None)
                _real['close'](fd)
                if not self.stale() and self.writable() and not self.disk.dead:
                    self.disk.gate('close')
        finally:
            super().close()


def reset_dir(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)


class SimBuffered(io.BufferedIOBase):
    """the standard buffers, without being an instance of io.BufferedWriter (numpy would bypass them with C stdio)"""
    def __init__(self, b):
        self.b = b
        self.name = b.raw.name
        self.mode = b.raw.mode

    @property
    def raw(self):
        return self.b.raw

    @property
    def closed(self):
        return self.b.closed

    def readable(self):
        return self.b.readable()

    def writable(self):
        return self.b.writable()

    def seekable(self):
        return True

    def write(self, x):
        x = bytes(x)            # a traceback must not keep the caller's buffer alive
        return self.b.write(x)

    def flush(self):
        if not self.b.closed:
            self.b.flush()

    def read(self, n=-1):
        return self.b.read(n)

    def read1(self, n=-1):
        return self.b.read1(n)

    def readinto(self, x):
        return self.b.readinto(x)

    def readline(self, n=-1):
        return self.b.readline(n)

    def peek(self, n=0):
        return self.b.peek(n)

    def seek(self, o, w=0):
        return self.b.seek(o, w)

    def tell(self):
        return self.b.tell()

    def truncate(self, n=None):
        return self.b.truncate(n)

    def fileno(self):
        return self.b.fileno()

    def close(self):
        self.b.close()
