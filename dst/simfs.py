"""File-system seam: files and directories under one scratch root, with seeded faults and crashes.

Everything under the root goes to the real file system (so that readers, mmap included, stay real), but files opened for
writing are replaced by an unbuffered Python object, and directory operations are intercepted.  Every mutating operation is
numbered; a fault plan names what happens at which one:

  {'kind': 'eio',    'at': k, 'n': m}       operations k .. k+m-1 fail with EIO (a write stores a prefix first)
  {'kind': 'enospc', 'room': b, 'until': k} the disk has room for b more bytes; from operation k on there is room again
  {'kind': 'erofs',  'match': s}            opening or creating a path containing s is refused
  {'kind': 'kill',   'at': k, 'keep': f}    the process dies at operation k: a write stores the fraction f of its bytes
  {'kind': 'rdfail', 'at': k, 'n': m}       opening for reading fails with EIO

A kill models a process crash, not a power cut: what was written before stays.  After a kill nothing this process does
reaches the disk any more.  `yield_point` (optional) is called before every operation, so that a scheduler can interleave
several simulated processes on one directory.
"""
import builtins
import contextlib
import errno
import io
import os
from collections import Counter
from dst.core import SimCrash

REAL = dict(open=builtins.open, mkdir=os.mkdir, rename=os.rename, replace=os.replace, remove=os.remove, unlink=os.unlink,
            rmdir=os.rmdir, link=os.link, stat=os.stat, truncate=os.truncate, fsync=os.fsync, os_open=os.open)


class SimFile:
    """A file open for writing.  Not an io object on purpose: libraries must go through write()."""

    def __init__(self, fs, path, mode, encoding=None, newline=None):
        self._fs, self.name, self.mode = fs, path, mode
        self._text = 'b' not in mode
        self._enc = encoding or 'utf-8'
        m = mode.replace('b', '').replace('t', '')
        self._f = io.FileIO(path, m)
        self.closed = False

    # -- reading side and positions: the real file
    def read(self, n=-1):
        b = self._f.read(n)
        return b.decode(self._enc) if self._text else b

    def readinto(self, b):
        return self._f.readinto(b)

    def readline(self, n=-1):
        b = self._f.readline(n)
        return b.decode(self._enc) if self._text else b

    def __iter__(self):
        while True:
            ln = self.readline()
            if not ln:
                return
            yield ln

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def fileno(self):
        return self._f.fileno()

    def seekable(self):
        return True

    def readable(self):
        return self._f.readable()

    def writable(self):
        return True

    def isatty(self):
        return False

    # -- writing side
    def write(self, data):
        n = len(data)
        if isinstance(data, str):
            if not self._text:
                raise TypeError("a bytes-like object is required, not 'str'")
            raw = data.encode(self._enc)
        else:
            if self._text:
                raise TypeError('write() argument must be str, not bytes')
            raw = bytes(data)
        self._fs.write(self._f, raw, self.name)
        return n if isinstance(data, str) else len(raw)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        self._fs.op('truncate', self.name)
        return self._f.truncate(size)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Fs:
    def __init__(self, root, plan=(), stats=None, yield_point=None):
        self.root = os.path.realpath(root)
        self.plan = [dict(p) for p in plan]
        self.stats = Counter() if stats is None else stats
        self.yield_point = yield_point
        self.ops = 0                    # mutating operations so far
        self.reads = 0
        self.bytes = 0
        self.dead = False
        self.log = []                   # (op number, what, path relative to root, fault or None)
        self.used = {}                  # bytes accounted to 'enospc' plans, by plan index
        self.fired = []

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        return os.path.relpath(os.path.join(os.getcwd(), os.fsdecode(os.fspath(path))), self.root)

    def _pause(self):
        if self.dead:
            raise SimCrash()
        if self.yield_point:
            self.yield_point()
        if self.dead:
            raise SimCrash()

    def _fire(self, p, k, what, path):
        self.fired.append((p['kind'], k, what, self.rel(path)))
        self.stats['fault.' + {'eio': 'io_error', 'enospc': 'disk_full', 'erofs': 'unwritable', 'kill': 'crash', 'rdfail': 'read_error'}[p['kind']]] += 1

    def op(self, what, path, raw=None, f=None):
        """One mutating operation; returns the number of bytes of a write that must be stored before its error, or None."""
        self._pause()
        k = self.ops
        self.ops += 1
        self.log.append((k, what, self.rel(path)))
        size = len(raw) if raw is not None else 0
        for i, p in enumerate(self.plan):
            kind = p['kind']
            if kind == 'kill' and k == p['at']:
                if f is not None and raw is not None:
                    f.write(raw[:int(size * p.get('keep', 0))])
                self._fire(p, k, what, path)
                self.dead = True
                raise SimCrash()
            if kind == 'eio' and p['at'] <= k < p['at'] + p.get('n', 1):
                if f is not None and raw is not None:
                    f.write(raw[:size // 2])
                self._fire(p, k, what, path)
                raise OSError(errno.EIO, os.strerror(errno.EIO), os.fspath(path))
            if kind == 'erofs' and what in ('open', 'mkdir') and p['match'] in self.rel(path):
                self._fire(p, k, what, path)
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), os.fspath(path))
            if kind == 'enospc' and not (p.get('until') is not None and k >= p['until']):
                room = p['room'] - self.used.get(i, 0)
                need = size if raw is not None else (512 if what in ('open', 'mkdir') else 0)
                if what == 'open' and os.path.exists(path):
                    need = 0
                if need > room:
                    if f is not None and raw is not None and room > 0:
                        f.write(raw[:room])
                        self.used[i] = p['room']
                    self._fire(p, k, what, path)
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), os.fspath(path))
                self.used[i] = self.used.get(i, 0) + need

    def write(self, f, raw, path):
        self.op('write', path, raw, f)
        f.write(raw)
        self.bytes += len(raw)

    # ------------------------------------------------------------------ replacements
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, int) and self.inside(file):
            if any(c in mode for c in 'wax+'):
                self.op('open', file)
                return SimFile(self, os.fspath(file), mode, encoding, newline)
            self._pause()
            k = self.reads
            self.reads += 1
            for p in self.plan:
                if p['kind'] == 'rdfail' and p['at'] <= k < p['at'] + p.get('n', 1):
                    self._fire(p, k, 'read', file)
                    raise OSError(errno.EIO, os.strerror(errno.EIO), os.fspath(file))
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)

    def _wrap1(self, name):
        real = REAL[name]

        def g(path, *a, **k):
            if self.inside(path):
                self.op(name, path)
            return real(path, *a, **k)
        return g

    def _wrap2(self, name):
        real = REAL[name]

        def g(src, dst, *a, **k):
            if self.inside(src) or self.inside(dst):
                self.op(name, dst)
            return real(src, dst, *a, **k)
        return g

    def stat(self, path, *a, **k):
        if self.yield_point and self.inside(path):
            self._pause()
        return REAL['stat'](path, *a, **k)

    def os_open(self, path, flags, *a, **k):
        if self.inside(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            self.op('open', path)
        return REAL['os_open'](path, flags, *a, **k)

    def table(self):
        return {'open': self.open, 'os_open': self.os_open, 'mkdir': self._wrap1('mkdir'), 'remove': self._wrap1('remove'),
                'unlink': self._wrap1('unlink'), 'rmdir': self._wrap1('rmdir'), 'truncate': self._wrap1('truncate'),
                'rename': self._wrap2('rename'), 'replace': self._wrap2('replace'), 'link': self._wrap2('link'), 'stat': self.stat}

    def installed(self):
        return patched(self.table())


@contextlib.contextmanager
def patched(tab):
    builtins.open = io.open = tab['open']
    os.open = tab['os_open']
    for n, g in tab.items():
        if n not in ('open', 'os_open'):
            setattr(os, n, g)
    try:
        yield
    finally:
        builtins.open = io.open = REAL['open']
        os.open = REAL['os_open']
        for n in tab:
            if n not in ('open', 'os_open'):
                setattr(os, n, REAL[n])


class Router:
    """Several simulated processes on one directory, each with its own Fs (faults, crash): `enter(fs)` says whose turn it is."""

    def __init__(self):
        self.cur = None

    def enter(self, fs):
        self.cur = fs.table() if fs is not None else None

    def installed(self):
        def via(name):
            def g(*a, **k):
                return (REAL if self.cur is None else self.cur)[name](*a, **k)
            return g
        return patched({n: via(n) for n in ('open', 'os_open', 'mkdir', 'remove', 'unlink', 'rmdir', 'truncate', 'rename', 'replace', 'link', 'stat')})


def tree(root):
    """{relative path: bytes} of everything under root (None for directories)."""
    res = {}
    for d, ds, fs in os.walk(root):
        for x in sorted(ds):
            res[os.path.relpath(os.path.join(d, x), root)] = None
        for x in sorted(fs):
            p = os.path.join(d, x)
            with REAL['open'](p, 'rb') as f:
                res[os.path.relpath(p, root)] = f.read()
    return res
