"""POSIX storage seam.

The real fsspec LocalFileSystem, shutil, zarr and zcollection code runs on a
real scratch directory; the system calls it makes below that directory go
through the simulator: each is a scheduling point and a possible fault.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import stat as _stat

import fcntl

from . import kernel
from .faults import os_error

ROOT = None  # scratch directory, with trailing '/'

_real = {name: getattr(os, name) for name in (
    'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'scandir',
    'listdir', 'stat', 'lstat', 'truncate', 'utime', 'link', 'symlink',
    'open', 'DirEntry', 'chmod')}
_real_open = builtins.open
_real_lockf = fcntl.lockf
_real_flock = fcntl.flock

#: simulated change times: (dev, ino) -> seconds
CTIMES: dict = {}


def _sim():
    """The simulation the calling thread belongs to."""
    if kernel.current_thread() is None:
        return None
    return kernel.CURRENT


def _path(path):
    """The path as str when it lies below the scratch directory."""
    if ROOT is None:
        return None
    if isinstance(path, int):
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if path.startswith(ROOT) or path == ROOT[:-1]:
        return path
    return None


def short(path):
    return path[len(ROOT):] if path.startswith(ROOT) else path


def _touch(path, sim):
    try:
        info = _real['lstat'](path)
    except OSError:
        return
    CTIMES[(info.st_dev, info.st_ino)] = sim.time()


def _parent(path):
    return path.rstrip('/').rsplit('/', 1)[0]


def _enter(sim, op, path):
    """Scheduling point and fault decision of a mutating system call."""
    thread = kernel.current_thread()
    sim.point(op, short(path))
    sim.op_counts[op] += 1
    fault = None
    if sim.faults is not None:
        fault = sim.faults.poll(sim, op, short(path), thread)
        if fault is not None:
            kind = fault['kind']
            sim.note('FAULT', f'{kind} {op} {short(path)}')
            if kind == 'crash':
                if op == 'write':
                    return fault
                crash(sim, thread)
            elif kind == 'kill':
                if op == 'write':
                    return fault
                kill_worker(sim, thread)
            elif kind == 'torn':
                if op == 'write':
                    return fault
                raise os_error('enospc', path)
            else:
                raise os_error(kind, path)
    for listener in sim.listeners:
        listener(op, path, thread)
    return None


def _observe(sim, op, path):
    """Scheduling point of a reading system call: it may fail too."""
    sim.point(op, short(path))
    if sim.faults is not None:
        fault = sim.faults.poll(sim, op, short(path),
                                kernel.current_thread())
        if fault is not None:
            sim.note('FAULT', f'{fault["kind"]} {op} {short(path)}')
            raise os_error(fault['kind'], path)


def crash(sim, thread):
    sim.kill(thread.proc.group)
    raise kernel.SimCrash()


def kill_worker(sim, thread):
    thread.worker.die()
    raise kernel.SimCrash()


def _wrap1(op, name):
    real = _real[name]

    def wrapper(path, *args, **kwargs):
        sim = _sim()
        where = _path(path) if sim is not None else None
        if where is None or kwargs.get('dir_fd') is not None:
            return real(path, *args, **kwargs)
        _enter(sim, op, where)
        result = real(path, *args, **kwargs)
        if op == 'mkdir':
            _touch(where, sim)
        _touch(_parent(where), sim)
        return result

    wrapper.__name__ = name
    return wrapper


def _wrap_rename(name):
    real = _real[name]

    def wrapper(src, dst, **kwargs):
        sim = _sim()
        where = (_path(src) or _path(dst)) if sim is not None else None
        if where is None:
            return real(src, dst, **kwargs)
        target = os.fspath(dst)
        _enter(sim, 'rename', f'{os.fspath(src)} -> {short(target)}'
               if target.startswith(ROOT) else os.fspath(src))
        result = real(src, dst, **kwargs)
        for item in (os.fspath(dst), _parent(os.fspath(src)),
                     _parent(os.fspath(dst))):
            _touch(item, sim)
        return result

    return wrapper


def _fix_stat(info, path=None):
    ctime = CTIMES.get((info.st_dev, info.st_ino))
    if ctime is None:
        return info
    seq, extra = info.__reduce__()[1]
    seq = list(seq)
    seq[8] = int(ctime)
    seq[9] = int(ctime)
    extra = dict(extra)
    extra['st_ctime'] = ctime
    extra['st_mtime'] = ctime
    extra['st_ctime_ns'] = int(ctime * 1e9)
    extra['st_mtime_ns'] = int(ctime * 1e9)
    return os.stat_result(tuple(seq), extra)


def _wrap_stat(name):
    real = _real[name]

    def wrapper(path, *args, **kwargs):
        sim = _sim()
        where = _path(path) if sim is not None else None
        if where is None:
            return real(path, *args, **kwargs)
        sim.point('stat', short(where))
        return _fix_stat(real(path, *args, **kwargs))

    return wrapper


class SimDirEntry:
    """os.DirEntry with simulated times."""
    __slots__ = ('name', 'path', '_info')

    def __init__(self, name, path):
        self.name = name
        self.path = path
        self._info = None

    def __fspath__(self):
        return self.path

    def stat(self, *, follow_symlinks=True):
        return _fix_stat(_real['stat'](self.path,
                                       follow_symlinks=follow_symlinks))

    def _mode(self, follow_symlinks=True):
        try:
            return _real['stat'](self.path,
                                 follow_symlinks=follow_symlinks).st_mode
        except FileNotFoundError:
            return 0

    def is_dir(self, *, follow_symlinks=True):
        return _stat.S_ISDIR(self._mode(follow_symlinks))

    def is_file(self, *, follow_symlinks=True):
        return _stat.S_ISREG(self._mode(follow_symlinks))

    def is_symlink(self):
        return _stat.S_ISLNK(self._mode(False))

    def is_junction(self):
        return False

    def inode(self):
        return _real['lstat'](self.path).st_ino

    def __repr__(self):
        return f'<DirEntry {self.name!r}>'


class _Scandir:

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._it = iter(())

    def close(self):
        self._it = iter(())


def _order(names):
    """Directory order is unspecified on POSIX: sorted, or a fixed shuffle
    chosen by the run."""
    sim = _sim()
    names = sorted(names)
    salt = sim.policy.get('dirorder') if sim is not None else None
    if salt:
        import zlib
        names.sort(key=lambda item: zlib.crc32(f'{salt}{item}'.encode()))
    return names


def _scandir(path='.'):
    sim = _sim()
    where = _path(path) if sim is not None else None
    if where is None:
        return _real['scandir'](path)
    _observe(sim, 'list', where)
    names = _order(_real['listdir'](where))
    return _Scandir([SimDirEntry(name, os.path.join(where, name))
                     for name in names])


def _listdir(path='.'):
    sim = _sim()
    where = _path(path) if sim is not None else None
    if where is None:
        return _real['listdir'](path)
    _observe(sim, 'list', where)
    return _order(_real['listdir'](where))


class SimRaw(io.RawIOBase):
    """Raw file whose system calls go through the simulator."""

    def __init__(self, path, mode, opener=None):
        super().__init__()
        self._file = io.FileIO(path, mode, opener=opener)
        self.name = path
        self.mode = self._file.mode
        info = os.fstat(self._file.fileno())
        self.ident = (info.st_dev, info.st_ino)
        self._writing = self._file.writable()

    def readable(self):
        return self._file.readable()

    def writable(self):
        return self._file.writable()

    def seekable(self):
        return True

    def readinto(self, buffer):
        sim = _sim()
        if sim is not None:
            _observe(sim, 'read', self.name)
        return self._file.readinto(buffer)

    def write(self, data):
        sim = _sim()
        if sim is None:
            if kernel.CURRENT is not None and kernel.CURRENT.stopping:
                return len(data)
            return self._file.write(data)
        data = bytes(data)
        fault = _enter(sim, 'write', self.name)
        if fault is not None:
            kind = fault['kind']
            part = int(len(data) * fault.get('frac', 0.5))
            if part:
                self._file.write(data[:part])
            if kind == 'crash':
                crash(sim, kernel.current_thread())
            if kind == 'kill':
                kill_worker(sim, kernel.current_thread())
            raise os_error('torn', self.name)
        result = self._file.write(data)
        CTIMES[self.ident] = sim.time()
        return result

    def seek(self, offset, whence=0):
        return self._file.seek(offset, whence)

    def tell(self):
        return self._file.tell()

    def truncate(self, size=None):
        sim = _sim()
        if sim is not None:
            _enter(sim, 'truncate', self.name)
        return self._file.truncate(size)

    def real_fileno(self):
        return self._file.fileno()

    def close(self):
        if self.closed:
            return
        sim = kernel.CURRENT
        thread = kernel.current_thread()
        if sim is not None and thread is not None:
            if sim.locks.get(self.ident) == thread.proc.pid:
                # POSIX: closing any descriptor drops the process' locks.
                sim.locks.pop(self.ident, None)
                sim.note('unlock-close', short(self.name))
        try:
            super().close()
        finally:
            self._file.close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    sim = _sim()
    where = _path(file) if sim is not None else None
    if where is None:
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '')
    writing = any(c in raw_mode for c in 'wax+')
    if writing:
        existed = _exists(where)
        _enter(sim, 'create', where)
        raw = SimRaw(where, raw_mode, opener)
        CTIMES[raw.ident] = sim.time()
        if not existed:
            _touch(_parent(where), sim)
    else:
        _observe(sim, 'open', where)
        raw = SimRaw(where, raw_mode, opener)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
    if '+' in raw_mode:
        buffer = io.BufferedRandom(raw, size)
    elif writing:
        buffer = io.BufferedWriter(raw, size)
    else:
        buffer = io.BufferedReader(raw, size)
    if binary:
        return buffer
    text = io.TextIOWrapper(buffer, encoding, errors, newline,
                            line_buffering=buffering == 1)
    text.mode = mode
    return text


def _exists(path):
    try:
        _real['lstat'](path)
    except OSError:
        return False
    return True


def _raw_of(obj):
    for _ in range(4):
        if isinstance(obj, SimRaw):
            return obj
        nxt = getattr(obj, 'raw', None) or getattr(obj, 'buffer', None) \
            or getattr(obj, 'f', None)
        if nxt is None:
            return None
        obj = nxt
    return None


def _lock(real):

    def wrapper(fd, cmd, *args):
        sim = _sim()
        raw = _raw_of(fd) if sim is not None else None
        if raw is None:
            return real(fd, cmd, *args)
        thread = kernel.current_thread()
        pid = thread.proc.pid
        sim.point('lock' if cmd & (fcntl.LOCK_EX | fcntl.LOCK_SH) else
                  'unlock', short(raw.name))
        if cmd & fcntl.LOCK_UN:
            if sim.locks.get(raw.ident) == pid:
                del sim.locks[raw.ident]
            return None
        while True:
            owner = sim.locks.get(raw.ident)
            if owner is None or owner == pid:
                sim.locks[raw.ident] = pid
                sim.note('locked', short(raw.name))
                return None
            if cmd & fcntl.LOCK_NB:
                raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
            sim.block(lambda: raw.ident not in sim.locks, what='lockf')

    return wrapper


def _os_open(path, flags, *args, **kwargs):
    sim = _sim()
    where = _path(path) if sim is not None else None
    if where is not None:
        if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR | os.O_TRUNC):
            _enter(sim, 'create', where)
        else:
            _observe(sim, 'open', where)
    return _real['open'](path, flags, *args, **kwargs)


def install():
    """Interpose on the functions the storage stack calls."""
    os.mkdir = _wrap1('mkdir', 'mkdir')
    os.rmdir = _wrap1('rmdir', 'rmdir')
    os.unlink = _wrap1('unlink', 'unlink')
    os.remove = _wrap1('unlink', 'remove')
    os.truncate = _wrap1('truncate', 'truncate')
    os.utime = _wrap1('truncate', 'utime')
    os.rename = _wrap_rename('rename')
    os.replace = _wrap_rename('replace')
    os.stat = _wrap_stat('stat')
    os.lstat = _wrap_stat('lstat')
    os.scandir = _scandir
    os.open = _os_open
    os.listdir = _listdir
    os.DirEntry = SimDirEntry
    builtins.open = sim_open
    io.open = sim_open
    fcntl.lockf = _lock(_real_lockf)
    fcntl.flock = _lock(_real_flock)
    shutil._use_fd_functions = False


def snapshot(root, with_times=False):
    """Content of a directory tree, read outside the simulation."""
    out = {}
    stack = [root]
    while stack:
        path = stack.pop()
        try:
            entries = _real['listdir'](path)
        except OSError:
            continue
        for name in entries:
            item = f'{path}/{name}'
            info = _real['lstat'](item)
            rel = item[len(root) + 1:]
            if _stat.S_ISDIR(info.st_mode):
                out[rel] = None
                stack.append(item)
            else:
                with _real_open(item, 'rb') as stream:
                    out[rel] = stream.read()
    return out


def store(path, data):
    """Write a file, outside the simulation."""
    parts = path.split('/')
    for ix in range(2, len(parts)):
        try:
            _real['mkdir']('/'.join(parts[:ix]))
        except FileExistsError:
            pass
    with _real_open(path, 'wb') as stream:
        stream.write(data)
