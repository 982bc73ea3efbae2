"""Object storage stub: an in-memory bucket with the semantics of S3 as seen
through s3fs (version pinned in the sandbox): atomic puts that appear on close,
virtual directories, no rename (copy then delete), bulk deletes, and a listing
cache that is private to each (simulated) process."""
from __future__ import annotations

import datetime
import io

import fsspec
from fsspec.implementations.local import LocalFileSystem
from fsspec.spec import AbstractFileSystem

from . import kernel, posix
from .faults import READING, os_error


class Bucket:
    """Durable content of the object store."""

    def __init__(self):
        self.objects: dict[str, tuple[bytes, float]] = {}


STORE = Bucket()


def reset():
    STORE.objects.clear()


def _point(op, path):
    sim = posix._sim()
    if sim is None:
        return None
    if op in ('put', 'copy', 'delete'):
        thread = kernel.current_thread()
        sim.point(op, path)
        sim.op_counts[op] += 1
        if sim.faults is not None:
            fault = sim.faults.poll(sim, op, path, thread)
            if fault is not None:
                kind = fault['kind']
                sim.note('FAULT', f'{kind} {op} {path}')
                if kind == 'crash':
                    posix.crash(sim, thread)
                elif kind == 'kill':
                    posix.kill_worker(sim, thread)
                raise os_error(kind, path)
        for listener in sim.listeners:
            listener(op, path, thread)
    elif op in READING:
        posix._observe(sim, op, path)
    else:
        sim.point(op, path)
    return sim


class ObjectFile(io.BytesIO):
    """Write-once object: becomes visible, entirely, on close."""

    def __init__(self, fs, path, mode, data=b''):
        super().__init__(data)
        self.fs = fs
        self.path = path
        self.mode = mode
        self.size = len(data)
        if 'a' in mode:
            self.seek(0, 2)
        self._failed = False

    def __exit__(self, exc_type, exc, tb):
        # s3fs commits on close even when leaving on an exception.
        self.close()

    def close(self):
        if self.closed:
            return
        try:
            if 'r' not in self.mode and not self._failed:
                self._failed = True
                self.fs._put(self.path, self.getvalue())
        finally:
            super().close()

    def __del__(self):
        # An object that was never closed was never uploaded.
        self._failed = True


class SimObjectFileSystem(AbstractFileSystem):
    """s3fs look-alike on the in-memory bucket."""
    protocol = ('sims3', )
    root_marker = ''
    cachable = True

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._own = {}

    # the listing cache belongs to the process that runs the code
    @property
    def dircache(self):
        thread = kernel.current_thread()
        if thread is None:
            return self.__dict__.setdefault('_own', {})
        return thread.proc.dircache

    @dircache.setter
    def dircache(self, value):
        pass

    def _put(self, path, data):
        sim = _point('put', path)
        STORE.objects[path] = (bytes(data), sim.time() if sim else 0.0)
        self.invalidate_cache(path)

    def invalidate_cache(self, path=None):
        if path is None:
            self.dircache.clear()
            return
        path = self._strip_protocol(path)
        self.dircache.pop(path, None)
        while path:
            self.dircache.pop(path, None)
            path = self._parent(path)

    def _list(self, path, delimiter='/'):
        """Fresh listing from the bucket."""
        _point('list', path)
        prefix = path.rstrip('/') + '/' if path else ''
        files, dirs = [], {}
        for key in sorted(STORE.objects):
            if not key.startswith(prefix):
                continue
            rest = key[len(prefix):]
            if delimiter and '/' in rest:
                name = prefix + rest.split('/', 1)[0]
                dirs[name] = dict(name=name, type='directory', size=0,
                                  StorageClass='DIRECTORY')
            else:
                data, when = STORE.objects[key]
                files.append(dict(name=key, type='file', size=len(data),
                                  LastModified=when,
                                  StorageClass='STANDARD'))
        return files + list(dirs.values())

    def _lsdir(self, path, refresh=False):
        if path not in self.dircache or refresh:
            files = self._list(path)
            if files:
                self.dircache[path] = files
            return files
        return self.dircache[path]

    def ls(self, path, detail=True, refresh=False, **kwargs):
        path = self._strip_protocol(path).rstrip('/')
        files = self._lsdir(path, refresh)
        if not files and '/' in path:
            files = [o for o in self._lsdir(self._parent(path), refresh)
                     if o['name'].rstrip('/') == path
                     and o['type'] != 'directory']
            if not files:
                raise FileNotFoundError(path)
        files = list(files)
        return files if detail else sorted(o['name'] for o in files)

    def exists(self, path, **kwargs):
        path = self._strip_protocol(path)
        if '/' not in path:
            return True
        try:
            entries = self._ls_from_cache(path)
        except FileNotFoundError:
            return False
        if entries is not None:
            return True
        try:
            self.info(path)
            return True
        except FileNotFoundError:
            return False

    def _head(self, path):
        _point('head', path)
        if path in STORE.objects:
            data, when = STORE.objects[path]
            return dict(name=path, type='file', size=len(data),
                        LastModified=when, StorageClass='STANDARD')
        prefix = path.rstrip('/') + '/'
        if any(key.startswith(prefix) for key in STORE.objects):
            return dict(name=path, type='directory', size=0,
                        StorageClass='DIRECTORY')
        raise FileNotFoundError(path)

    def info(self, path, refresh=False, **kwargs):
        path = self._strip_protocol(path)
        if path in ('', '/'):
            return dict(name=path, type='directory', size=0)
        if not refresh:
            out = self._ls_from_cache(path)
            if out is not None:
                out = [o for o in out if o['name'] == path]
                if out:
                    return out[0]
                return dict(name=path, type='directory', size=0)
        if '/' not in path:
            return dict(name=path, type='directory', size=0)
        return self._head(path)

    def isdir(self, path):
        path = self._strip_protocol(path).strip('/')
        if '/' not in path:
            return True
        if path in self.dircache:
            return any(fp['name'] != path for fp in self.dircache[path])
        parent = self._parent(path)
        if parent in self.dircache:
            for f in self.dircache[parent]:
                if f['name'] == path:
                    return f['type'] == 'directory'
            return False
        return bool(self._lsdir(path))

    def find(self, path, maxdepth=None, withdirs=False, detail=False, **kwargs):
        path = self._strip_protocol(path)
        if maxdepth:
            return super().find(path, maxdepth=maxdepth, withdirs=withdirs,
                                detail=detail, **kwargs)
        out = self._list(path, delimiter='')
        if not out:
            try:
                out = [self.info(path)]
            except FileNotFoundError:
                out = []
        if withdirs:
            dirs = {}
            for o in out:
                par = self._parent(o['name'])
                while len(par) >= len(path) and par:
                    dirs[par] = dict(name=par, type='directory', size=0)
                    par = self._parent(par)
            out = sorted(out + [d for n, d in dirs.items()
                                if n not in {o['name'] for o in out}],
                         key=lambda o: o['name'])
        if detail:
            return {o['name']: o for o in out}
        return [o['name'] for o in out]

    def mkdir(self, path, create_parents=True, **kwargs):
        pass

    def makedirs(self, path, exist_ok=False):
        pass

    def rmdir(self, path):
        pass

    def cat_file(self, path, start=None, end=None, **kwargs):
        path = self._strip_protocol(path)
        _point('read', path)
        if path not in STORE.objects:
            raise FileNotFoundError(path)
        return STORE.objects[path][0][start:end]

    def pipe_file(self, path, value, **kwargs):
        self._put(self._strip_protocol(path), value)

    def cp_file(self, path1, path2, **kwargs):
        path1 = self._strip_protocol(path1)
        path2 = self._strip_protocol(path2)
        if path1 not in STORE.objects:
            _point('head', path1)
            raise FileNotFoundError(path1)
        sim = _point('copy', path2)
        if path1 not in STORE.objects:
            raise FileNotFoundError(path1)
        STORE.objects[path2] = (STORE.objects[path1][0],
                                sim.time() if sim else 0.0)
        self.invalidate_cache(path2)

    def _rm(self, path):
        self.rm_file(path)

    def rm_file(self, path):
        path = self._strip_protocol(path)
        _point('delete', path)
        STORE.objects.pop(path, None)
        self.invalidate_cache(path)

    def rm(self, path, recursive=False, maxdepth=None):
        paths = self.expand_path(path, recursive=recursive, maxdepth=maxdepth)
        for item in paths:
            self.invalidate_cache(self._parent(item))
        # delete_objects: keys disappear one by one
        for item in paths:
            if item in STORE.objects:
                _point('delete', item)
                STORE.objects.pop(item, None)
        for item in paths:
            self.invalidate_cache(item)
            self.invalidate_cache(self._parent(item))

    def touch(self, path, truncate=True, **kwargs):
        self._put(self._strip_protocol(path), b'')

    def _open(self, path, mode='rb', block_size=None, autocommit=True,
              cache_options=None, **kwargs):
        path = self._strip_protocol(path)
        if 'r' in mode:
            return ObjectFile(self, path, mode, self.cat_file(path))
        data = b''
        if 'a' in mode and path in STORE.objects:
            data = self.cat_file(path)
        return ObjectFile(self, path, mode, data)

    def modified(self, path):
        return datetime.datetime.fromtimestamp(
            self.info(path, refresh=True)['LastModified'],
            tz=datetime.timezone.utc)


class SimLocalFileSystem(LocalFileSystem):
    """The real local file system class.  The name differs from
    'LocalFileSystem' so that pyarrow goes through Python (and thus through the
    simulator) instead of its own C++ file layer."""


fsspec.register_implementation('sims3', SimObjectFileSystem, clobber=True)


def snapshot(root):
    prefix = root.rstrip('/') + '/'
    return {key[len(prefix):]: value[0]
            for key, value in STORE.objects.items() if key.startswith(prefix)}
