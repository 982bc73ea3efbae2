"""Puts every source of nondeterminism behind the simulator, then imports the
code under test from /repo."""
from __future__ import annotations

import gc
import itertools
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')

from . import kernel  # noqa: E402

_real_time = time.time
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_INSTALLED = False


def _sim():
    return kernel.CURRENT if kernel.current_thread() is not None else None


def _time():
    sim = _sim()
    return _real_time() if sim is None else sim.time()


def _time_ns():
    return int(_time() * 1e9)


def _monotonic():
    sim = _sim()
    return _real_monotonic() if sim is None else sim.mono


def _sleep(seconds):
    sim = _sim()
    if sim is None:
        return _real_sleep(seconds)
    return sim.sleep(seconds)


def _datetime_proxy():
    import datetime as real

    class Meta(type):

        def __instancecheck__(cls, obj):
            return isinstance(obj, real.datetime)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real.datetime)

    class datetime(real.datetime, metaclass=Meta):
        """datetime whose 'now' is the simulated clock."""

        @classmethod
        def now(cls, tz=None):
            return real.datetime.fromtimestamp(_time(), tz)

        @classmethod
        def utcnow(cls):
            return real.datetime.fromtimestamp(
                _time(), real.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real.datetime.fromtimestamp(_time())

    class DateMeta(type):

        def __instancecheck__(cls, obj):
            return isinstance(obj, real.date)

    class date(real.date, metaclass=DateMeta):

        @classmethod
        def today(cls):
            return real.date.fromtimestamp(_time())

    proxy = types.ModuleType('datetime')
    proxy.__dict__.update({k: v for k, v in real.__dict__.items()
                           if not k.startswith('__')})
    proxy.datetime = datetime
    proxy.date = date
    return real, proxy


def install():
    """Idempotent."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    warnings.simplefilter('ignore')
    # --- clock
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.sleep = _sleep
    # --- third-party modules, imported outside the simulation
    import dask
    import dask.array
    import dask.bag
    import dask.delayed
    import dask.distributed
    import distributed
    import fasteners
    import fsspec
    import numpy
    import pandas
    import pyarrow
    import pyarrow.parquet
    import xarray
    import zarr
    import zarr.storage
    import uuid
    import warnings as _warnings  # noqa: F401

    dask.config.set(scheduler=None)
    pyarrow.set_cpu_count(1)
    pyarrow.set_io_thread_count(1)
    from . import cluster, objstore, posix
    posix.install()
    cluster.install()
    real_uuid4 = uuid.uuid4

    def uuid4():
        sim = _sim()
        return real_uuid4() if sim is None else sim.uuid()

    uuid.uuid4 = uuid4

    # --- identities of file system instances: real process and thread
    # identifiers become simulated ones
    import fsspec.spec
    real_tokenize = fsspec.spec.tokenize

    def tokenize(*args, **kwargs):
        thread = kernel.current_thread()
        if thread is not None and len(args) >= 3 and isinstance(args[0], type):
            args = (args[0].__name__, thread.proc.name, 0, *args[3:])
        return real_tokenize(*args, **kwargs)

    fsspec.spec.tokenize = tokenize

    # --- names of dask keys: the order in which dask runs the tasks of a graph
    # depends on them, and the tokens of arbitrary objects depend on their
    # address and on what ran before in the process
    import dask.base
    import dask.highlevelgraph
    real_dask_tokenize = dask.base.tokenize

    def dask_tokenize(*args, **kwargs):
        sim = _sim()
        if sim is None:
            return real_dask_tokenize(*args, **kwargs)
        return sim.token()

    for module in list(sys.modules.values()):
        if getattr(module, 'tokenize', None) is real_dask_tokenize:
            module.tokenize = dask_tokenize

    # --- the code under test
    sys.path.insert(0, REPO)
    real, proxy = _datetime_proxy()
    sys.modules['datetime'] = proxy
    try:
        import zcollection
        import zcollection.collection
        import zcollection.convenience
        import zcollection.indexing
        import zcollection.merging
        import zcollection.merging.period
        import zcollection.merging.time_series
        import zcollection.partitioning
        import zcollection.storage
        import zcollection.sync
        import zcollection.view
    finally:
        sys.modules['datetime'] = real
    # modules of the package importing datetime later on get the proxy as well
    import builtins
    real_import = builtins.__import__

    def _import(name, globals=None, locals=None, fromlist=(), level=0):
        if (name == 'datetime' and globals is not None and
                str(globals.get('__name__', '')).startswith('zcollection')):
            return proxy
        return real_import(name, globals, locals, fromlist, level)

    builtins.__import__ = _import
    where = os.path.realpath(zcollection.__file__)
    if not where.startswith(os.path.realpath(REPO)):
        raise RuntimeError(f'zcollection imported from {where}')
    import numcodecs.blosc
    numcodecs.blosc.use_threads = False
    threading.stack_size(0)
    sys.setswitchinterval(0.05)
    sys.unraisablehook = lambda *args: None
    threading.excepthook = lambda *args: None


class Scratch:
    """A scratch directory for the POSIX storage of one run."""

    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.real = tempfile.mkdtemp(prefix=f'zsim-{os.getpid()}-', dir=base)
        # The code hashes absolute paths: the simulated storage has the same
        # path in every process.
        os.chdir(self.real)
        self.path = '/proc/self/cwd'
        if not os.path.samefile(self.path, self.real):
            raise RuntimeError('/proc/self/cwd is not available')

    def clean(self):
        from . import posix
        posix.ROOT = None
        os.chdir('/')
        shutil.rmtree(self.real, ignore_errors=True)


def begin_run(scratch, sub, tz='UTC'):
    """Reset global state before a run; returns the POSIX root."""
    from . import cluster, objstore, posix
    posix.ROOT = None
    root = os.path.join(scratch.path, sub)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    posix.CTIMES.clear()
    posix.ROOT = root + '/'
    objstore.reset()
    cluster._CLUSTERS.clear()
    cluster.SimCluster._ids = itertools.count()
    import fsspec
    objstore.SimObjectFileSystem.clear_instance_cache()
    objstore.SimLocalFileSystem.clear_instance_cache()
    os.environ['TZ'] = tz
    time.tzset()
    random.seed(0)
    import numpy
    numpy.random.seed(0)
    gc.disable()
    return root


def end_run(root):
    from . import posix
    posix.ROOT = None
    shutil.rmtree(root, ignore_errors=True)
    gc.collect()
