"""Stub of dask.distributed on the simulation kernel.

Semantics kept from distributed: tasks submitted by ``map``/``submit``/
``persist`` start eagerly; ``gather`` raises as soon as one task has failed,
while the others go on; a worker runs at most ``nthreads`` tasks; a task that
opens a worker client leaves its slot; in process mode, functions, arguments
and results are serialised; when a worker dies its running tasks are rerun on
other workers (up to ``ALLOWED_FAILURES`` deaths per task).
"""
from __future__ import annotations

import contextlib
import itertools

import cloudpickle
import dask
import dask.base
import dask.core
import dask.local
import dask.optimization
from dask.utils import funcname

from . import kernel

ALLOWED_FAILURES = 3


class CancelledError(Exception):
    pass


class KilledWorker(Exception):
    pass


class SimFuture:
    """Future on the simulated cluster."""

    def __init__(self, cluster, key):
        self.cluster = cluster
        self.key = key
        self.status = 'pending'
        self._result = None
        self._exception = None
        self._callbacks = []
        self.client = None

    def __reduce__(self):
        return (_find_future, (self.cluster.cid, self.key))

    def done(self):
        return self.status not in ('pending', )

    def cancelled(self):
        return self.status == 'cancelled'

    def _wait(self):
        if not self.done():
            self.cluster.sim.block(self.done, what=f'future')

    def result(self, timeout=None):
        self._wait()
        if self.status == 'error':
            raise self._exception
        if self.status == 'cancelled':
            raise CancelledError(self.key)
        return self.cluster.fetch(self)

    def exception(self, timeout=None, **kwargs):
        self._wait()
        return self._exception

    def traceback(self, timeout=None, **kwargs):
        return None

    def cancel(self, **kwargs):
        self.cluster.cancel([self])

    def release(self):
        pass

    def retry(self, **kwargs):
        raise NotImplementedError

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._callbacks.append(fn)

    def __repr__(self):
        return f'<SimFuture {self.key} {self.status}>'


_CLUSTERS: dict[int, 'SimCluster'] = {}


def _find_future(cid, key):
    return _CLUSTERS[cid].futures[key]


class Worker:

    def __init__(self, cluster, index, proc):
        self.cluster = cluster
        self.index = index
        self.proc = proc
        self.address = f'sim://{cluster.name}/{index}'
        self.name = self.address
        self.active = 0  # slots in use
        self.running: list[Task] = []

    def die(self):
        """Kill the worker process; a nanny starts a new one at once."""
        sim = self.cluster.sim
        self.proc.dead = True
        victims = list(self.running)
        # tasks submitted by the victims are forgotten with their client
        children = [t for t in list(self.cluster.ready) if
                    t.owner is not None and t.owner in victims]
        for task in children:
            self.cluster.ready.remove(task)
            task.future.status = 'cancelled'
        for worker in self.cluster.workers:
            for task in list(worker.running):
                if task.owner is not None and task.owner in victims and \
                        task not in victims:
                    task.forgotten = True
                    if task.thread is not None:
                        task.thread.dead = True
        for task in victims:
            if task.owner in victims:
                task.forgotten = True
            if task.thread is not None:
                task.thread.dead = True
        self.proc = sim.new_proc(f'{self.address}', group=self.proc.group)
        self.cluster.deaths += 1
        # the dead threads still have to unwind; slots are handed back then


class Task:

    def __init__(self, cluster, future, fn, deps, workers, owner):
        self.cluster = cluster
        self.future = future
        self.fn = fn  # fn(results of deps) -> value
        self.deps = deps
        self.workers = workers
        self.owner = owner
        self.thread = None
        self.worker = None
        self.seceded = False
        self.failures = 0
        self.forgotten = False

    def thread_ended(self, thread):
        self.cluster.task_ended(self, thread)


class SimCluster:
    _ids = itertools.count()

    def __init__(self, sim, name, group, *, nworkers=2, nthreads=1,
                 processes=False, client_proc=None, retries=True):
        self.sim = sim
        self.cid = next(SimCluster._ids)
        _CLUSTERS.clear() if len(_CLUSTERS) > 50 else None
        _CLUSTERS[self.cid] = self
        self.name = name
        self.group = group
        self.nthreads = nthreads
        self.processes = processes
        self.client_proc = client_proc
        self.futures: dict[str, SimFuture] = {}
        self.ready: list[Task] = []
        self.waiting: list[Task] = []
        self.counter = itertools.count()
        self.deaths = 0
        self.workers = []
        self.tasks_started = 0
        for index in range(nworkers):
            proc = sim.new_proc(f'{name}-w{index}', group=group) \
                if processes else client_proc
            self.workers.append(Worker(self, index, proc))
        sim.clusters.append(self)

    # ---- state
    def pending(self):
        """Tasks that are queued, waiting or running."""
        # the threads of forgotten tasks are dead but have not unwound yet
        running = [t for w in self.workers for t in w.running
                   if not t.forgotten]
        return len(self.ready) + len(self.waiting) + len(running)

    def new_future(self, prefix):
        key = f'{prefix}-{next(self.counter)}'
        future = SimFuture(self, key)
        self.futures[key] = future
        return future

    def transfer(self, value):
        if not self.processes:
            return value
        return cloudpickle.loads(cloudpickle.dumps(value))

    def fetch(self, future):
        return self.transfer(future._result)

    # ---- submission
    def submit(self, prefix, fn, deps=(), workers=None):
        thread = kernel.current_thread()
        owner = thread.task if thread is not None else None
        future = self.new_future(prefix)
        if workers is not None:
            if isinstance(workers, str):
                workers = [workers]
            workers = [str(item) for item in workers]
        task = Task(self, future, fn, list(deps), workers, owner)
        future.task = task
        self.waiting.append(task)
        self._advance()
        return future

    def _advance(self):
        """Move tasks along and start those a worker has a slot for."""
        for task in list(self.waiting):
            bad = [d for d in task.deps if d.status in ('error', 'cancelled')]
            if bad:
                self.waiting.remove(task)
                self._settle(task.future, 'error',
                             exc=bad[0]._exception or CancelledError())
                return self._advance()
            if all(d.status == 'finished' for d in task.deps):
                self.waiting.remove(task)
                self.ready.append(task)
        while self.ready:
            free = [w for w in self.workers if w.active < self.nthreads]
            if not free:
                return
            candidates = [
                (t, w) for t in self.ready[:6] for w in free
                if t.workers is None or w.address in t.workers]
            if not candidates:
                return
            index = self.sim.dec.choose(len(candidates), p=0.5)
            task, worker = candidates[index]
            self.ready.remove(task)
            self._start(task, worker)

    def _start(self, task, worker):
        task.worker = worker
        worker.active += 1
        worker.running.append(task)
        task.seceded = False
        self.tasks_started += 1
        name = f'{self.name}/w{worker.index}/{task.future.key}'

        def body():
            self.sim.point('task', task.future.key)
            args = [d._result for d in task.deps]
            if self.processes:
                fn, args = cloudpickle.loads(
                    cloudpickle.dumps((task.fn, args)))
            else:
                fn = task.fn
            value = fn(*args)
            return self.transfer(value)

        task.thread = self.sim.spawn(body, name, worker.proc, task=task,
                                     worker=worker)

    def task_ended(self, task, thread):
        worker = thread.worker
        if task in worker.running:
            worker.running.remove(task)
        if not task.seceded:
            worker.active -= 1
        error = thread.error
        if isinstance(error, kernel.SimStop):
            return
        if isinstance(error, kernel.SimCrash) or thread.is_dead():
            if self.client_proc is not None and self.client_proc.dead:
                self._settle(task.future, 'cancelled')
                return
            if task.forgotten:
                self._settle(task.future, 'cancelled')
            else:
                task.failures += 1
                if task.failures > ALLOWED_FAILURES:
                    self._settle(task.future, 'error',
                                 exc=KilledWorker(task.future.key))
                else:
                    task.thread = None
                    self.ready.append(task)
        elif error is not None:
            if self.processes and isinstance(error, Exception):
                try:
                    error = cloudpickle.loads(cloudpickle.dumps(error))
                except Exception:
                    error = Exception(str(error))
            self._settle(task.future, 'error', exc=error)
        else:
            self._settle(task.future, 'finished', value=thread.result)
        self._advance()

    def _settle(self, future, status, value=None, exc=None):
        future.status = status
        future._result = value
        future._exception = exc
        callbacks, future._callbacks = future._callbacks, []
        for fn in callbacks:
            fn(future)

    def cancel(self, futures):
        for future in futures:
            task = getattr(future, 'task', None)
            if task is None:
                continue
            if task in self.ready:
                self.ready.remove(task)
                self._settle(future, 'cancelled')
            elif task in self.waiting:
                self.waiting.remove(task)
                self._settle(future, 'cancelled')
            elif not future.done():
                # running: the result is forgotten, the thread goes on
                future.status = 'cancelled'
        self._advance()

    def secede(self):
        thread = kernel.current_thread()
        task = thread.task
        if task is not None and not task.seceded:
            task.seceded = True
            thread.worker.active -= 1
            self._advance()

    def rejoin(self):
        thread = kernel.current_thread()
        task = thread.task
        if task is not None and task.seceded:
            worker = thread.worker
            self.sim.block(lambda: worker.active < self.nthreads,
                           what='rejoin')
            task.seceded = False
            worker.active += 1

    # ---- graphs
    def submit_graph(self, dsk, keys, workers=None):
        """Submit a dask graph; returns {key: future} for the given keys."""
        dsk = dict(dsk)
        futures = {}
        for key in topological(dsk, keys):
            value = dsk[key]
            if isinstance(value, SimFuture):
                futures[key] = value
                continue
            deps = task_deps(value, dsk)
            extra = collect_futures(value)
            futures[key] = self.submit(
                dask.utils.key_split(key),
                GraphTask(value, deps, [f.key for f in extra]),
                [futures[d] for d in deps] + extra, workers)
        return {key: futures[key] for key in keys}


def task_deps(value, dsk):
    """Keys a task refers to, in order of appearance (dask's own helper
    returns a set, whose order depends on random key names)."""
    out = []
    stack = [value]
    while stack:
        item = stack.pop()
        kind = type(item)
        if kind is tuple and item and callable(item[0]):
            stack.extend(reversed(item[1:]))
        elif kind is list:
            stack.extend(reversed(item))
        elif kind is dict:
            stack.extend(reversed(list(item.values())))
        else:
            try:
                if item in dsk and item not in out:
                    out.append(item)
            except TypeError:
                pass
    return out


def topological(dsk, keys):
    """Keys needed for the outputs, dependencies first, in graph order."""
    done = {}
    for root in keys:
        stack = [(root, None)]
        while stack:
            key, deps = stack.pop()
            if key in done:
                continue
            if deps is None:
                deps = [d for d in task_deps(dsk[key], dsk) if d not in done]
                stack.append((key, deps))
                stack.extend((d, None) for d in reversed(deps))
            else:
                done[key] = None
    return list(done)


class GraphTask:

    def __init__(self, value, deps, extra):
        self.value = value
        self.deps = deps
        self.extra = extra

    def __call__(self, *results):
        cache = dict(zip(self.deps, results))
        known = dict(zip(self.extra, results[len(self.deps):]))
        return execute(self.value, cache, known)


def execute(arg, cache, known):
    """Evaluate a dask task (as dask.core does), futures resolved."""
    if isinstance(arg, SimFuture):
        return known[arg.key]
    if isinstance(arg, list):
        return [execute(a, cache, known) for a in arg]
    if isinstance(arg, dict):
        return {k: execute(v, cache, known) for k, v in arg.items()}
    if dask.core.istask(arg):
        func, args = arg[0], arg[1:]
        return func(*(execute(a, cache, known) for a in args))
    if not dask.core.ishashable(arg):
        return arg
    try:
        if arg in cache:
            return cache[arg]
    except TypeError:
        return arg
    if isinstance(arg, tuple) and any(isinstance(a, SimFuture) for a in arg):
        return tuple(execute(a, cache, known) for a in arg)
    return arg


def collect_futures(obj, out=None):
    """Futures nested in lists, tuples, dicts and sets."""
    out = [] if out is None else out
    if isinstance(obj, SimFuture):
        if obj not in out:
            out.append(obj)
    elif isinstance(obj, (list, tuple, set, frozenset)):
        for item in obj:
            collect_futures(item, out)
    elif isinstance(obj, dict):
        for item in obj.values():
            collect_futures(item, out)
    return out


def substitute(obj, known):
    if isinstance(obj, SimFuture):
        return known[obj.key]
    if type(obj) in (list, tuple, set, frozenset):
        return type(obj)(substitute(item, known) for item in obj)
    if type(obj) is dict:
        return {k: substitute(v, known) for k, v in obj.items()}
    return obj


class CallTask:

    def __init__(self, func, args, kwargs, keys):
        self.func = func
        self.args = args
        self.kwargs = kwargs
        self.keys = keys

    def __call__(self, *results):
        known = dict(zip(self.keys, results))
        args = substitute(self.args, known)
        kwargs = substitute(self.kwargs, known)
        return self.func(*args, **kwargs)


class SimClient:
    """The part of distributed.Client the code base may use."""
    asynchronous = False
    status = 'running'

    def __init__(self, cluster=None, in_worker=False):
        self.cluster = cluster
        self.in_worker = in_worker

    # -- information
    def ncores(self, workers=None, **kwargs):
        return {w.address: self.cluster.nthreads for w in self.cluster.workers}

    nthreads = ncores

    def scheduler_info(self, **kwargs):
        return {'workers': {w.address: {'nthreads': self.cluster.nthreads}
                            for w in self.cluster.workers}}

    def has_what(self, **kwargs):
        return {w.address: () for w in self.cluster.workers}

    @property
    def scheduler(self):
        return self

    # -- submission
    def submit(self, func, *args, key=None, workers=None, retries=None,
               resources=None, priority=0, fifo_timeout='100 ms',
               allow_other_workers=False, actor=False, actors=False,
               pure=None, **kwargs):
        futures = collect_futures((args, kwargs))
        name = key if isinstance(key, str) else funcname(func)
        return self.cluster.submit(
            name, CallTask(func, args, kwargs, [f.key for f in futures]),
            futures, workers)

    def map(self, func, *iterables, key=None, workers=None, retries=None,
            resources=None, priority=0, allow_other_workers=False,
            fifo_timeout='100 ms', actor=False, actors=False, pure=None,
            batch_size=None, **kwargs):
        rows = list(zip(*iterables))
        return [
            self.submit(func, *row,
                        key=(key[i] if isinstance(key, list) else key),
                        workers=workers, **kwargs)
            for i, row in enumerate(rows)
        ]

    def compute(self, collections, sync=False, optimize_graph=True,
                workers=None, **kwargs):
        single = not isinstance(collections, (list, tuple, set, frozenset))
        items = [collections] if single else list(collections)
        out = []
        for item in items:
            if dask.is_dask_collection(item):
                out.append(self._compute_one(item, optimize_graph, workers))
            else:
                out.append(item)
        if sync:
            out = self.gather(out)
        return out[0] if single else out

    def _compute_one(self, item, optimize_graph, workers):
        dsk = dask.base.collections_to_dsk([item], optimize_graph)
        keys = item.__dask_keys__()
        flat = list(dask.core.flatten([keys]))
        futures = self.cluster.submit_graph(dsk, flat, workers)
        func, extra = item.__dask_postcompute__()
        if func is dask.base.single_key if hasattr(dask.base, 'single_key') \
                else func.__name__ == 'single_key':
            return futures[flat[0]]
        ordered = [futures[k] for k in flat]
        return self.cluster.submit(
            'finalize', Finalize(func, extra, keys, flat), ordered, workers)

    def persist(self, collections, optimize_graph=True, workers=None,
                **kwargs):
        single = not isinstance(collections, (list, tuple, set, frozenset))
        items = [collections] if single else list(collections)
        out = []
        for item in items:
            dsk = dask.base.collections_to_dsk([item], optimize_graph)
            keys = list(dask.core.flatten([item.__dask_keys__()]))
            futures = self.cluster.submit_graph(dsk, keys, workers)
            func, extra = item.__dask_postpersist__()
            out.append(func(futures, *extra))
        return out[0] if single else out

    def get(self, dsk, keys, workers=None, sync=True, **kwargs):
        thread = kernel.current_thread()
        if thread is None or thread.task is not None:
            # inside a task: evaluated in place
            dsk = dict(dsk)
            futures = collect_futures(list(dsk.values()))
            if futures:
                known = {f.key: f.result() for f in futures}
                dsk = {k: substitute(v, known) for k, v in dsk.items()}
            return dask.local.get_sync(dsk, keys)
        flat = list(dask.core.flatten([keys]))
        futures = self.cluster.submit_graph(dsk, flat, workers)
        self._wait_all(list(futures.values()))
        results = {k: f.result() for k, f in futures.items()}
        if isinstance(keys, list):
            return _pack(keys, results)
        return results[keys]

    def scatter(self, data, **kwargs):

        def put(value):
            future = self.cluster.new_future('scatter')
            future._result = self.cluster.transfer(value)
            future.status = 'finished'
            return future

        self.cluster.sim.point('scatter')
        if isinstance(data, dict):
            return {k: put(v) for k, v in data.items()}
        if isinstance(data, (list, tuple, set, frozenset)):
            return type(data)(put(v) for v in data)
        return put(data)

    # -- results
    def _wait_all(self, futures):
        """As distributed's gather: until all are done or one has failed."""
        sim = self.cluster.sim
        sim.point('gather')

        def over():
            bad = False
            for f in futures:
                if f.status in ('error', 'cancelled'):
                    bad = True
            return bad or all(f.done() for f in futures)

        if not over():
            sim.block(over, what='gather')

    def gather(self, futures, errors='raise', direct=None,
               asynchronous=None):
        if not isinstance(futures, (SimFuture, list, tuple, set, dict,
                                    frozenset)):
            futures = list(futures)
        flat = collect_futures(futures)
        if errors == 'raise':
            self._wait_all(flat)
            for f in flat:
                if f.status in ('error', 'cancelled'):
                    f.result()
        else:
            wait(flat)
            flat = [f for f in flat if f.status == 'finished']
        known = {f.key: f.result() for f in flat}
        return substitute(futures, known)

    def cancel(self, futures, **kwargs):
        self.cluster.cancel(collect_futures(futures))

    def run(self, function, *args, **kwargs):
        return {w.address: function(*args) for w in self.cluster.workers}

    def close(self, *args, **kwargs):
        pass

    def restart(self, *args, **kwargs):
        pass

    def as_current(self):
        return contextlib.nullcontext(self)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def __reduce__(self):
        raise TypeError('a client cannot be serialised')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise kernel.HarnessError(f'the stub client has no {name!r}')


class Finalize:

    def __init__(self, func, extra, keys, flat):
        self.func, self.extra, self.keys, self.flat = func, extra, keys, flat

    def __call__(self, *results):
        values = dict(zip(self.flat, results))
        return self.func(_pack(self.keys, values), *self.extra)


def _pack(keys, values):
    if isinstance(keys, list):
        return [_pack(k, values) for k in keys]
    return values[keys]


# ---- module level functions of distributed

def get_client(*args, **kwargs):
    thread = kernel.current_thread()
    if thread is None:
        raise ValueError('No global client found')
    if thread.worker is not None:
        return SimClient(thread.worker.cluster, in_worker=True)
    if thread.client is None:
        raise ValueError('No global client found')
    return thread.client


def default_client(*args, **kwargs):
    return get_client()


def get_worker():
    thread = kernel.current_thread()
    if thread is None or thread.worker is None:
        raise ValueError('No worker found')
    return thread.worker


@contextlib.contextmanager
def worker_client(timeout=None, separate_thread=True):
    thread = kernel.current_thread()
    cluster = get_worker().cluster
    if separate_thread:
        cluster.secede()
    yield SimClient(cluster, in_worker=True)
    if separate_thread and not thread.is_dead():
        cluster.rejoin()


def secede():
    get_worker().cluster.secede()


def rejoin():
    get_worker().cluster.rejoin()


def futures_of(obj, client=None):
    out = []

    def visit(item):
        if isinstance(item, SimFuture):
            if item not in out:
                out.append(item)
        elif isinstance(item, (list, tuple, set, frozenset)):
            for sub in item:
                visit(sub)
        elif isinstance(item, dict):
            for sub in item.values():
                visit(sub)
        elif dask.is_dask_collection(item):
            for sub in dict(item.__dask_graph__()).values():
                visit(sub)

    visit(obj)
    return out


class DoneAndNotDone(tuple):

    @property
    def done(self):
        return self[0]

    @property
    def not_done(self):
        return self[1]


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    futures = futures_of(list(fs) if not isinstance(
        fs, (list, tuple, set, dict)) and hasattr(fs, '__iter__') and
                         not dask.is_dask_collection(fs) else fs)
    if futures:
        sim = futures[0].cluster.sim
        sim.point('wait')
        if return_when == 'FIRST_COMPLETED':
            pred = lambda: any(f.done() for f in futures)  # noqa: E731
        else:
            pred = lambda: all(f.done() for f in futures)  # noqa: E731
        if not pred():
            sim.block(pred, timeout, what='wait')
    return DoneAndNotDone(({f for f in futures if f.done()},
                           {f for f in futures if not f.done()}))


class as_completed:

    def __init__(self, futures=None, loop=None, with_results=False,
                 raise_errors=True, timeout=None):
        self.queue = []
        self.with_results = with_results
        self.left = 0
        self.sim = None
        for future in futures or ():
            self.add(future)

    def add(self, future):
        self.left += 1
        self.sim = future.cluster.sim
        future.add_done_callback(self.queue.append)

    def update(self, futures):
        for f in futures:
            self.add(f)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.left:
            raise StopIteration
        if not self.queue:
            self.sim.block(lambda: bool(self.queue), what='as_completed')
        self.left -= 1
        future = self.queue.pop(0)
        if self.with_results:
            return future, future.result()
        return future


class _FakeClientClass(SimClient):
    """dask.distributed.Client(...)"""

    def __init__(self, *args, **kwargs):
        client = get_client()
        super().__init__(client.cluster, client.in_worker)

    @classmethod
    def current(cls, allow_global=True):
        return get_client()


def install():
    import dask.distributed
    import distributed
    import distributed.client
    import distributed.worker
    patches = dict(get_client=get_client, default_client=default_client,
                   get_worker=get_worker, worker_client=worker_client,
                   secede=secede, rejoin=rejoin, futures_of=futures_of,
                   wait=wait, as_completed=as_completed, Future=SimFuture,
                   Client=_FakeClientClass)
    modules = [dask.distributed, distributed, distributed.client,
               distributed.worker]
    try:
        import distributed.worker_client
        modules.append(distributed.worker_client)
    except ImportError:
        pass
    for module in modules:
        for name, value in patches.items():
            if hasattr(module, name):
                setattr(module, name, value)
    # dask.base keeps its own references
    for name, value in (('_DistributedClient', _FakeClientClass),
                        ('_get_distributed_client', get_client)):
        if hasattr(dask.base, name):
            setattr(dask.base, name, value)
