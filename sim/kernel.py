"""Deterministic simulation kernel.

Real Python threads carry the code under test, but exactly one of them runs at
any moment (a baton is handed over explicitly).  Every seam calls
``Sim.point``: there the scheduler decides, from a seeded stream or from a
replay record, whether another thread continues and whether a fault is
injected.  All decisions different from the default are recorded, so a run is
reproduced either from its seed or from the sparse record.
"""
from __future__ import annotations

import _thread
import collections
import hashlib
import random
import sys
import threading
import time as _time

_real_sleep = _time.sleep
_real_monotonic = _time.monotonic

CURRENT: 'Sim | None' = None
_TLS = threading.local()


class SimCrash(BaseException):
    """The simulated process of this thread is dead."""


class SimStop(BaseException):
    """The run is over (the driver ends the remaining threads)."""


class Deadlock(Exception):
    """No simulated thread can make progress."""


class StepLimit(Exception):
    """The run exceeded its step budget."""


class HarnessError(Exception):
    """The simulator itself misbehaved, or was asked something it does not
    model: no verdict is drawn from such a run, even if the code under test
    swallows the exception."""

    def __init__(self, *args):
        super().__init__(*args)
        if CURRENT is not None:
            CURRENT.harness = str(self)


class Proc:
    """A simulated OS process."""
    __slots__ = ('pid', 'name', 'dead', 'dircache', 'group', 'locks', 'parent')

    def __init__(self, pid, name, group=None, parent=None):
        self.pid = pid
        self.name = name
        self.dead = False
        self.dircache = {}
        self.group = group if group is not None else name
        self.parent = parent


class SimThread:
    __slots__ = ('tid', 'name', 'proc', 'gate', 'state', 'pred', 'wake',
                 'result', 'error', 'weight', 'real', 'task', 'worker', 'nops',
                 'dead', 'client')

    def __init__(self, tid, name, proc):
        self.tid = tid
        self.name = name
        self.proc = proc
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.state = 'ready'
        self.pred = None
        self.wake = None
        self.result = None
        self.error = None
        self.weight = 1.0
        self.task = None
        self.worker = None
        self.nops = 0
        self.dead = False
        self.client = None

    def is_dead(self):
        return self.dead or self.proc.dead


def current_thread() -> SimThread | None:
    return getattr(_TLS, 'thread', None)


class Decisions:
    """Source of every choice: seeded stream, or replay of a record."""

    def __init__(self, seed, replay=None, p_switch=0.1):
        self.rng = random.Random(f'sched-{seed}')
        self.replay = None if replay is None else {
            int(k): v
            for k, v in replay.items()
        }
        self.count = 0
        self.record = {}
        self.p_switch = p_switch

    def choose(self, n, weights=None, default=0, p=None):
        """Choose in range(n)."""
        idx = self.count
        self.count += 1
        if n <= 1:
            return 0
        if self.replay is not None:
            value = self.replay.get(idx, default)
            if value >= n:
                value = default
        else:
            if p is not None and self.rng.random() >= p:
                value = default
            elif weights is None:
                value = self.rng.randrange(n)
            else:
                value = self.rng.choices(range(n), weights)[0]
        if value != default:
            self.record[idx] = value
        return value


class Sim:
    """One simulated execution."""

    def __init__(self, seed, *, replay=None, policy=None, max_steps=400_000):
        self.seed = seed
        policy = policy or {}
        self.policy = policy
        self.dec = Decisions(seed, replay, policy.get('p', 0.1))
        self.p_switch = policy.get('p', 0.1)
        self.slow = policy.get('slow', 0.0)
        self.lat = policy.get('lat', 0.0) + 1e-5  # of a system call
        self.misc = random.Random(f'misc-{seed}')
        self.wrng = random.Random(f'weights-{seed}')
        self.uuid_rng = random.Random(f'uuid-{seed}')
        self.threads: list[SimThread] = []
        self.procs: list[Proc] = []
        self.steps = 0
        self.max_steps = max_steps
        self.clock = policy.get('clock', 1_700_000_000.0)
        self.clock_start = self.clock
        self.skew = 0.0
        self.mono = 1000.0
        self.hash = hashlib.sha256()
        self.trace_tail = collections.deque(maxlen=400)
        self.trace_full = None
        self.switches = 0
        self.faults = None  # FaultPlan
        self.injected = collections.Counter()
        self.fault_log = []
        self.harness = None
        self.listeners = []  # callables(op, path, thread) on mutations
        self.stopping = False
        self.next_tid = 0
        self.next_pid = 100
        self.fatal = None
        self.driver_gate = _thread.allocate_lock()
        self.driver_gate.acquire()
        self.ilv = hashlib.sha256()  # interleaving signature
        self.op_counts = collections.Counter()
        self.locks = {}  # (dev, ino) -> (pid, set of files)
        self.atomic_depth = 0
        self.clusters = []

    # ---- processes and threads
    def new_proc(self, name, group=None, parent=None) -> Proc:
        proc = Proc(self.next_pid, name, group, parent)
        self.next_pid += 1
        self.procs.append(proc)
        return proc

    def spawn(self, fn, name, proc, *, task=None, worker=None, client=None):
        thread = SimThread(self.next_tid, name, proc)
        self.next_tid += 1
        thread.task = task
        thread.worker = worker
        thread.client = client
        if self.slow and self.wrng.random() < self.slow:
            thread.weight = 0.02
        self.threads.append(thread)

        def body():
            _TLS.thread = thread
            thread.gate.acquire()
            try:
                if self.stopping:
                    raise SimStop()
                if thread.is_dead():
                    raise SimCrash()
                thread.result = fn()
            except BaseException as exc:  # noqa: B902
                thread.error = exc
            finally:
                thread.state = 'done'
                try:
                    self._finish(thread)
                except BaseException as exc:  # pragma: no cover
                    self.fatal = exc
                    self._wake_driver()

        _thread.start_new_thread(body, ())
        return thread

    def _wake_driver(self):
        try:
            self.driver_gate.release()
        except RuntimeError:
            pass

    # ---- scheduling core
    def _runnable(self):
        out = []
        for t in self.threads:
            st = t.state
            if st == 'ready':
                out.append(t)
            elif st == 'blocked':
                if t.is_dead() or self.stopping:
                    out.append(t)
                elif t.pred is not None and t.pred():
                    out.append(t)
                elif t.wake is not None and t.wake <= self.mono:
                    out.append(t)
        return out

    def _select(self, current, force=False):
        """The next thread to run (may be current)."""
        while True:
            runnable = self._runnable()
            if runnable:
                break
            wakes = [t.wake for t in self.threads
                     if t.state == 'blocked' and t.wake is not None]
            if not wakes:
                return None
            self.advance(min(wakes) - self.mono)
        if len(runnable) == 1:
            return runnable[0]
        if current in runnable and not force:
            default = runnable.index(current)
            idx = self.dec.choose(len(runnable),
                                  [t.weight for t in runnable],
                                  default=default, p=self.p_switch)
        else:
            idx = self.dec.choose(len(runnable),
                                  [t.weight for t in runnable])
        return runnable[idx]

    def advance(self, dt):
        if dt > 0:
            self.mono += dt
            self.clock += dt

    def _handoff(self, current, nxt):
        """Give the baton to nxt and wait for it to come back."""
        if nxt is current:
            current.state = 'ready'
            return
        self.switches += 1
        self.ilv.update(b'%d>' % nxt.tid)
        nxt.gate.release()
        current.gate.acquire()

    def _resume_checks(self, thread):
        thread.state = 'ready'
        thread.pred = None
        thread.wake = None
        if self.stopping:
            raise SimStop()
        if thread.is_dead():
            raise SimCrash()

    def point(self, kind, detail='', force=False):
        """Scheduling point of the running thread."""
        thread = current_thread()
        if thread is None or self.atomic_depth:
            return
        if self.stopping:
            raise SimStop()
        if thread.is_dead():
            raise SimCrash()
        self.steps += 1
        thread.nops += 1
        self.advance(self.lat)
        self._note(thread, kind, detail)
        if self.steps > self.max_steps:
            self._fatal(StepLimit(f'{self.steps} steps'))
        nxt = self._select(thread, force)
        if nxt is not thread:
            self._handoff(thread, nxt)
            self._resume_checks(thread)

    def _note(self, thread, kind, detail):
        line = f'{thread.tid}:{kind}:{detail}'
        self.hash.update(line.encode('utf-8', 'replace'))
        self.trace_tail.append(line)
        if self.trace_full is not None:
            self.trace_full.append(f'{self.steps} {thread.name} {kind} {detail}')

    def note(self, kind, detail=''):
        thread = current_thread()
        if thread is not None:
            self._note(thread, kind, detail)

    def _fatal(self, exc):
        self.fatal = self.fatal or exc
        self.stopping = True
        raise SimStop()

    def block(self, pred=None, timeout=None, what=''):
        """Park the running thread until pred() holds or the timeout expires."""
        thread = current_thread()
        if thread is None:
            raise HarnessError('block outside a simulated thread')
        if self.stopping:
            raise SimStop()
        if thread.is_dead():
            raise SimCrash()
        self.steps += 1
        self.advance(1e-5)
        self._note(thread, 'block', what)
        if self.steps > self.max_steps:
            self._fatal(StepLimit(f'{self.steps} steps'))
        thread.state = 'blocked'
        thread.pred = pred
        thread.wake = None if timeout is None else self.mono + timeout
        nxt = self._select(thread, force=True)
        if nxt is None:
            self._fatal(Deadlock(self.describe_threads()))
        if nxt is not thread:
            self._handoff(thread, nxt)
        self._resume_checks(thread)

    def describe_threads(self):
        return '; '.join(f'{t.name}[{t.state}]' for t in self.threads
                         if t.state != 'done')

    def sleep(self, dt):
        self.block(None, max(dt, 1e-6), what=f'sleep {dt:.3f}')

    def _finish(self, thread):
        """The thread ended: pass the baton on."""
        if thread.task is not None:
            thread.task.thread_ended(thread)
        self.threads.remove(thread)
        nxt = self._select(thread, force=True) if self.threads else None
        if nxt is None:
            if self.threads and self.fatal is None:
                self.fatal = Deadlock(self.describe_threads())
                self.stopping = True
                nxt = self._select(thread, force=True)
                if nxt is not None:
                    nxt.gate.release()
                    return
            self._wake_driver()
            return
        self.switches += 1
        nxt.gate.release()

    # ---- driving
    def run(self, main, wall_limit=120.0):
        """Run main() as the first thread of a fresh 'driver' process; returns
        when every simulated thread has ended."""
        global CURRENT
        CURRENT = self
        proc = self.new_proc('driver')
        outcome = {}

        def body():
            try:
                outcome['result'] = main()
            except SimStop:
                pass
            except BaseException as exc:  # noqa: B902
                outcome['error'] = exc
            finally:
                self.stopping = True

        thread = self.spawn(body, 'driver', proc)
        thread.weight = 1.0
        thread.gate.release()
        if not self.driver_gate.acquire(timeout=wall_limit):
            frames = sys._current_frames()
            import traceback
            text = [f'wall limit; threads: {self.describe_threads()}']
            for ident, frame in frames.items():
                text.append(f'--- {ident}\n' + ''.join(
                    traceback.format_stack(frame)[-8:]))
            raise HarnessError('\n'.join(text))
        CURRENT = None
        if self.fatal is not None:
            raise self.fatal
        if 'error' in outcome:
            raise outcome['error']
        return outcome.get('result')

    # ---- conveniences for scenarios (called from the driver thread)
    def join(self, *threads):
        self.block(lambda: all(t.state == 'done' for t in threads),
                   what='join')

    def call(self, proc, fn, name='call', client=None):
        """Run fn in a thread of proc and wait for it; returns (value, error)."""
        thread = self.spawn(fn, name, proc, client=client)
        self.join(thread)
        return thread.result, thread.error

    def kill(self, group):
        """Kill every process of a group."""
        for proc in self.procs:
            if proc.group == group and not proc.dead:
                proc.dead = True
                for key in [k for k, v in self.locks.items()
                            if v == proc.pid]:
                    del self.locks[key]

    def uuid(self):
        import uuid
        return uuid.UUID(int=self.uuid_rng.getrandbits(128), version=4)

    def token(self):
        """A fresh name for a dask key."""
        self.tokens = getattr(self, 'tokens', 0) + 1
        return f'{self.tokens:032x}'

    def time(self):
        return self.clock + self.skew
