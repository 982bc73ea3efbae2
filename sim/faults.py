"""Explicit, replayable fault plans.

A fault is a JSON object:

* ``at``    -- index, among the matching operations issued while the plan is
               armed, of the first operation hit;
* ``n``     -- number of consecutive matching operations hit (-1: all);
* ``ops``   -- operation classes that match (default: every mutation);
* ``kind``  -- ``eio``, ``enospc``, ``eacces``, ``estale`` (an OSError),
               ``torn`` (part of the data is written, then ENOSPC),
               ``crash`` (the whole process group is killed, possibly in the
               middle of the write), ``kill`` (the worker running the task is
               killed);
* ``frac``  -- for torn writes, fraction of the data that reaches the disk;
* ``path``  -- optional substring of the path;
* ``after`` -- optional index of a fault of the plan that must have struck.
"""
from __future__ import annotations

import errno
import os

MUTATIONS = ('create', 'write', 'mkdir', 'rename', 'unlink', 'rmdir', 'put',
             'copy', 'delete', 'truncate')
CREATING = ('create', 'write', 'mkdir', 'rename', 'put', 'copy', 'truncate')
READING = ('open', 'read', 'list', 'head')
REMOVING = ('unlink', 'rmdir', 'delete')

ERRNO = {
    'eio': errno.EIO,
    'enospc': errno.ENOSPC,
    'eacces': errno.EACCES,
    'estale': errno.ESTALE,
    'torn': errno.ENOSPC,
}


class FaultPlan:

    def __init__(self, specs=()):
        self.specs = [dict(item, seen=0, left=item.get('n', 1), fired=0)
                      for item in specs]
        self.armed = False
        self.fired = 0
        self.seen = 0
        self.where = None

    def arm(self):
        self.armed = True

    def disarm(self):
        self.armed = False

    def poll(self, sim, op, path, thread):
        """Returns the fault to apply to this operation, if any."""
        if not self.armed or thread is None:
            return None
        if op in MUTATIONS:
            self.seen += 1
        for spec in self.specs:
            ops = spec.get('ops')
            if op not in (ops or MUTATIONS):
                continue
            if 'path' in spec and spec['path'] not in path:
                continue
            first = self.specs[:spec.get('after', -1) + 1][-1:]
            if first and not first[0]['fired'] and first[0] is not spec:
                continue  # counts from the time the other one has struck
            if spec.get('group') and thread.proc.group != spec['group']:
                continue
            kind = spec['kind']
            if kind == 'kill' and thread.worker is None:
                continue
            index = spec['seen']
            spec['seen'] += 1
            if index < spec['at'] or spec['left'] == 0:
                continue
            spec['left'] -= 1
            spec['fired'] += 1
            self.fired += 1
            sim.injected[kind if kind in ('crash', 'kill') else
                         f'{kind}:{op}'] += 1
            sim.fault_log.append((sim.steps, thread.name, kind, op, path))
            self.where = self.where or (kind, op, path)
            return spec
        return None


def os_error(kind, path):
    code = ERRNO[kind]
    return OSError(code, os.strerror(code), path)
