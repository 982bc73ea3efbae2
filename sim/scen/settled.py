"""C14: nothing is left running, and the lock is free, after a modifying
call."""
from __future__ import annotations

import time

import zcollection
from zcollection.view import ViewReference

from . import views
from .base import *
from .faulty import gen_setup

KINDS = ('insert', 'update', 'drop', 'addvar', 'dropvar', 'validate', 'copy',
         'vcreate', 'vadd', 'vdrop', 'vupdate', 'vsync')


class Settled(Scenario):
    id = 'C14'

    def gen(self, rng):
        spec = gen.config(rng)
        spec['sync'] = rng.choice(['proc', 'proc', 'none'])
        spec['cluster'] = {'nworkers': rng.choice([1, 2, 3, 4]),
                           'nthreads': rng.choice([1, 1, 2, 3]),
                           'processes': rng.random() < 0.5}
        spec['policy'] = {'p': rng.choice([0.02, 0.1, 0.3, 0.6]),
                          'slow': rng.choice([0.2, 0.4, 0.6]),
                          'dirorder': rng.random() < 0.5,
                          'lat': rng.choice([0.0, 0.0, 0.5, 20.0])}
        maxq = gen.width(rng, [4, 6, 8])
        spec['rows'] = [[q, rng.randrange(4), rng.randint(1, 4), 1]
                        for q in range(maxq) if rng.random() < 0.8] or \
            [[0, 0, 3, 1]]
        kind = spec['kind'] = rng.choices(KINDS, [
            5, 3, 2, 2, 2, 1.5, 2, 1.5, 1.5, 1.5, 3, 2])[0]
        part = spec['part']
        fail = rng.choice([None, 0, model.Layout(part).time(
            rng.randrange(maxq), 0)])
        op = {'op': kind}
        if kind == 'insert':
            op = gen.insert(rng, 2, 6, maxq)
        elif kind == 'update':
            op = gen.update(rng, spec, maxq, depth=rng.choice([0, 0, 1]))
            op['fail'] = fail
            # the function fails in the tasks, not when it is tried
            op['explicit'] = rng.random() < 0.8
        elif kind == 'drop':
            op['filter'] = gen.flt(rng, part, maxq)
        elif kind in ('addvar', 'dropvar'):
            op['name'] = rng.choice(sorted(model.EXTRA))
        elif kind == 'validate':
            op['fix'] = True
            op['filter'] = gen.flt(rng, part, maxq) \
                if rng.random() < 0.3 else None
            spec['damage'] = [
                {'how': rng.choice(['remove', 'truncate']),
                 'pick': rng.randrange(1000)}
                for _ in range(rng.choice([1, 2, 3]))]
        elif kind == 'copy':
            op['npart'] = rng.choice([None, 1, 3])
        elif kind in ('vadd', 'vdrop'):
            op['name'] = rng.choice(views.vvars(spec))
        elif kind == 'vupdate':
            op = views.gen_vupdate(rng, spec, maxq, ['u1', 'u2'])
            if rng.random() < 0.5:
                op['fail'] = fail
        spec['op'] = op
        if kind.startswith('v') and kind != 'validate':
            spec['immutable'] = False
        if kind == 'vsync':
            spec['change'] = gen.insert(rng, 3, 6, maxq, merge=True)
            spec['change'].pop('omit', None)
        horizon = {'insert': 120, 'copy': 150, 'vsync': 60,
                   'vcreate': 30}.get(kind, 25)
        spec['faults'] = []
        x = rng.random()
        if x < 0.55:
            spec['faults'] = gen.io_faults(rng, horizon)
        elif x < 0.75:
            # the first operations fail while others are still queued
            spec['faults'] = [{
                'at': rng.randrange(6), 'n': rng.choice([1, 2, 4]),
                'kind': rng.choice(['eio', 'enospc']),
                'ops': list(faults.CREATING)}]
        elif x < 0.9:
            spec['faults'] = [{
                'at': rng.randrange(40), 'n': rng.choice([1, 1, 3]),
                'kind': 'eio', 'ops': rng.choice([
                    ['open'], ['read'], ['list'], list(faults.READING)])}]
        # a task whose function never returns normally
        return spec

    def run(self, w):
        spec = w.spec
        user = w.user('A')
        w.create(user)
        op = spec['op']
        kind = spec['kind']
        w.mutate_ok(user, plain_insert(1, spec['rows']))
        vw = None
        if kind == 'dropvar':
            w.mutate_ok(user, {'op': 'addvar', 'name': op['name']})
        if kind in ('vadd', 'vdrop', 'vupdate', 'vsync'):
            vw = views.ViewWorld(w, user)
            vw.create(user, None)
            names = {'vadd': ['u3' if op.get('name') != 'u3' else 'u1'],
                     'vdrop': [op.get('name')],
                     'vupdate': ['u1', 'u2']}.get(kind, ['u1'])
            for name in names:
                extra = {'op': 'vadd', 'name': name}
                vw.must(user, vw.operation(vw.view, extra), 'vadd')
                vw.apply(extra, vw.m)
        if spec.get('change'):
            w.mutate_ok(user, spec['change'])
        for item in spec.get('damage', ()):
            from .readers import damage
            damage(w, item)
        fn = self.call(w, vw, user, kind, op)
        plan = arm(w, spec['faults'])
        _, error = user.call(fn)
        if error is not None:
            genuine(error)
        what = f'failed {kind}' if error is not None else kind
        # the calls of this process and its workers are over
        reads = any(set(item.get('ops', ())) & set(faults.READING)
                    for item in spec['faults']) and plan.fired > 0
        settle(w, user, what, reads)
        before = self.everything(w)
        touched = []

        def listener(op_, path, thread):
            touched.append((thread.name, op_, path))

        w.sim.listeners.append(listener)
        user.call(lambda: time.sleep(100000))
        plan.disarm()
        w.sim.listeners.remove(listener)
        if touched or self.everything(w) != before:
            raise Violation(f'{what}: the storage changes after the call '
                            f'returned: {touched[:3]}', 'late change')
        # another process can proceed
        other = w.user()
        _, failure = other.call(lambda: list(zcollection.open_collection(
            w.base, mode='w', filesystem=w.fs(),
            synchronizer=other.sync()).partitions(lock=True)))
        if failure is not None:
            genuine(failure)
            raise Violation(f'after a {what}, another process cannot list the '
                            f'partitions: {describe(failure)}',
                            'another process blocked') from failure
        settle(w, user, what, reads)
        return {'nontrivial': user.cluster.tasks_started > 0,
                'failed': error is not None,
                f'{kind} failed': error is not None}

    def everything(self, w):
        return [w.snapshot(n) for n in (None, 'v', 'copy')]

    def call(self, w, vw, user, kind, op):
        if kind == 'copy':
            return lambda: user.h.copy(w.path('copy'),
                                       npartitions=op['npart'])
        if kind == 'vcreate':
            return lambda: zcollection.create_view(
                w.path('v'), ViewReference(w.base, w.fs()),
                filesystem=w.fs(), synchronizer=user.sync())
        if vw is not None:
            return vw.operation(vw.view, op)
        return w.mutation(user, op)
