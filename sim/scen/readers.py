"""C13: reading writes nothing, a read-only handle cannot change anything."""
from __future__ import annotations

import io
import os

import zcollection

from . import index as index_mod
from . import views
from .base import *
from .faulty import gen_setup
from .. import objstore, posix
from ..world import extract

#: Reading calls; the last ones need a view, or an index.
READS = ('partitions', 'load', 'map', 'overlap', 'records', 'variables',
         'validate', 'copy', 'locked', 'load', 'map')
VIEW_READS = ('vpartitions', 'vload', 'vmap', 'voverlap', 'vsynced',
              'vvariables', 'vopen')
INDEX_READS = ('iopen', 'iquery', 'iload')
WRITES = ('insert', 'update', 'drop', 'addvar', 'dropvar', 'validate')


def damage(w, op):
    """Destroy something, outside the simulation."""
    files = sorted(k for k, v in w.snapshot().items() if v is not None)
    if not op.get('config'):
        files = [f for f in files if '/' in f]
    if not files:
        return
    name = files[op['pick'] % len(files)]
    if w.object:
        key = f'{w.base}/{name}'
        data, when = objstore.STORE.objects[key]
        if op['how'] == 'remove':
            del objstore.STORE.objects[key]
        else:
            objstore.STORE.objects[key] = (data[:len(data) // 2], when)
        return
    path = f'{w.base}/{name}'
    if op['how'] == 'remove':
        posix._real['unlink'](path)
    elif op['how'] == 'rmdir':
        import shutil
        shutil.rmtree(os.path.dirname(path))
    else:
        with posix._real_open(path, 'rb') as stream:
            data = stream.read()
        with posix._real_open(path, 'wb') as stream:
            stream.write(data[:len(data) // 2])


def failing(func, rng_fail):
    """A mapped function, which may fail."""

    def wrapper(zds, *args, **kwargs):
        if rng_fail:
            raise ArithmeticError('user function failed')
        return func(zds)

    return wrapper


class Readers(Scenario):
    id = 'C13'

    def gen(self, rng):
        spec = gen.config(rng)
        spec['immutable'] = rng.random() < 0.35
        maxq = rng.choice([3, 4, 6])
        setup_ops, ver = gen_setup(rng, maxq, rng.choice([0, 1, 1, 2]))
        spec['setup'] = setup_ops
        spec['view'] = rng.random() < 0.4
        spec['index'] = rng.random() < 0.3
        if spec['view']:
            spec['vfilter'] = (gen.flt(rng, spec['part'], maxq)
                               if rng.random() < 0.3 else None)
            spec['vvars'] = sorted(rng.sample(views.vvars(spec),
                                              rng.choice([1, 2])))
            # the reference moves on: the view is not in step with it
            spec['after'] = [gen.insert(rng, ver + 1 + i, 3, maxq)
                             for i in range(rng.choice([0, 1, 1]))]
            if rng.random() < 0.4:
                # a variable added while partitions are not in the reference
                free = sorted(set(views.vvars(spec)) - set(spec['vvars']))
                spec['after'] = [
                    {'op': 'drop', 'filter': gen.flt(rng, spec['part'],
                                                     maxq)},
                    {'op': 'vadd', 'name': rng.choice(free)},
                    *(o for o in setup_ops if o['op'] == 'insert')]
        spec['damage'] = []
        if rng.random() < 0.35:
            spec['damage'] = [{
                'how': rng.choice(['remove', 'truncate', 'rmdir']),
                'pick': rng.randrange(1000),
                'config': rng.random() < 0.1,
            } for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.2:
            # a writer died in the middle of an insert
            spec['crash'] = [gen.insert(rng, ver + 7, 3, maxq),
                             {'at': rng.randrange(60), 'n': 1,
                              'kind': 'crash', 'group': 'Z',
                              'frac': rng.choice([0.0, 0.5])}]
        calls = []
        for _ in range(rng.randint(2, 6)):
            names = list(READS)
            if spec['view']:
                names += VIEW_READS
            if spec['index']:
                names += INDEX_READS
            mode = rng.choice(['r', 'r', 'w'])
            if mode == 'r' and rng.random() < 0.45:
                kind = rng.choice(WRITES)
                if kind == 'insert':
                    ver += 10
                    op = gen.insert(rng, ver, 3, maxq, merge=None)
                elif kind == 'update':
                    op = gen.update(rng, spec, maxq,
                                    depth=rng.choice([0, 0, 1]))
                elif kind == 'drop':
                    op = {'op': 'drop', 'filter': gen.flt(
                        rng, spec['part'], maxq),
                        'td': rng.choice([None, None, 0, -5])}
                elif kind == 'addvar':
                    op = {'op': 'addvar',
                          'name': rng.choice(sorted(model.EXTRA))}
                elif kind == 'dropvar':
                    op = {'op': 'dropvar', 'name': rng.choice(
                        ['v1', 'v2', 'time', 'nope'])}
                else:
                    op = {'op': 'validate', 'fix': True, 'filter': gen.flt(
                        rng, spec['part'], maxq)}
                call = {'op': 'write', 'mode': mode, 'call': op}
            else:
                call = {
                    'op': rng.choice(names), 'mode': mode,
                    'filter': gen.flt(rng, spec['part'], maxq)
                    if rng.random() < 0.5 else None,
                    'delayed': rng.random() < 0.5,
                    'sel': rng.choice([None, None, ['v1'], ['time', 'v3'],
                                       ['nope'], []]),
                    'depth': rng.choice([0, 1, 2]),
                    'npart': rng.choice([None, None, 1, 3]),
                    'lock': rng.random() < 0.5,
                    'relative': rng.random() < 0.5,
                    'fail': rng.random() < 0.15,
                    'indexer': rng.choice([None, None, [0, 1]]),
                }
            call['who'] = rng.choice(['own', 'new'])
            if rng.random() < 0.3:
                call['faults'] = [{
                    'at': rng.randrange(40), 'n': rng.choice([1, 1, 4, -1]),
                    'ops': list(faults.READING),
                    'kind': rng.choice(['eio', 'eacces', 'estale'])}]
            elif rng.random() < 0.1:
                # whatever it writes fails
                call['faults'] = [{'at': 0, 'n': -1, 'kind': 'enospc',
                                   'ops': list(faults.CREATING)}]
            calls.append(call)
        spec['calls'] = calls
        return spec

    def run(self, w):
        spec = w.spec
        user = w.user('A')
        w.create(user)
        for op in spec['setup']:
            if op['op'] == 'addvar' and op['name'] in w.model.vars:
                continue
            w.mutate_ok(user, op)
        self.index = None
        self.view = None
        self.vbase = w.path('v')
        self.ipath = w.path('index.parquet')
        if spec['view']:
            vw = views.ViewWorld(w, user)
            vw.create(user, spec['vfilter'])
            self.view = vw.view
            for name in spec['vvars']:
                vw.must(user, vw.operation(vw.view, {'op': 'vadd',
                                                     'name': name}), 'vadd')
            for op in spec['after']:
                if op['op'] == 'vadd':
                    vw.must(user, vw.operation(vw.view, op), 'vadd')
                else:
                    w.mutate_ok(user, op)
        if spec['index'] and w.model.parts:

            def fn():
                out = index_mod.ClassIndexer.create(self.ipath, user.h,
                                                    filesystem=w.fs())
                out.update(user.h, nclass=3)
                return out

            self.index = w.must(user, fn, 'Indexer.update')
            if not w.must(user, lambda: w.fs().exists(self.ipath), 'exists'):
                self.index = None
        if spec.get('crash'):
            op, fault = spec['crash']
            other = w.user('Z')
            other.h = w.open(other)
            plan = arm(w, [fault])
            _, error = w.mutate(other, op)
            plan.disarm()
            if error is not None and not is_crash(error):
                genuine(error)
                raise Violation(f'insert failed: {describe(error)}') \
                    from error
            w.sim.kill('Z')
        for op in spec['damage']:
            damage(w, op)
        damaged = bool(spec['damage'] or spec.get('crash'))
        facts = {'refused': 0, 'reads': 0, 'failed': 0, 'damaged': damaged}
        handles = {('A', 'w'): user.h}
        for i, call in enumerate(spec['calls']):
            if call['op'] in VIEW_READS and self.view is None or \
                    call['op'] in INDEX_READS and self.index is None:
                continue
            who = user
            h = None
            if call['who'] == 'new':
                who = w.user()
            key = (who.name, call['mode'])
            opening = key not in handles
            self.guarded(w, who, call, facts, handles, key, i, damaged)
        facts['nontrivial'] = facts['refused'] + facts['reads'] > 0
        return facts

    def protected(self, w, path):
        if w.root and path.startswith(w.root + '/'):
            path = path[len(w.root) + 1:]
        for base in (w.base, self.vbase, self.ipath):
            if not w.object:
                base = base[len(w.root) + 1:]
            if path == base or path.startswith(base + '/') or \
                    path.startswith(base + '.'):
                return True
        return False

    def guarded(self, w, user, call, facts, handles, key, i, damaged):
        """Open a handle if needed, and make the call: the storage must not
        change at any point."""
        touched = []

        def listener(op, path, thread):
            if any(self.protected(w, p) for p in path.split(' -> ')):
                touched.append((op, path))

        def attempted(op, path):
            return op in faults.MUTATIONS and any(
                self.protected(w, p) for p in path.split(' -> '))

        before = (w.snapshot(), w.snapshot('v'), self.raw_index(w))
        what = call['op'] if call['op'] != 'write' else \
            f'{call["call"]["op"]} through a read-only handle'
        w.sim.listeners.append(listener)
        log = len(w.sim.fault_log)
        plan = arm(w, call.get('faults') or ())
        error = None
        if key not in handles:
            h, error = user.call(lambda: zcollection.open_collection(
                w.base, mode=call['mode'], filesystem=w.fs(),
                synchronizer=user.sync()))
            if error is None:
                handles[key] = h
        stage = 'open_collection'
        if error is None:
            stage = what
            h = handles[key]
            fn = (w.mutation(user, call['call'], h) if call['op'] == 'write'
                  else self.reading(w, user, h, call, i))
            _, error = user.call(fn)
            if call['op'] == 'write':
                facts['refused'] += 1
                if error is None:
                    raise Violation(f'{what} is not refused',
                                    'modifying call not refused')
            else:
                facts['reads'] += 1
        plan.disarm()
        w.sim.listeners.remove(listener)
        refused = [item for item in w.sim.fault_log[log:]
                   if attempted(item[3], item[4])]
        if touched or refused:
            raise Violation(f'{stage} modified the storage: '
                            f'{(touched or refused)[:3]}',
                            f'{stage} modified the storage')
        after = (w.snapshot(), w.snapshot('v'), self.raw_index(w))
        for a, b in zip(before, after):
            if a != b:
                raise Violation(f'{stage} changed the stored data',
                                f'{stage} changed the stored data')
        if error is not None:
            genuine(error)
            if isinstance(error, Violation):
                raise error
            facts['failed'] += 1
            odd = (damaged or plan.fired or call.get('fail') or
                   call.get('sel') in (['nope'], []) or call['op'] == 'write')
            if not odd and stage == 'open_collection':
                raise Violation(f'{stage} failed: {describe(error)}',
                                f'{stage} failed') from error

    def raw_index(self, w):
        if w.object:
            return objstore.STORE.objects.get(self.ipath)
        try:
            with posix._real_open(self.ipath, 'rb') as stream:
                return stream.read()
        except OSError:
            return None

    def reading(self, w, user, h, call, i):
        flt = make_filter(w, call['filter'])
        kind = call['op']
        sel = call['sel']
        work = failing(extract, call['fail'])

        def bag(value):
            return value.compute() if value is not None else None

        def loaded(zds):
            return None if zds is None else extract(zds)

        def indexer():
            if call['indexer'] is None:
                return None
            return [(w.layout.key(q), slice(0, 2)) for q in call['indexer']]

        def vsel(view):
            return None if sel is None else [
                n for n in view.metadata.variables] + sel[:1]

        table = {
            'partitions': lambda: list(h.partitions(
                filters=flt, lock=call['lock'], relative=call['relative'])),
            'load': lambda: loaded(h.load(
                filters=flt, delayed=call['delayed'], selected_variables=sel,
                indexer=indexer())),
            'map': lambda: bag(h.map(
                work, filters=flt, delayed=call['delayed'],
                npartitions=call['npart'], selected_variables=sel)),
            'overlap': lambda: bag(h.map_overlap(
                work, depth=call['depth'], filters=flt,
                delayed=call['delayed'], npartitions=call['npart'],
                selected_variables=sel)),
            'records': lambda: [list(x) if isinstance(x, tuple) else x
                                for x in h.iterate_on_records(
                                    relative=call['relative'])],
            'variables': lambda: (h.variables(sel), str(h), h.metadata,
                                  h.axis, h.is_readonly()),
            'validate': lambda: list(h.validate_partitions(filters=flt)),
            'copy': lambda: h.copy(w.path(f'x/copy{i}'), filters=flt,
                                   npartitions=call['npart']) and None,
            'locked': lambda: h.is_locked(),
            'vpartitions': lambda: list(self.view.partitions(filters=flt)),
            'vload': lambda: loaded(self.view.load(
                filters=flt, delayed=call['delayed'],
                selected_variables=vsel(self.view), indexer=indexer())),
            'vmap': lambda: bag(self.view.map(
                work, filters=flt, delayed=call['delayed'],
                partition_size=None, npartitions=call['npart'],
                selected_variables=vsel(self.view))),
            'voverlap': lambda: bag(self.view.map_overlap(
                work, depth=call['depth'] or 1, filters=flt,
                delayed=call['delayed'], npartitions=call['npart'],
                selected_variables=vsel(self.view))),
            'vsynced': lambda: self.view.is_synced(),
            'vvariables': lambda: (self.view.variables(), str(self.view)),
            'vopen': lambda: loaded(zcollection.open_view(
                self.vbase, filesystem=w.fs(),
                synchronizer=user.sync()).load(delayed=call['delayed'])),
            'iopen': lambda: index_mod.ClassIndexer.open(
                self.ipath, filesystem=w.fs()).table,
            'iquery': lambda: list(self.index.query({'cls': [0, 1]})),
            'iload': lambda: loaded(h.load(
                indexer=self.index.query({'cls': [0, 1]}),
                delayed=call['delayed'], filters=flt)),
        }
        return table[kind]
