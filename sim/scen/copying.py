"""C12: copies of collections."""
from __future__ import annotations

import copy

from .base import *
from .faulty import gen_setup


def twin(w, name, obj, m):
    """The world of a copy: its storage, its location and its model."""
    out = copy.copy(w)
    out.object = obj
    out.base = out.path(name)
    out.model = m
    out.user = w.user
    out.others = None
    return out


def same_config(src, dst, what):
    for label, a, b in (
            ('axis', src.axis, dst.axis),
            ('partitioning', src.partitioning.get_config(),
             dst.partitioning.get_config()),
            ('metadata', src.metadata, dst.metadata),
            ('metadata', src.metadata.get_config(),
             dst.metadata.get_config()),
            ('dimension', src.partition_properties.dim,
             dst.partition_properties.dim),
            ('immutable', src.immutable, dst.immutable)):
        if a != b:
            raise Violation(f'{what}: the {label} of the copy differs: {b!r} '
                            f'instead of {a!r}', f'{what}: {label}')


class Copy(Scenario):
    id = 'C12'

    def gen(self, rng):
        spec = gen.config(rng)
        spec['immutable'] = rng.random() < 0.35
        big = rng.random() < 0.06
        maxq = gen.width(rng, [3, 4, 6])
        if big:
            # files of several megabytes
            spec['rich'] = ['w6']
            spec['chunks'] = {}
            maxq = 2
        setup_ops, ver = gen_setup(rng, maxq, 1 if big else
                                   rng.choice([0, 1, 1, 2, 2]))
        if rng.random() < 0.2:
            setup_ops.append(gen.update(rng, spec, maxq,
                                        funcs=('inc', 'set')))
        spec['setup'] = setup_ops
        spec['copies'] = []
        for i in range(1 if big else rng.choice([1, 1, 2])):
            op = {
                'name': rng.choice([f'copy{i}', f'deep/er/copy{i}']),
                'fs': rng.choice(['same', 'same', 'other']),
                'filter': gen.flt(rng, spec['part'], maxq)
                if rng.random() < 0.6 else None,
                'npart': rng.choice([None, None, 1, 2, 5]),
                'mode': rng.choice(['w', 'w', 'r']),
                'source': rng.choice(['own', 'own', 'reader']),
                'again': rng.choice(['own', 'new']),
                # the copy becomes the source of the next one
                'chain': rng.random() < 0.3,
            }
            kind = rng.random()
            if kind < 0.35:
                op['faults'] = gen.io_faults(rng, 60, removing=False)
            elif kind < 0.5:
                op['faults'] = [{
                    'at': rng.randrange(80), 'n': rng.choice([1, 1, 3]),
                    'ops': list(faults.READING),
                    'kind': rng.choice(['eio', 'estale', 'eacces'])}]
                if rng.random() < 0.4:
                    op['faults'][0]['ops'] = ['list']
                    op['faults'][0]['at'] = rng.randrange(30)
            elif kind < 0.6:
                op['faults'] = [{'at': rng.randrange(80), 'n': 1,
                                 'kind': 'crash',
                                 'frac': rng.choice([0.0, 0.5])}]
            later = []
            for _ in range(rng.choice([0, 1]) if big else
                           rng.choice([0, 1, 2, 3])):
                side = rng.choice(['source', 'copy'])
                kind = rng.random()
                if kind < 0.5:
                    ver += 1
                    op2 = gen.insert(rng, ver, 3, maxq)
                elif kind < 0.7:
                    op2 = gen.update(rng, spec, maxq,
                                     funcs=('inc', 'set'))
                elif kind < 0.85:
                    op2 = {'op': 'drop',
                           'filter': gen.flt(rng, spec['part'], maxq)}
                else:
                    op2 = {'op': 'addvar',
                           'name': rng.choice(sorted(model.EXTRA))}
                later.append([side, op2])
            op['later'] = later
            spec['copies'].append(op)
        return spec

    def run(self, w):
        user = w.user('A')
        w.create(user)
        for op in w.spec['setup']:
            if op['op'] == 'addvar' and op['name'] in w.model.vars:
                continue
            w.mutate_ok(user, op)
        facts = {'copied': 0, 'failed': 0, 'crashed': 0, 'faults': 0}
        src = w
        for op in w.spec['copies']:
            user, dst, handle = self.copy(w, src, user, op, facts)
            for side, op2 in op['later']:
                ww, h = (src, user.h) if side == 'source' else (dst, handle)
                if op2['op'] == 'addvar' and op2['name'] in ww.model.vars:
                    continue
                ww.must(user, ww.mutation(user, op2, h), op2['op'])
                ww.apply_model(op2)
                src.check_state(user, user.h, what='source')
                dst.check_state(user, handle, what='copy')
            other = w.user()
            for ww, what in ((src, 'source'), (dst, 'copy')):
                h = ww.open(other, mode='r')
                ww.check_state(other, h, what=f'{what} (reopened)')
                ww.check_load(other, h, what=f'{what} load (reopened)')
            if op['chain']:
                src = dst
                user.h = handle
        facts['nontrivial'] = facts['copied'] > 0
        return facts

    def copying(self, src, dst, h, op):

        def fn():
            return h.copy(dst.base, filters=make_filter(src, op['filter']),
                          filesystem=dst.fs() if dst.object != src.object
                          else None, mode='w', npartitions=op['npart'])

        return fn

    def copy(self, w, src, user, op, facts):
        selected = src.model.select(op['filter'])
        m = src.model.clone()
        m.parts = {q: p for q, p in m.parts.items() if q in selected}
        obj = src.object if op['fs'] == 'same' else not src.object
        dst = twin(w, op['name'], obj, m)
        name = src.base[len(src.path('')):]
        before = src.snapshot(name)
        where = posix_short(src)
        touched = []

        def listener(kind, path, thread):
            for item in path.split(' -> '):
                item = strip_root(w, item)
                if item == where or item.startswith(where + '/'):
                    touched.append((kind, path))

        h = user.h
        if op['source'] == 'reader':
            h = src.open(user, mode='r')
        w.sim.listeners.append(listener)
        plan = arm(w, [dict(f, group=user.name) if f['kind'] == 'crash' else f
                       for f in op.get('faults') or ()])
        value, error = user.call(self.copying(src, dst, h, op))
        plan.disarm()
        facts['faults'] += plan.fired
        if error is not None:
            if is_crash(error):
                facts['crashed'] += 1
                w.sim.kill(user.name)
                user = w.user()
                user.h = src.open(user)
            else:
                genuine(error)
                if not plan.fired:
                    raise Violation('copy failed without any fault: '
                                    f'{describe(error)}', 'copy failed') \
                        from error
                settle(w, user, 'failed copy')
                facts['failed'] += 1
        if touched:
            raise Violation(f'copy modified the source: {touched[:3]}',
                            'copy modified the source')
        if src.snapshot(name) != before:
            raise Violation('copy changed the storage of the source',
                            'copy changed the source')
        if error is not None:
            if op['again'] == 'new' and not is_crash(error):
                user = w.user()
                user.h = src.open(user)
            src.check_state(user, user.h, what='source of a failed copy')
            dst = twin(w, op['name'] + '-again', obj, m)
            value = w.must(user, self.copying(src, dst, user.h, op),
                           'repeated copy')
        settle(w, user, 'copy')
        w.sim.listeners.remove(listener)
        if src.snapshot(name) != before:
            raise Violation('copy changed the storage of the source',
                            'copy changed the source')
        dst.check_state(user, value, what='copy')
        dst.check_load(user, value, what='copy load')
        src.check_state(user, user.h, what='source')
        same_config(user.h, value, 'copy')
        if op['mode'] == 'r':
            other = w.user()
            same_config(user.h, dst.open(other, mode='r'), 'reopened copy')
        facts['copied'] += len(m.parts) > 0
        return user, dst, value


def strip_root(w, path):
    return path[len(w.root) + 1:] if path.startswith(w.root + '/') else path


def posix_short(w):
    """Location of the collection, as listeners see it."""
    return w.base if w.object else w.base[len(w.root) + 1:]
