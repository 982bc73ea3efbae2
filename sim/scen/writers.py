"""C03: concurrent writers sharing an interprocess lock."""
from __future__ import annotations

from .base import *
from .faulty import gen_setup, setup


def interleavings(seqs):
    """All merges of the sequences keeping the order of each."""
    if not any(seqs):
        yield []
        return
    for i, seq in enumerate(seqs):
        if seq:
            rest = [s[1:] if j == i else s for j, s in enumerate(seqs)]
            for tail in interleavings(rest):
                yield [seq[0]] + tail


def step(base, part, op, q):
    """Content of one partition after an operation."""
    m = model.Model(base.layout, base.has_lut, base.rich)
    m.vars = dict(base.vars)
    m.lut = base.lut
    if part is not None:
        m.parts[q] = part
    kind = op['op']
    if kind == 'insert':
        incoming = m.incoming(op)
        if q in incoming:
            return m.put(part, incoming[q], op)
        return part
    if kind == 'drop':
        m.drop(op)
    elif kind == 'update':
        m.update(op)
    return m.parts.get(q)


def key(part):
    return None if part is None else tuple(
        (k, part[k].tobytes()) for k in sorted(part))


class Writers(Scenario):
    id = 'C03'
    max_steps = 600_000

    def gen(self, rng):
        spec = gen.config(rng, fs='posix', sync='proc', immutable=False)
        spec['policy']['p'] = rng.choice([0.02, 0.1, 0.3, 0.6])
        maxq = rng.choice([2, 3, 4])
        spec['setup'], ver = gen_setup(rng, maxq, rng.choice([0, 1, 1]))
        users = []
        for u in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choices(['insert', 'update', 'drop', 'validate'],
                                   [6, 2, 1, 1])[0]
                if kind == 'insert':
                    op = gen.insert(rng, ver, 3, maxq,
                                    merge=rng.random() < 0.6)
                elif kind == 'update':
                    op = gen.update(rng, spec, maxq,
                                    funcs=('set', 'inc', 'two'))
                elif kind == 'validate':
                    op = {'op': kind, 'fix': True}
                else:
                    op = {'op': 'drop',
                          'filter': gen.flt(rng, spec['part'], maxq)}
                ver += 1
                ops.append(op)
            users.append({'ops': ops, 'cluster': {
                'nworkers': rng.choice([1, 2]),
                'nthreads': rng.choice([1, 1, 2]),
                'processes': rng.random() < 0.5}})
        spec['users'] = users
        return spec

    def run(self, w):
        first = w.user('Z')
        setup(w, first)
        base = w.model
        users = []
        for i, item in enumerate(w.spec['users']):
            user = w.user(f'P{i}', item['cluster'])
            user.h = w.open(user)
            users.append((user, item['ops']))
        threads = []
        for user, ops in users:
            fns = [w.mutation(user, op) for op in ops]

            def body(fns=fns):
                return [fn() for fn in fns]

            threads.append((user, user.start(body, 'ops')))
        for user, thread in threads:
            w.sim.join(thread)
        for user, thread in threads:
            error = thread.error
            if error is not None:
                genuine(error)
                raise Violation(f'a concurrent call failed: '
                                f'{describe(error)}',
                                'concurrent call failed') from error
            settle(w, user, 'concurrent calls')
        fresh = w.user()
        h = w.open(fresh, mode='r')
        found = w.contents(fresh, h)
        qs = set(base.parts) | set(found)
        for _, ops in users:
            for op in ops:
                if op['op'] == 'insert':
                    qs |= {q for q, _ in model.expand(op['rows'])}
        orders = list(interleavings([ops for _, ops in users]))
        contended = 0
        for q in sorted(qs):
            outcomes = {}
            for order in orders:
                part = base.parts.get(q)
                for op in order:
                    part = step(base, part, op, q)
                outcomes.setdefault(key(part), part)
            contended += len(outcomes) > 1
            if q not in found:
                if None not in outcomes:
                    raise Violation(
                        f'partition {w.layout.path(q)} is missing: no serial '
                        'order of the calls gives this',
                        'partition lost')
                continue
            diffs = [model.difference(part, found[q])
                     for part in outcomes.values() if part is not None]
            if not diffs or all(diffs):
                raise Violation(
                    f'partition {w.layout.path(q)} holds the result of no '
                    f'serial order of the calls: {diffs[:3]}',
                    'partition mixed')
        bad = w.must(fresh, lambda: list(h.validate_partitions()),
                     'validate_partitions')
        if bad:
            raise Violation(f'invalid partitions: {bad}')
        return {'nontrivial': contended > 0,
                'contended partitions': contended,
                'processes': len(users)}
