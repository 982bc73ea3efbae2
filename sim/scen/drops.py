"""C07 (dropping partitions) and C08 (adding and dropping variables)."""
from __future__ import annotations

from .base import *
from .faulty import gen_setup, setup
from ..world import extract

ZONES = ('UTC', 'UTC', 'America/New_York', 'Asia/Tokyo', 'Etc/GMT+12',
         'Pacific/Kiritimati', 'Asia/Kolkata')


class Drops(Scenario):
    """Drops by filter and age, under simulated clocks and time zones."""
    id = 'C07'

    def gen(self, rng):
        aged = rng.random() < 0.55
        spec = gen.config(rng)
        if aged:
            spec['fs'] = 'posix'
            spec['policy']['lat'] = 0.0
        spec['tz'] = rng.choice(ZONES)
        maxq = gen.width(rng, [4, 6, 8])
        ops = []
        for ver in range(1, rng.choice([2, 3, 4])):
            ops.append(gen.insert(rng, ver, 4, maxq, merge=False))
            ops.append({'op': 'wait', 's': rng.choice(
                [60, 600, 3600, 4 * 3600, 15 * 3600, 3 * 86400])})
        for _ in range(rng.choice([1, 1, 2])):
            op = {'op': 'drop', 'filter': gen.flt(rng, spec['part'], maxq)}
            if aged:
                op['td'] = rng.choice([0, 30, 300, 1800, 7200, 8 * 3600,
                                       86400, 2 * 86400])
            ops.append(op)
            if rng.random() < 0.3:
                ops.append({'op': 'wait', 's': rng.choice([60, 3600, 86400])})
            if rng.random() < 0.3:
                ops.append(gen.insert(rng, 10, 3, maxq, merge=False))
        if rng.random() < 0.4:
            spec['faults'] = gen.io_faults(rng, 40, creating=False)
            if rng.random() < 0.3:
                # a removal that fails for ever, until the storage is repaired
                spec['faults'] = [{
                    'at': rng.randrange(20), 'n': -1,
                    'ops': list(faults.REMOVING), 'kind': 'eacces'}]
        spec['ops'] = ops
        spec['again'] = rng.choice(['same', 'new'])
        return spec

    def run(self, w):
        user = w.user('A')
        w.create(user)
        created = {}  # q -> (first, last) possible creation times
        dropped = kept = failed = 0
        for op in w.spec['ops']:
            if op['op'] == 'wait':
                w.sim.advance(op['s'])
                continue
            if op['op'] == 'insert':
                t0 = w.sim.time()
                existing = set(w.model.parts)
                w.mutate_ok(user, op)
                t1 = w.sim.time()
                for q in {q for q, _ in model.expand(op['rows'])}:
                    # the creation time of a replaced partition is not
                    # specified: between its first and its last writing
                    lo = created[q][0] if q in existing else t0
                    created[q] = (lo, t1)
                continue
            before = w.model.clone()
            selected = before.select(op['filter'])
            plan = arm(w, w.spec.get('faults', []))
            t0 = w.sim.time()
            value, error = w.mutate(user, op)
            t1 = w.sim.time()
            plan.disarm()
            settle(w, user, 'drop_partitions')
            must, may = set(selected), set(selected)
            if op.get('td') is not None:
                # sub-second and clock resolution effects are left open
                must = {q for q in selected
                        if t0 - created[q][1] > op['td'] + 2}
                may = {q for q in selected
                       if t1 - created[q][0] > op['td'] - 2}
            if error is not None:
                genuine(error)
                if not plan.fired:
                    raise Violation(f'drop_partitions failed without any '
                                    f'fault: {describe(error)}',
                                    'drop_partitions failed') from error
                failed += 1
                self.untouched(w, before, may)
                who = user
                if w.spec['again'] == 'new':
                    who = w.user()
                    who.h = w.open(who)
                if op.get('td') is not None:
                    # a partly removed partition has just changed: the age
                    # limit holds again later
                    for q in must:
                        created[q] = (created[q][0], t1)
                    w.sim.advance(op['td'] + 10)
                    must = {q for q in selected
                            if w.sim.time() - created[q][1] > op['td'] + 2}
                value = w.must(who, w.mutation(who, op),
                               'repeated drop_partitions')
                t1b = w.sim.time()
                user = who
                if op.get('td') is not None:
                    may = {q for q in selected
                           if t1b - created[q][0] > op['td'] - 2}
            listed = w.must(user, lambda: list(user.h.partitions()),
                            'partitions')
            table = {f'{w.base}/{w.layout.path(q)}': q for q in before.parts}
            unknown = set(listed) - set(table)
            if unknown:
                raise Violation(f'drop_partitions: unknown partitions '
                                f'{unknown}')
            gone = set(before.parts) - {table[p] for p in listed}
            if must - gone:
                raise Violation(
                    f'drop_partitions: partitions '
                    f'{[w.layout.path(q) for q in sorted(must - gone)]} '
                    'remain', 'drop_partitions: partitions remain')
            if gone - may:
                raise Violation(
                    f'drop_partitions: partitions '
                    f'{[w.layout.path(q) for q in sorted(gone - may)]} '
                    'removed by mistake',
                    'drop_partitions: partitions removed by mistake')
            if error is None:
                got = [table.get(p, p) for p in value]
                if got != sorted(gone):
                    raise Violation(
                        f'drop_partitions: returned {value}, removed '
                        f'{[w.layout.path(q) for q in sorted(gone)]}',
                        'drop_partitions: wrong result')
            for q in gone:
                del w.model.parts[q]
                leftovers = [p for p in w.snapshot()
                             if f'{w.layout.path(q)}/' in f'{p}/']
                if leftovers:
                    raise Violation(f'drop_partitions: left {leftovers[:3]}',
                                    'drop_partitions: leftovers')
            dropped += len(gone)
            kept += len(before.parts) - len(gone)
            w.check_everywhere(user, 'after a drop')
        return {'nontrivial': dropped > 0, 'dropped': dropped, 'kept': kept,
                'failed': failed}

    def untouched(self, w, before, may):
        """Partitions that were not to be removed are intact."""
        user = w.user()
        h = w.open(user, mode='r')
        rest = sorted(set(before.parts) - may)
        if not rest:
            return

        def fn():
            zds = h.load(filters=make_filter(w, {'t': 'in', 'qs': rest}),
                         delayed=False)
            return None if zds is None else extract(zds)

        found = w.must(user, fn, 'load after a failed drop')
        diff = model.difference(before.whole(rest), found)
        if diff:
            raise Violation(f'failed drop_partitions: other partitions '
                            f'changed: {diff}',
                            'failed drop: other partitions')


class Variables(Scenario):
    """Adding and dropping variables with storage errors."""
    id = 'C08'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = gen.width(rng, [3, 4, 6])
        spec['setup'], ver = gen_setup(rng, maxq, rng.choice([0, 1, 1, 2]))
        spec['setup'] = [o for o in spec['setup'] if o['op'] == 'insert']
        name = rng.choice(sorted(model.EXTRA))
        if rng.random() < 0.5:
            spec['setup'].append({'op': 'addvar', 'name': name})
            if rng.random() < 0.4:
                spec['setup'].append(gen.insert(rng, ver + 1, 3, maxq))
            spec['op'] = {'op': 'dropvar', 'name': rng.choice(
                [name, name, 'v3', 'v2'])}
            spec['faults'] = gen.io_faults(rng, 16)
        else:
            spec['op'] = {'op': 'addvar', 'name': name}
            spec['faults'] = gen.io_faults(rng, 26)
        if rng.random() < 0.25:
            spec['faults'] = []
        elif rng.random() < 0.2:
            spec['faults'] = [dict(spec['faults'][0], path='.zcollection',
                                   ops=list(faults.CREATING), at=0,
                                   kind='eio', n=1)]
        spec['again'] = rng.choice(['same', 'new'])
        spec['insert'] = gen.insert(rng, ver + 2, 2, maxq) \
            if rng.random() < 0.5 else None
        return spec

    def run(self, w):
        user = w.user('A')
        setup(w, user)
        op = w.spec['op']
        name = op['name']
        before = w.model.clone()
        after = w.apply_model(op, w.model.clone())
        plan = arm(w, w.spec['faults'])
        value, error = w.mutate(user, op)
        plan.disarm()
        settle(w, user, op['op'])
        if error is not None:
            genuine(error)
            if not plan.fired:
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}', f'{op["op"]} failed') \
                    from error
            other = w.user()
            h = w.open(other, mode='r')
            listed = name in user.h.metadata.variables
            stored = name in h.metadata.variables
            if listed != stored:
                raise Violation(
                    f'after a failed {op["op"]} the handle says {name} '
                    f'{"exists" if listed else "does not exist"}, the stored '
                    f'configuration says the contrary',
                    f'failed {op["op"]}: handle and configuration disagree')
            self.others(w, other, h, before, name, op)
            self.others(w, user, user.h, before, name, op)
            who = user
            if w.spec['again'] == 'new':
                who = w.user()
                who.h = w.open(who)
            if name in who.h.metadata.variables:
                w.must(who, lambda: who.h.drop_variable(name),
                       f'drop_variable after a failed {op["op"]}')
            if op['op'] == 'addvar':
                w.must(who, w.mutation(who, op), 'repeated add_variable')
            user = who
        w.model = after
        w.check_everywhere(user, f'after {op["op"]}')
        if w.spec.get('insert'):
            w.mutate_ok(user, w.spec['insert'])
            w.check_everywhere(user, f'insert after {op["op"]}')
        return {'nontrivial': bool(before.parts),
                'failed': error is not None, op['op']: True}

    def others(self, w, user, h, before, name, op):
        """Every other variable stays readable and unchanged."""
        names = [n for n in before.vars if n != name]
        w.check_partitions(user, h, m=before,
                           what=f'failed {op["op"]}: partitions')

        def fn():
            zds = h.load(selected_variables=names, delayed=False)
            return None if zds is None else strip(extract(zds))

        found = w.must(user, fn, f'load after a failed {op["op"]}')
        want = before.whole(names=names)
        diff = model.difference(want, found)
        if diff:
            raise Violation(f'failed {op["op"]}: other variables changed: '
                            f'{diff}', f'failed {op["op"]}: other variables')
