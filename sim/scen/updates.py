"""C05 (merging inserts) and C06 (updates)."""
from __future__ import annotations

from .base import *
from .faulty import gen_setup, setup
from ..world import extract


class Merging(Scenario):
    """Histories of merging inserts against an independent merge oracle."""
    id = 'C05'

    def gen(self, rng):
        spec = gen.config(rng, immutable=False)
        maxq = rng.choice([1, 2, 3])
        ops = []
        for ver in range(1, rng.randint(3, 7)):
            op = gen.insert(rng, ver, maxq, maxq, merge=rng.random() < 0.9)
            op['rows'] = gen.merging_rows(rng, maxq, maxq)
            if op.get('merge'):
                op['merge'] = True
                op.pop('tol', None)
                if rng.random() < 0.5:
                    op['tol'] = rng.choice([0.5, 1, 1.5, 2, 3, 5])
            ops.append(op)
        if rng.random() < 0.2:
            ops.insert(rng.randint(1, len(ops)), {
                'op': 'addvar', 'name': rng.choice(sorted(model.EXTRA))})
        spec['ops'] = ops
        spec['reopen'] = rng.random() < 0.3
        spec['each'] = rng.random() < 0.4
        return spec

    def run(self, w):
        user = w.user('A')
        w.create(user)
        merged = 0
        for op in w.spec['ops']:
            if op.get('merge'):
                merged += bool(set(w.model.parts) &
                               {q for q, _ in model.expand(op['rows'])})
            if w.spec['reopen']:
                user = w.user()
                user.h = w.open(user)
            w.mutate_ok(user, op)
            if w.spec['each']:
                w.check_state(user, user.h, what='after a merging insert')
        w.check_everywhere(user, 'after merging inserts')
        times = w.must(user, lambda: [
            (dict(key), extract(zds)['time'])
            for key, zds in user.h.map(lambda zds: zds,
                                       delayed=False).compute()], 'map') \
            if w.model.parts else []
        for key, axis in times:
            if len(axis) > 1 and not (axis[1:] > axis[:-1]).all():
                raise Violation(f'time axis of {key} not increasing')
        return {'nontrivial': merged > 0, 'merges': merged}


class Updates(Scenario):
    """Updates under random schedules, function failures, storage errors."""
    id = 'C06'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = gen.width(rng, [3, 4, 6, 8])
        spec['setup'], ver = gen_setup(rng, maxq, rng.choice([1, 2]))
        spec['ops'] = []
        for _ in range(rng.choice([1, 1, 2])):
            op = gen.update(rng, spec, maxq,
                            depth=rng.choice([0, 0, 1, 1, 2, 3]))
            spec['ops'].append(op)
        mode = rng.random()
        if mode < 0.35:
            op = spec['ops'][-1]
            if op['func'] == 'inc':
                op['func'] = 'set'
            op['sel'] = gen.needed(op)
            op['explicit'] = True
            spec['faults'] = gen.io_faults(rng, 16, removing=False)
        elif mode < 0.5:
            op = spec['ops'][-1]
            if op['func'] == 'inc':
                op['func'] = 'set'
            layout = model.Layout(spec['part'])
            op['fail'] = layout.time(rng.randrange(maxq), 0)
            op['explicit'] = True
        spec['again'] = rng.choice(['same', 'new'])
        return spec

    def run(self, w):
        user = w.user('A')
        setup(w, user)
        updated = failed = fired = 0
        for i, op in enumerate(w.spec['ops']):
            before = w.model.clone()
            after = w.apply_model(op, w.model.clone())
            last = i == len(w.spec['ops']) - 1
            plan = arm(w, w.spec.get('faults', []) if last else [])
            sel = op.get('sel')
            value, error = w.mutate(user, op)
            plan.disarm()
            settle(w, user, 'update')
            fired += plan.fired
            selected = before.select(op.get('filter'))
            expected_failure = False
            if op.get('fail') is not None:
                for j, q in enumerate(selected):
                    lo = selected[max(0, j - op.get('depth', 0))]
                    t = model.nanos(before.parts[lo]['time'])[0]
                    expected_failure |= bool(t >= op['fail'])
            if error is not None:
                genuine(error)
                if not plan.fired and not expected_failure:
                    raise Violation(f'update failed without any fault: '
                                    f'{describe(error)}',
                                    'update failed') from error
                failed += 1
                self.check_failed(w, before, op, selected)
                again = {k: v for k, v in op.items() if k != 'fail'}
                who = user
                if w.spec['again'] == 'new':
                    who = w.user()
                    who.h = w.open(who)
                w.must(who, w.mutation(who, again), 'repeated update')
                user = who
            elif expected_failure:
                raise Violation('the failure of the update function was not '
                                'reported', 'failure not reported')
            updated += len(selected)
            w.model = after
            w.check_everywhere(user, 'after an update')
        return {'nontrivial': updated > 0, 'updated': updated,
                'failed': failed, 'with overlap': any(
                    o.get('depth') for o in w.spec['ops'])}

    def check_failed(self, w, before, op, selected):
        """Partitions and variables that are not targets are untouched."""
        user = w.user()
        h = w.open(user, mode='r')
        w.check_partitions(user, h, m=before, what='after a failed update')
        written = set(model.updated(op))
        others = [n for n in before.vars if n not in written]
        for q in sorted(before.parts):
            names = others if q in selected else None
            what = 'after a failed update, data not updated'

            def fn():
                zds = h.load(filters=make_filter(w, {'t': 'in', 'qs': [q]}),
                             selected_variables=names, delayed=False)
                return strip(extract(zds))

            found = w.must(user, fn, f'{what}: load')
            want = before.parts[q] if names is None else {
                k: v for k, v in before.parts[q].items() if k in names}
            diff = model.difference(want, found)
            if diff:
                raise Violation(f'{what}: {w.layout.path(q)}: {diff}', what)
