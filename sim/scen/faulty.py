"""Inserts and the other modifying calls under storage errors (C02), crashes
(C04) and worker deaths (C16)."""
from __future__ import annotations

from .base import *

OBJECT_REPLACE = 'object-replace'


def object_replace(w, before, op, first=True):
    """Key of the known finding, if the execution may be an instance of it: on
    an object store, the objects of an existing partition are deleted then
    copied one by one, and the fault hit one of them. Not the first time, the
    partition may have been written by an earlier attempt."""
    if not w.object or op['op'] != 'insert':
        return None
    qs = {q for q, _ in model.expand(op['rows'])}
    if first:
        qs &= set(before.parts)
    if dirs_hit(w, w.sim.fault_log, qs):
        return OBJECT_REPLACE
    return None


def setup(w, user):
    w.create(user)
    for op in w.spec['setup']:
        if op['op'] == 'addvar' and op['name'] in w.model.vars:
            continue
        w.mutate_ok(user, op)


def gen_setup(rng, maxq, n=None):
    ops = []
    ver = 1
    for _ in range(rng.choice([0, 1, 1, 2]) if n is None else n):
        ops.append(gen.insert(rng, ver, 4, maxq))
        ver += 1
    if ops and rng.random() < 0.2:
        ops.append({'op': 'addvar', 'name': rng.choice(sorted(model.EXTRA))})
    return ops, ver


class InsertFault(Scenario):
    """Storage errors during an insert."""
    id = 'C02'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = rng.choice([3, 4, 6])
        spec['setup'], ver = gen_setup(rng, maxq)
        spec['op'] = gen.insert(rng, ver, 4, maxq)
        nparts = len({r[0] for r in spec['op']['rows']})
        spec['faults'] = gen.io_faults(rng, 14 + 26 * nparts)
        spec['again'] = rng.choice(['same', 'new'])
        return spec

    def run(self, w):
        user = w.user('A')
        setup(w, user)
        op = w.spec['op']
        before = w.model.clone()
        after = w.apply_model(op, w.model.clone())
        plan = arm(w, w.spec['faults'])
        value, error = w.mutate(user, op)
        plan.disarm()
        settle(w, user, 'failed insert' if error else 'insert')
        if error is not None:
            genuine(error)
            if not plan.fired:
                raise Violation(f'insert failed without any fault: '
                                f'{describe(error)}', 'insert failed') \
                    from error
        else:
            w.check_result(op, value)
        known = object_replace(w, before, op)
        base = before if error is not None else after
        fresh = w.user()
        h = w.open(fresh, mode='r')
        new = check_either(w, fresh, h, base, after, 'after a failed insert'
                           if error else 'after an insert', known)
        if not w.object:
            # (C15 checks the view a process has of its own failed calls)
            check_either(w, user, user.h, base, after,
                         'after a failed insert (own handle)', known)
        if error is None and len(after.parts) != len(list(
                w.must(fresh, lambda: list(h.partitions()), 'partitions'))):
            raise Violation('successful insert: partitions missing')
        if error is not None:
            who = user
            if w.spec['again'] == 'new':
                who = w.user()
                who.h = w.open(who)
            value = w.must_known(who, w.mutation(who, op), 'repeated insert',
                                 known)
            w.check_result(op, value)
            user = who
        w.model = after
        w.check_everywhere(user, 'final state')
        return {'nontrivial': plan.fired > 0, 'failed': error is not None,
                'fault on existing': bool(
                    plan.fired and set(before.parts) & {
                        r[0] for r in op['rows']}),
                'partitions already new': new}


class Crash(Scenario):
    """The process and its workers are killed during a modifying call."""
    id = 'C04'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = rng.choice([3, 4, 6])
        kind = rng.choices(['insert', 'update', 'drop', 'addvar', 'dropvar'],
                           [6, 2, 1.2, 1.4, 1.4])[0]
        setup_ops, ver = gen_setup(rng, maxq, None if kind == 'insert' else
                                   rng.choice([1, 2]))
        nparts = 4
        if kind == 'insert':
            op = gen.insert(rng, ver, 4, maxq)
            nparts = len({r[0] for r in op['rows']})
            horizon = 10 + 24 * nparts
        elif kind == 'update':
            op = gen.update(rng, spec, maxq, funcs=('set', 'two'),
                            depth=rng.choice([0, 0, 0, 1]))
            # the function reads nothing it writes
            op['sel'] = gen.needed(op)
            op['explicit'] = True
            op['delayed'] = rng.random() < 0.5
            horizon = 20
        elif kind == 'drop':
            op = {'op': 'drop', 'filter': gen.flt(rng, spec['part'], maxq)}
            horizon = 60
        elif kind == 'addvar':
            setup_ops = [o for o in setup_ops if o['op'] == 'insert']
            op = {'op': 'addvar', 'name': rng.choice(sorted(model.EXTRA))}
            horizon = 30
        else:
            name = rng.choice(sorted(model.EXTRA))
            setup_ops = [o for o in setup_ops if o['op'] == 'insert']
            setup_ops.append({'op': 'addvar', 'name': name})
            if rng.random() < 0.5:
                setup_ops.append(gen.insert(rng, ver + 1, 3, maxq))
            op = {'op': 'dropvar', 'name': name}
            horizon = 40
        spec['setup'] = setup_ops
        spec['op'] = op
        at = rng.randrange(horizon)
        if rng.random() < 0.2:
            at = rng.randrange(8)
        fault = {'at': at, 'n': 1, 'kind': 'crash', 'group': 'A',
                 'frac': rng.choice([0.0, 0.3, 0.5, 1.0])}
        if kind == 'insert' and rng.random() < 0.3:
            # aimed at the replacement of existing partitions
            fault['ops'] = ['rename', 'rmdir', 'unlink', 'delete', 'copy']
            fault['at'] = rng.randrange(12)
        spec['faults'] = [fault]
        spec['crashes'] = rng.choice([1, 1, 1, 2])
        if spec['crashes'] == 2:
            spec['faults2'] = [dict(fault, at=rng.randrange(horizon),
                                    group='B')]
        return spec

    def run(self, w):
        user = w.user('A')
        setup(w, user)
        op = w.spec['op']
        before = w.model.clone()
        after = w.apply_model(op, w.model.clone())
        crashed = 0
        known = None
        for round_, key in enumerate(('faults', 'faults2')):
            if key not in w.spec:
                break
            if round_:
                user = w.user('B')
                user.h = w.open(user)
                self.repair(w, user, op, before, after, known)
                if not self.prepare(w, user, op, known):
                    break
            plan = arm(w, w.spec[key])
            value, error = w.mutate(user, op)
            plan.disarm()
            if error is None:
                w.check_result(op, value) if not round_ else None
                break
            if not is_crash(error):
                genuine(error)
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}',
                                f'{op["op"]} failed', known) from error
            crashed += 1
            w.sim.kill(user.name)
            known = known or object_replace(w, before, op, not round_)
            self.survey(w, op, before, after, known)
        if error is not None:
            user = w.user()
            user.h = w.open(user)
            self.repair(w, user, op, before, after, known)
            self.perform(w, user, op, known)
        w.model = after
        try:
            w.check_everywhere(user, 'final state')
        except Violation as exc:
            exc.known = exc.known or known
            raise
        if w.sim.locks:
            raise Violation('lock left held')
        return {'nontrivial': crashed > 0, 'crashes': crashed,
                f'crash in {op["op"]}': crashed}

    def prepare(self, w, user, op, known):
        """Before a repeated call; False if it has nothing to do."""
        name = op.get('name')
        if op['op'] == 'addvar' and name in user.h.metadata.variables:
            w.must_known(user, lambda: user.h.drop_variable(name),
                         'drop_variable of the half added variable', known)
        if op['op'] == 'dropvar' and name not in user.h.metadata.variables:
            # it no longer exists for the collection
            return False
        return True

    def perform(self, w, user, op, known):
        if self.prepare(w, user, op, known):
            w.must_known(user, w.mutation(user, op), f'repeated {op["op"]}',
                         known)

    def repair(self, w, user, op, before, after, known):
        if op['op'] == 'insert':
            w.must_known(user, lambda: list(user.h.validate_partitions(
                fix=True)), 'validate_partitions(fix)', known)

    def survey(self, w, op, before, after, known):
        """What a new process finds after the crash."""
        user = w.user()
        h = w.open(user, mode='r')
        kind = op['op']
        listed = w.must(user, lambda: list(h.partitions(relative=True)),
                        'partitions')
        table = {w.layout.path(q): q
                 for q in set(before.parts) | set(after.parts)}
        unknown = set(listed) - set(table)
        if unknown:
            raise Violation(f'after a crash: unexpected partitions {unknown}',
                            'after a crash: unexpected partition')
        if kind == 'insert':
            targets = {q for q, _ in model.expand(op['rows'])}
        elif kind in ('update', 'drop'):
            targets = set(before.select(op.get('filter')))
        else:
            targets = set(before.parts)
        listed = {table[p] for p in listed}
        for q in set(before.parts) - targets - listed:
            raise Violation(f'after a crash: partition {w.layout.path(q)}, '
                            'not written, is missing',
                            'after a crash: untouched partition missing')
        bad = set()
        if kind == 'insert':
            value = w.must(user, lambda: sorted(
                h.validate_partitions()), 'validate_partitions')
            for path in value:
                q = {f'{w.base}/{k}': v for k, v in table.items()}.get(
                    path, table.get(path))
                if q is None or q not in targets:
                    raise Violation(f'after a crash: {path} reported invalid',
                                    'after a crash: sound partition invalid')
                bad.add(q)
        for q in sorted(listed):
            if kind in ('addvar', 'dropvar', 'drop') and q in targets:
                continue
            if q in bad:
                continue
            options = [m.parts[q] for m in (before, after) if q in m.parts]
            names = None
            if kind == 'update' and q in targets:
                written = set(model.updated(op))
                names = [n for n in before.vars if n not in written]

            def fn():
                zds = h.load(filters=make_filter(w, {'t': 'in', 'qs': [q]}),
                             delayed=False, selected_variables=names)
                from ..world import extract
                return extract(zds)

            found = strip(w.must_known(user, fn, 'load after a crash', known))
            if names is not None:
                options = [{k: v for k, v in o.items() if k in names}
                           for o in options]
            if q not in targets:
                options = options[:1]
            diffs = [model.difference(o, found) for o in options]
            if all(diffs):
                raise Violation(
                    f'after a crash: partition {w.layout.path(q)} not '
                    f'reported by validation is neither old nor new: {diffs}',
                    'after a crash: wrong content', known=known)


class Deaths(Scenario):
    """Workers die, their tasks are run again."""
    id = 'C16'

    def gen(self, rng):
        spec = gen.config(rng)
        spec['cluster'] = {'nworkers': rng.choice([2, 3, 4]),
                           'nthreads': rng.choice([1, 1, 2]),
                           'processes': True}
        maxq = rng.choice([3, 4, 6])
        kind = rng.choices(['insert', 'update', 'drop', 'addvar'],
                           [5, 2, 1, 1])[0]
        setup_ops, ver = gen_setup(rng, maxq, None if kind == 'insert' else
                                   rng.choice([1, 2]))
        setup_ops = [o for o in setup_ops if o['op'] == 'insert']
        if kind == 'insert':
            op = gen.insert(rng, ver, 4, maxq)
            horizon = 80
        elif kind == 'update':
            op = gen.update(rng, spec, maxq, funcs=('set', 'two'),
                            depth=rng.choice([0, 0, 1]))
            op['sel'] = gen.needed(op)
            op['explicit'] = True
            horizon = 20
        elif kind == 'drop':
            op = {'op': 'drop', 'filter': gen.flt(rng, spec['part'], maxq)}
            horizon = 60
        else:
            op = {'op': 'addvar', 'name': rng.choice(sorted(model.EXTRA))}
            horizon = 30
        spec['setup'] = setup_ops
        spec['op'] = op
        spec['faults'] = [
            {'at': rng.randrange(horizon), 'n': 1, 'kind': 'kill',
             'frac': rng.choice([0.0, 0.4, 1.0])}
            for _ in range(rng.choice([1, 1, 2, 3]))]
        if kind == 'insert' and rng.random() < 0.3:
            for f in spec['faults']:
                f['ops'] = ['rename', 'rmdir', 'unlink', 'delete', 'copy']
                f['at'] = rng.randrange(12)
        return spec

    def run(self, w):
        user = w.user('A')
        setup(w, user)
        op = w.spec['op']
        before = w.model.clone()
        after = w.apply_model(op, w.model.clone())
        plan = arm(w, w.spec['faults'])
        value, error = w.mutate(user, op)
        plan.disarm()
        settle(w, user, op['op'])
        known = object_replace(w, before, op, plan.fired <= 1)
        if error is not None:
            genuine(error)
            if not plan.fired:
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}', f'{op["op"]} failed') \
                    from error
            if op['op'] == 'insert':
                fresh = w.user()
                h = w.open(fresh, mode='r')
                check_either(w, fresh, h, before, after,
                             'after an insert failed on lost workers', known)
        else:
            try:
                if op['op'] != 'drop' or not plan.fired:
                    w.check_result(op, value)
                w.model = after
                w.check_everywhere(user, 'after worker deaths')
            except Violation as exc:
                exc.known = exc.known or known
                raise
        return {'nontrivial': plan.fired > 0, 'failed': error is not None,
                f'death in {op["op"]}': plan.fired}


def directed():
    """The recorded findings."""
    first = plain_insert(1, [[0, 0, 4, 1]])
    second = plain_insert(2, [[0, 2, 3, 1]], merge=True)
    inside = 'c/year=2000/month=01/day=29/'
    return [
        Directed(InsertFault(), fs='object', setup=[first], op=second,
                 again='same', faults=[{
                     'at': 1, 'n': 1, 'ops': ['copy'], 'kind': 'eio',
                     'path': inside}]),
        Directed(Crash(), fs='object', setup=[first], op=second, crashes=1,
                 faults=[{'at': 6, 'n': 1, 'ops': ['delete'],
                          'kind': 'crash', 'group': 'A', 'path': inside}]),
        Directed(Deaths(), fs='object', setup=[first], op=second,
                 cluster={'nworkers': 2, 'nthreads': 1, 'processes': True},
                 faults=[{'at': 6, 'n': 1, 'ops': ['delete'], 'kind': 'kill',
                          'path': inside}]),
    ]
