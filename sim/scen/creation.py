"""C21: a creation is complete or can be told from a complete one, and never
replaces what exists."""
from __future__ import annotations

import zcollection
from zcollection.view import ViewReference

from .base import *
from ..world import make_dataset
from . import views


def attempt(user, fn):
    value, error = user.call(fn)
    if error is not None:
        genuine(error)
    return value, error


class Creation(Scenario):
    """Creations that fail or are interrupted, and creations on top of what
    exists."""
    id = 'C21'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = rng.choice([3, 4, 6])
        kind = spec['kind'] = rng.choice(['create', 'vcreate', 'vcreate'])
        if kind == 'vcreate':
            spec['immutable'] = False
            spec['setup'] = [gen.insert(rng, 1 + i, 4, maxq)
                             for i in range(rng.choice([1, 2]))]
            spec['vfilter'] = (None if rng.random() < 0.5 else
                               gen.flt(rng, spec['part'], maxq))
        spec['after'] = gen.insert(rng, 9, 4, maxq)
        horizon = 8 if kind == 'create' else rng.choice([10, 30])
        x = rng.random()
        spec['faults'] = []
        if x < 0.5:
            spec['faults'] = [{
                'at': rng.randrange(horizon), 'n': 1, 'kind': 'crash',
                'group': 'A', 'frac': rng.choice([0.0, 0.3, 0.5, 1.0])}]
        elif x < 0.85:
            spec['faults'] = gen.io_faults(rng, horizon, removing=False)
        spec['vname'] = rng.choice(sorted(views.VVARS)[:3])
        return spec

    def run(self, w):
        spec = w.spec
        user = w.user('A')
        view = spec['kind'] == 'vcreate'
        if view:
            w.create(user)
            for op in spec['setup']:
                w.mutate_ok(user, op)
        plan = arm(w, spec['faults'])
        error, vw = self.creates(w, user, view)
        plan.disarm()
        if is_crash(error):
            w.sim.kill(user.name)
        else:
            settle(w, user, 'creation')
            if error is not None and not plan.fired:
                raise Violation(f'creation failed without any fault: '
                                f'{describe(error)}',
                                'creation failed') from error
        where = w.path('v') if view else w.base
        # by another process
        other = w.user()
        opened, refused = attempt(other, self.opener(w, other, view))
        if refused is not None:
            if error is None:
                raise Violation('the object created cannot be opened: '
                                f'{describe(refused)}',
                                'cannot be opened') from refused
            # nothing usable: removed and created again
            fs = w.fs()
            attempt(other, lambda: fs.exists(where) and
                    fs.rm(where, recursive=True))
            failed, vw = self.creates(w, other, view)
            if failed is not None:
                raise Violation(f'repeated creation failed: '
                                f'{describe(failed)}',
                                'repeated creation failed') from failed
        elif view:
            vw = vw or views.ViewWorld(w, other)
            vw.view = opened
            if error is not None:
                # some of the partitions may be missing: completed
                vw.m.create(w.model, spec['vfilter'], w.layout)
                self.strict(vw, other, {'op': 'vsync'})
        else:
            other.h = opened
        if view and refused is not None:
            vw.view = vw.open(other)
        # works
        if view:
            other.h = w.open(other)
            self.strict(vw, other, {'op': 'vadd', 'name': spec['vname']})
            vw.check_all(other, vw.view, 'created view')
            vw.check_everywhere(other, 'created view')
        else:
            w.check_state(other, other.h, what='created collection')
            w.mutate_ok(other, spec['after'])
            w.check_everywhere(other, 'created collection')
        self.refused(w, view)
        return {'nontrivial': plan.fired > 0, 'failed': error is not None,
                'opened after a failure': error is not None and
                refused is None,
                f'{spec["kind"]} refused': refused is not None}

    def strict(self, vw, user, op):
        vw.must(user, vw.operation(vw.view, op), op['op'])
        vw.apply(op, vw.m)

    def opener(self, w, user, view):
        if view:
            return lambda: zcollection.open_view(
                w.path('v'), filesystem=w.fs(), synchronizer=user.sync())
        return lambda: zcollection.open_collection(
            w.base, mode='w', filesystem=w.fs(), synchronizer=user.sync())

    def maker(self, w, user, view, flt=None, ver=0, where=None):
        if view:
            return lambda: zcollection.create_view(
                where or w.path('v'), ViewReference(w.base, w.fs()),
                filesystem=w.fs(), filters=make_filter(w, flt),
                synchronizer=user.sync())
        return lambda: zcollection.create_collection(
            'time', make_dataset(w, {'rows': [[0, 0, 3, 1]], 'ver': ver}),
            w.partitioning(), where or w.base, filesystem=w.fs(),
            synchronizer=user.sync())

    def creates(self, w, user, view):
        flt = w.spec.get('vfilter')
        fn = self.maker(w, user, view, flt)
        if not view:
            user.h, error = user.call(fn)
            if error is not None and not is_crash(error):
                genuine(error)
            return error, None
        vw = views.ViewWorld(w, user)
        vw.view, error = vw.call(user, fn, 'create_view')
        if error is not None:
            if not is_crash(error):
                genuine(error)
            return error, None
        vw.m.create(w.model, flt, w.layout)
        return None, vw

    def refused(self, w, view):
        """What exists is not replaced."""
        user = w.user()
        name = 'v' if view else None
        where = w.path('v') if view else w.base
        before = w.snapshot(name)
        for kind in (view, not view):
            _, error = attempt(user, self.maker(w, user, kind, None, 3,
                                                where))
            if error is None:
                raise Violation('created on top of what exists',
                                'not refused')
            settle(w, user, 'refused creation')
            if w.snapshot(name) != before:
                raise Violation('a refused creation changed what exists',
                                'replaced')
