"""C20: errors met while reading are reported, never taken for missing data."""
from __future__ import annotations

import re

from .base import *
from .faulty import gen_setup, setup
from .history import gen_observation, observe
from . import views

KINDS = ('observe', 'observe', 'observe', 'observe', 'insert', 'insert',
         'update', 'drop', 'addvar', 'dropvar', 'vload', 'vmap', 'vsync',
         'vupdate', 'vadd', 'vdrop', 'open', 'check', 'check')


class ReadErrors(Scenario):
    """Operations that read fail, in any call."""
    id = 'C20'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = rng.choice([3, 4, 6])
        kind = spec['kind'] = rng.choice(KINDS)
        if kind.startswith('v'):
            spec['immutable'] = False
            ver, state = views.gen_start(rng, spec, maxq)
            spec['names'] = sorted(rng.sample(views.vvars(spec), 2))
            spec['before'] = [views.gen_vupdate(rng, spec, maxq,
                                                spec['names'], True)]
        else:
            spec['setup'], ver = gen_setup(rng, maxq, rng.choice([1, 2]))
        if kind == 'observe':
            op = gen_observation(rng, spec['part'], maxq)
            while op['op'] == 'validate':
                # what cannot be read is invalid
                op = gen_observation(rng, spec['part'], maxq)
        elif kind == 'insert':
            op = gen.insert(rng, ver + 5, 4, maxq, merge=rng.random() < 0.8)
        elif kind == 'update':
            op = gen.update(rng, spec, maxq, funcs=('set', 'two'),
                            depth=rng.choice([0, 0, 1, 2]))
            op['sel'] = gen.needed(op)
            op['explicit'] = True
        elif kind == 'drop':
            op = {'op': 'drop', 'filter': gen.flt(rng, spec['part'], maxq)}
        elif kind in ('addvar', 'dropvar'):
            name = rng.choice(sorted(model.EXTRA))
            spec['setup'] = [o for o in spec['setup'] if o['op'] == 'insert']
            if kind == 'dropvar':
                spec['setup'].append({'op': 'addvar', 'name': name})
            op = {'op': kind, 'name': name}
        elif kind == 'vload':
            op = {'op': kind, 'filter': gen.flt(rng, spec['part'], maxq),
                  'delayed': rng.random() < 0.5}
        elif kind == 'vmap':
            op = {'op': kind, 'filter': gen.flt(rng, spec['part'], maxq),
                  'delayed': rng.random() < 0.5,
                  'depth': rng.choice([0, 1]), 'npart': None,
                  'info': False}
        elif kind in ('vadd', 'vdrop'):
            free = [n for n in views.vvars(spec) if n not in spec['names']]
            op = {'op': kind, 'name': rng.choice(
                free if kind == 'vadd' else spec['names'])}
        elif kind == 'check':
            op = {'op': kind, 'bad': [
                [rng.randrange(100), rng.choice(
                    ['', '', *('v1', 'v2', 'v3', 'time') * 2, *spec['rich']]),
                 rng.randrange(1000)]
                for _ in range(rng.choice([1, 1, 2, 3]))],
                  'filter': gen.flt(rng, spec['part'], maxq)
                  if rng.random() < 0.7 else None,
                  'kind': rng.choice(['eio', 'estale', 'eacces']),
                  'fix': rng.random() < 0.5}
        elif kind == 'vupdate':
            op = views.gen_vupdate(rng, spec, maxq, spec['names'], True)
        else:
            op = {'op': kind}
            if kind == 'vsync':
                spec['changes'] = [
                    views.gen_change(rng, ver + 6 + i, maxq, spec, state)
                    for i in range(rng.choice([1, 2]))]
        spec['op'] = op
        horizon = {'open': 6, 'drop': 8, 'dropvar': 20, 'addvar': 20}.get(
            kind, rng.choice([10, 40, 80]))
        spec['faults'] = []
        for _ in range(rng.choice([1, 1, 2])):
            fault = {'at': rng.randrange(horizon),
                     'n': rng.choice([1, 1, 1, 2, 5, -1]),
                     'kind': rng.choice(['eio', 'estale', 'eacces']),
                     'ops': rng.choice([list(faults.READING), ['read'],
                                        ['open'], ['list'],
                                        ['open', 'read']])}
            if 'list' in fault['ops']:
                # cleaning up lists, too: it gives up after ten attempts
                fault['n'] = min(abs(fault['n']), 3)
            if rng.random() < 0.3:
                fault['path'] = rng.choice(
                    ['v1', 'v2', 'time', '.zarray', '.zattrs', '.zgroup',
                     '.zmetadata', '/0'])
                fault['at'] = rng.randrange(8)
            spec['faults'].append(fault)
        spec['again'] = rng.choice(['same', 'new'])
        return spec

    def run(self, w):
        spec = w.spec
        op, kind = spec['op'], spec['kind']
        vw = None
        if kind.startswith('v'):
            user, vw = views.start(w)
            for name in spec['names']:
                self.strict(w, vw, user, {'op': 'vadd', 'name': name})
            for item in spec['before']:
                if vw.possible(item):
                    self.strict(w, vw, user, item)
            for item in spec.get('changes', ()):
                w.mutate_ok(user, item)
            if kind == 'vupdate' and not vw.possible(op):
                return {'nontrivial': False}
        else:
            user = w.user('A')
            setup(w, user)
        if kind == 'check':
            return self.check(w, user, op)
        plan = arm(w, spec['faults'])
        if kind in ('observe', 'open', 'vload', 'vmap'):
            error = self.observing(w, vw, user, op, kind, plan)
        else:
            user, error = self.changing(w, vw, user, op, kind, plan)
        if vw is not None:
            vw.check_everywhere(user, 'afterwards')
        w.check_everywhere(user, 'afterwards')
        return {'nontrivial': plan.fired > 0, 'reported': error is not None,
                f'error in {op["op"]}': plan.fired > 0}

    def strict(self, w, vw, user, op):
        vw.must(user, vw.operation(vw.view, op), op['op'])
        vw.apply(op, vw.m)

    def once(self, w, vw, user, op, kind):
        if kind == 'observe':
            observe(w, user, op)
        elif kind == 'open':
            w.check_state(user, w.open(user, mode='r'), what='open')
        elif kind == 'vload':
            vw.check_load(user, vw.view, 'load', op['filter'], None,
                          op['delayed'])
        else:
            vw.check_map(user, vw.view, 'map', op)

    def observing(self, w, vw, user, op, kind, plan):
        """The answer is right, or an error is reported."""
        failed = None
        try:
            self.once(w, vw, user, op, kind)
        except Violation as exc:
            # the failure of a call is not a violation once a fault fired
            failed = exc.__cause__
            if failed is None or isinstance(failed, Violation) or \
                    not plan.fired:
                raise
        except OSError as exc:
            failed = exc
            if not plan.fired:
                raise
        plan.disarm()
        if failed is not None:
            genuine(failed)
            self.once(w, vw, user, op, kind)
        return failed

    def changing(self, w, vw, user, op, kind, plan):
        """The call completes, or reports an error and can be repeated."""
        view = kind.startswith('v')
        fn = vw.operation(vw.view, op) if view else w.mutation(user, op)
        before = w.model.clone()
        after = w.model if view else w.apply_model(op, w.model.clone())
        value, error = vw.call(user, fn, kind) if view else user.call(fn)
        plan.disarm()
        settle(w, user, op['op'], reads=True)
        if error is not None:
            genuine(error)
            if not plan.fired:
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}',
                                f'{op["op"]} failed') from error
            if kind == 'insert':
                other = w.user()
                check_either(w, other, w.open(other, mode='r'), before, after,
                             'after a failed insert')
            if w.spec['again'] == 'new':
                user = w.user()
                user.h = w.open(user)
                if view:
                    vw.view = vw.open(user)
            name = op.get('name')
            listed = name is not None and name in user.h.metadata.variables
            if kind == 'addvar' and listed:
                w.must(user, lambda: user.h.drop_variable(name),
                       'drop_variable of the half added variable')
            if view and name is not None:
                listed = name in vw.view.metadata.variables
            if kind == 'vadd' and listed:
                vw.must(user, vw.operation(vw.view, dict(op, op='vdrop')),
                        'drop_variable of the half added variable')
            if kind not in ('dropvar', 'vdrop') or listed:
                fn = vw.operation(vw.view, op) if view else \
                    w.mutation(user, op)
                w.must(user, fn, f'repeated {op["op"]}')
        elif not view:
            w.check_result(op, value)
        if view:
            vw.apply(op, vw.m)
            vw.check_all(user, vw.view, op['op'])
        else:
            w.model = after
            w.check_state(user, user.h, what=op['op'])
        return user, error

    def check(self, w, user, op):
        """validate_partitions reports the partitions that cannot be read, and
        removes exactly these if it is asked to."""
        qs = sorted(w.model.parts)
        if not qs:
            return {'nontrivial': False}
        bad, specs = set(), []
        names = list(w.snapshot())
        for pick, name, which in op['bad']:
            q = qs[pick % len(qs)]
            path = f'{w.layout.path(q)}/.zmetadata'
            if name:
                # one of the chunks of the variable
                chunks = sorted(n for n in names if re.fullmatch(
                    re.escape(f'{w.layout.path(q)}/{name}/') + '[0-9.]*[0-9]',
                    n))
                if not chunks:
                    continue
                path = chunks[which % len(chunks)]
            bad.add(q)
            specs.append({'at': 0, 'n': -1, 'kind': op['kind'],
                          'ops': ['open', 'read'], 'path': f'/{path}'})
        want = [q for q in w.model.select(op['filter']) if q in bad]
        plan = arm(w, specs)

        def validate(fix):
            found = w.must(user, lambda: user.h.validate_partitions(
                filters=make_filter(w, op['filter']), fix=fix),
                'validate_partitions')
            paths = sorted(f'{w.base}/{w.layout.path(q)}' for q in want)
            if sorted(found) != paths:
                raise Violation(f'validate_partitions: reports {found} '
                                f'instead of {paths}', 'unreadable partition')

        validate(False)
        if op['fix']:
            validate(True)
            for q in want:
                del w.model.parts[q]
            w.check_partitions(user, user.h,
                               what='validate_partitions(fix) partitions')
            want = []
            validate(False)
        plan.disarm()
        settle(w, user, 'validate_partitions', reads=True)
        w.check_everywhere(user, 'afterwards')
        return {'nontrivial': plan.fired > 0, 'reported': plan.fired > 0}
