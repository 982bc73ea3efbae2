"""C15: changes are visible at once despite cached listings."""
from __future__ import annotations

import zlib

from . import views
from .base import *
from .copying import same_config, twin
from .faulty import object_replace
from .history import gen_observation, observe
from ..world import extract

SHAPES = ([1, 1], [2, 1], [3, 1], [2, 2], [4, 1])


class Caches(Scenario):
    id = 'C15'

    def gen(self, rng):
        spec = gen.config(rng)
        spec['fs'] = 'object'
        n, t = rng.choice(SHAPES)
        spec['cluster'] = {'nworkers': n, 'nthreads': t,
                           'processes': rng.random() < 0.9}
        maxq = gen.width(rng, [3, 4, 6])
        spec['view'] = rng.random() < 0.3
        ver = 1
        ops = []
        if rng.random() < 0.8:
            ops.append(gen.insert(rng, ver, 4, maxq))
        if spec['view']:
            spec['immutable'] = False
            for op in ops:
                op.pop('omit', None)
        present = set()
        names = set()
        state = {}
        for op in ops:
            views.note(state, op)
        for i in range(rng.randint(3, 8)):
            if rng.random() < 0.55:
                ob = gen_observation(rng, spec['part'], maxq)
                ob['handle'] = rng.choice(['own', 'own', 'own', 'second'])
                ops.append(ob)
                if rng.random() < 0.5:
                    continue
            kind = rng.choices(
                ['insert', 'drop', 'update', 'addvar', 'dropvar', 'copy',
                 'vadd', 'vdrop', 'vupdate', 'vsync', 'reopen'],
                [5, 3, 1.5, 0, 0, 2.5, 2, 1, 2, 2, 0.4] if spec['view'] else
                [5, 3, 1.5, 1.2, 1.2, 2.5, 0, 0, 0, 0, 0.4])[0]
            ver += 1
            op = {'op': kind}
            if kind == 'insert':
                if spec['view'] and rng.random() < 0.6:
                    op = views.gen_change(rng, ver, maxq, spec, state)
                else:
                    op = gen.insert(rng, ver, 4, maxq)
                    if spec['view']:
                        op.pop('omit', None)
                    views.note(state, op)
            elif kind == 'drop':
                op['filter'] = gen.flt(rng, spec['part'], maxq)
            elif kind == 'update':
                op = gen.update(rng, spec, maxq,
                                depth=rng.choice([0, 0, 1]))
            elif kind in ('addvar', 'dropvar'):
                pool = sorted(set(model.EXTRA) - present
                              if kind == 'addvar' else present)
                if not pool:
                    continue
                op['name'] = rng.choice(pool)
                present ^= {op['name']}
            elif kind == 'copy':
                op['filter'] = (gen.flt(rng, spec['part'], maxq)
                                if rng.random() < 0.3 else None)
                op['npart'] = rng.choice([None, 1, 2])
            elif kind in ('vadd', 'vdrop'):
                pool = sorted(set(views.vvars(spec)) - names
                              if kind == 'vadd' else names)
                if not pool:
                    continue
                op['name'] = rng.choice(pool)
                names ^= {op['name']}
            elif kind == 'vupdate':
                if not names:
                    continue
                op = views.gen_vupdate(rng, spec, maxq, names)
            if kind not in ('copy', 'reopen') and rng.random() < 0.12:
                op['faults'] = gen.io_faults(rng, rng.choice([6, 20, 60]))
                if rng.random() < 0.4:
                    for f in op['faults']:
                        f['at'] = rng.randrange(4)
                        f['n'] = 1
                        f['ops'] = rng.choice([['copy'], ['delete'], ['put']])
            ops.append(op)
        spec['ops'] = ops
        return spec

    def run(self, w):
        spec = w.spec
        user = w.user('A')
        w.create(user)
        second = w.open(user)
        vw = None
        facts = {'changes': 0, 'failed': 0, 'copies': 0}
        created = 0
        for i, op in enumerate(spec['ops']):
            kind = op['op']
            if spec['view'] and vw is None and w.model.parts:
                vw = views.ViewWorld(w, user)
                vw.create(user, None)
            if kind == 'reopen':
                user = w.user()
                user.h = w.open(user)
                second = w.open(user)
                if vw is not None:
                    vw.view = vw.open(user)
            elif kind == 'copy':
                self.copy(w, user, op, i)
                facts['copies'] += 1
            elif kind in ('vadd', 'vdrop', 'vupdate', 'vsync'):
                if vw is None or not vw.possible(op):
                    continue
                if self.change(w, vw, user, op, facts):
                    return dict(facts, nontrivial=True)
            elif kind in ('insert', 'drop', 'update', 'addvar', 'dropvar'):
                if not self.possible(w, op):
                    continue
                if self.change(w, None, user, op, facts):
                    return dict(facts, nontrivial=True)
            else:
                h = user.h
                if op['handle'] == 'second':
                    # its configuration may be outdated, not its listings
                    w.check_partitions(user, second, op['filter'],
                                       what='partitions (second handle)')
                else:
                    observe(w, user, op)
            if vw is not None and kind.startswith('v') and \
                    kind != 'validate':
                vw.check_all(user, vw.view, f'{kind} (view)')
        w.check_everywhere(user, 'final state')
        if vw is not None:
            vw.check_everywhere(user, 'final state (view)')
        facts['nontrivial'] = facts['changes'] > 0
        return facts

    def possible(self, w, op):
        kind = op['op']
        if kind == 'addvar':
            return op['name'] not in w.model.vars
        if kind == 'dropvar':
            return op['name'] in w.model.vars
        if kind == 'update':
            return bool(w.model.select(op.get('filter')))
        return True

    def change(self, w, vw, user, op, facts):
        """True: the call failed, the history ends here."""
        kind = op['op']
        plan = arm(w, op.get('faults') or ())
        if vw is None:
            value, error = w.mutate(user, op)
        else:
            value, error = vw.call(user, vw.operation(vw.view, op), kind)
        plan.disarm()
        facts['changes'] += 1
        if error is None:
            if vw is None:
                if not plan.fired:
                    w.check_result(op, value)
                w.apply_model(op)
            else:
                vw.apply(op, vw.m)
            return False
        genuine(error)
        if not plan.fired:
            raise Violation(f'{kind} failed without any fault: '
                            f'{describe(error)}', f'{kind} failed') from error
        facts['failed'] += 1
        settle(w, user, f'failed {kind}')
        # what the process sees is what is stored
        fresh = w.user()
        if vw is None:
            mine = self.survey(w, user, user.h)
            truth = self.survey(w, fresh, w.open(fresh, mode='r'))
        else:
            mine = self.vsurvey(w, user, vw.view)
            truth = self.vsurvey(w, fresh, vw.open(fresh))
        if vw is None and object_replace(w, w.model, op):
            # C02: this partition is damaged, reading it gives anything
            mine.pop('contents')
            truth.pop('contents')
        for name in truth:
            if mine[name] != truth[name]:
                raise Violation(
                    f'after a failed {kind}: {name} gives '
                    f'{str(mine[name])[:500]} in the process that made the '
                    f'call, {str(truth[name])[:500]} in another one',
                    f'after a failed {kind}: stale {name}')
        return True

    def survey(self, w, user, h):
        """What a process sees."""

        def contents():
            return sorted(
                (key, [(k, zlib.crc32(v.tobytes()))
                       for k, v in sorted(data.items())])
                for key, data in h.map(extract, delayed=False).compute())

        table = {
            'partitions': lambda: list(h.partitions()),
            'variables': lambda: sorted(h.metadata.variables),
            'validation': lambda: sorted(h.validate_partitions()),
            'contents': contents,
        }
        return {name: self.outcome(user, fn) for name, fn in table.items()}

    def vsurvey(self, w, user, view):
        table = {
            'partitions': lambda: list(view.partitions()),
            'variables': lambda: sorted(view.metadata.variables),
            'synced': view.is_synced,
            'contents': lambda: sorted(
                (k, v.tobytes()) for k, v in extract(
                    view.load(delayed=False)).items()),
        }
        return {name: self.outcome(user, fn) for name, fn in table.items()}

    def outcome(self, user, fn):
        value, error = user.call(fn)
        if error is not None:
            genuine(error)
            return 'an error'
        return value

    def copy(self, w, user, op, i):
        m = w.model.clone()
        selected = m.select(op['filter'])
        m.parts = {q: p for q, p in m.parts.items() if q in selected}
        dst = twin(w, f'copy{i}', True, m)
        h = w.must(user, lambda: user.h.copy(
            dst.base, filters=make_filter(w, op['filter']),
            npartitions=op['npart']), 'copy')
        dst.check_state(user, h, what='copy')
        same_config(user.h, h, 'copy')
        other = w.user()
        dst.check_state(other, dst.open(other, mode='r'),
                        what='copy (reopened)')
