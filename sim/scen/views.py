"""Views: synchronisation (C09), stored variables and isolation of the
reference (C10)."""
from __future__ import annotations

import numpy
import zcollection
from zcollection import meta
from zcollection.view import ViewReference

from .base import *
from .faulty import gen_setup
from ..world import (attrs_of, check_codecs, codecs, extract, hide, plain_attrs, raw, stored,
                     with_args)

#: name -> (dtype, dims, fill) of the view variables
VVARS = {
    'u1': ('float64', ('x', ), -7.0),
    'u2': ('int32', ('x', 'y'), 99),
    'u3': ('float32', ('x', 'y'), 2.5),
    'u4': ('int16', ('x', ), 0),
    'u5': ('float64', ('x', ), float('nan')),
    # transposed: the reference has to have the variable whose dimensions
    # define it
    'u6': ('float32', ('y', 'x'), 0.0),
}
NY = model.NY


class ViewModel:
    """Data of the view: for each partition, the axis it was last
    synchronised with and one array per view variable."""

    def __init__(self):
        self.vars = {}
        self.data = {}  # q -> (axis, {name: array})

    def clone(self):
        out = ViewModel()
        out.vars = dict(self.vars)
        out.data = {q: (a, {k: v.copy() for k, v in d.items()})
                    for q, (a, d) in self.data.items()}
        return out

    def fresh(self, n):
        return {name: numpy.full(model.shape(dims, n), fill, dtype=dtype)
                for name, (dtype, dims, fill) in self.vars.items()}

    def create(self, ref, flt, layout):
        for q in ref.select(flt):
            self.data[q] = (ref.parts[q]['time'], {})

    def addvar(self, name, ref):
        self.vars[name] = VVARS[name]
        dtype, dims, fill = VVARS[name]
        for q, (_, data) in self.data.items():
            if q not in ref.parts:
                # not created: the reference does not have this partition
                continue
            n = len(ref.parts[q]['time'])
            data[name] = numpy.full(model.shape(dims, n), fill, dtype=dtype)

    def dropvar(self, name):
        del self.vars[name]
        for _, data in self.data.values():
            data.pop(name, None)

    def status(self, ref, q):
        """same, extended, other or missing."""
        if q not in self.data:
            return 'missing'
        old, new = self.data[q][0], ref.parts[q]['time']
        if len(old) == len(new) and (old == new).all():
            data = self.data[q][1]
            if set(data) != set(self.vars) or any(
                    data[k].shape != v.shape
                    for k, v in self.fresh(len(new)).items()):
                return 'incomplete'
            return 'same'
        if len(old) < len(new) and (old == new[:len(old)]).all():
            return 'extended'
        return 'other'

    def sync(self, ref):
        """Returns the partitions that change."""
        changed = []
        for q in sorted(ref.parts):
            status = self.status(ref, q)
            if status == 'same':
                continue
            changed.append(q)
            axis = ref.parts[q]['time']
            data = self.fresh(len(axis))
            if status in ('extended', 'incomplete'):
                old = self.data[q][1]
                for name in set(data) & set(old):
                    n = min(len(data[name]), len(old[name]))
                    data[name][:n] = old[name][:n]
            self.data[q] = (axis, data)
        return changed

    def listed(self, ref, flt=None):
        return [q for q in ref.select(flt) if q in self.data]

    def clean(self, ref, qs):
        return all(self.status(ref, q) == 'same' for q in qs)

    def part(self, ref, q):
        return dict(ref.parts[q], **self.data[q][1])

    def whole(self, ref, qs, sel=None):
        if not qs:
            return None
        data = model.concat([self.part(ref, q) for q in qs])
        if sel is not None:
            data = {k: v for k, v in data.items() if k in sel}
        return data

    def update(self, ref, op):
        selected = self.listed(ref, op.get('filter'))
        depth = op.get('depth', 0)
        out = {}
        for i, q in enumerate(selected):
            lo, hi = max(0, i - depth), min(len(selected), i + depth + 1)
            window = self.whole(ref, selected[lo:hi])
            start = sum(len(ref.parts[k]['time']) for k in selected[lo:i])
            size = len(ref.parts[q]['time'])
            values = view_values(op, window, self.vars)
            out[q] = {k: v[start:start + size].astype(self.vars[k][0])
                      for k, v in values.items()}
        for q, values in out.items():
            self.data[q][1].update(values)
        return selected


def view_values(op, win, variables):
    """New values of the view variables for a window of plain arrays."""
    v2 = win['v2'].astype('float64')
    n = len(v2)
    out = {}
    for name in op['names']:
        _, dims, fill = variables[name]
        if op['func'] == 'inc':
            out[name] = win[name] + op['arg']
            continue
        res = v2 % 1000 + op['arg']
        if op['func'] == 'sum':
            res = res + v2.sum() % 10000 + 1000 * n
        # some values are the fill value
        res = numpy.where(model.nanos(win['time']) // model.NS_HOUR % 5 ==
                          op['arg'] % 5, fill, res)
        if 'y' in dims:
            res = numpy.stack([res + y for y in range(NY)], axis=1)
        out[name] = res
    return out


def make_view_update(op, variables):
    depth = op.get('depth', 0)

    def compute(zds):
        win = {k: stored(k, raw(zds.variables[k])) for k in
               ('time', 'v2', *(op['names'] if op['func'] == 'inc' else ()))}
        if op.get('fail') is not None and int(
                model.nanos(win['time'])[0]) >= op['fail']:
            raise ArithmeticError('update function failed')
        values = view_values(op, win, variables)
        return values

    def finish(values):
        values = {k: stored(k, v) for k, v in values.items()}
        if op.get('masked'):
            values = {k: hide(v, variables[k][2]) for k, v in values.items()}
        return values

    if depth and not op.get('trim', True):

        def updater(zds, partition_info=None):
            dim, sl = partition_info
            assert dim == 'x'
            return finish({k: v[sl] for k, v in compute(zds).items()})
    elif depth and op.get('info'):

        def updater(zds, partition_info=None):
            assert partition_info[0] == 'x'
            return finish(compute(zds))
    else:

        def updater(zds):
            return finish(compute(zds))

    return updater


class ViewWorld:
    """View operations on both sides."""

    def __init__(self, w, user):
        self.w = w
        self.base = w.path('v')
        self.m = ViewModel()
        self.view = None
        self.touched = []

    # ---- watching the reference
    def watch(self):
        ref = self.w.base

        def listener(op, path, thread):
            if path == ref or path.startswith(ref + '/'):
                self.touched.append((op, path))

        self.w.sim.listeners.append(listener)
        self.before = self.w.snapshot()
        return listener

    def unwatch(self, listener, what):
        self.w.sim.listeners.remove(listener)
        if self.touched:
            raise Violation(f'{what}: the reference was modified: '
                            f'{self.touched[:3]}',
                            'view call modified the reference')
        if self.w.snapshot() != self.before:
            raise Violation(f'{what}: the content of the reference changed',
                            'view call modified the reference')

    def call(self, user, fn, what):
        listener = self.watch()
        value, error = user.call(fn)
        self.unwatch(listener, what)
        return value, error

    def must(self, user, fn, what):
        value, error = self.call(user, fn, what)
        if error is not None:
            if isinstance(error, Violation):
                raise error
            genuine(error)
            raise Violation(f'{what} failed: {describe(error)}',
                            f'{what} failed') from error
        return value

    # ---- handles
    def create(self, user, flt):
        w = self.w

        def fn():
            return zcollection.create_view(
                self.base, ViewReference(w.base, w.fs()), filesystem=w.fs(),
                filters=make_filter(w, flt), synchronizer=user.sync())

        self.view = self.must(user, fn, 'create_view')
        self.m.create(w.model, flt, w.layout)

    def open(self, user):
        return self.must(
            user, lambda: zcollection.open_view(
                self.base, filesystem=self.w.fs(), synchronizer=user.sync()),
            'open_view')

    # ---- operations
    def operation(self, view, op):
        w = self.w
        kind = op['op']
        if kind == 'vadd':
            dtype, dims, fill = VVARS[op['name']]
            return lambda: view.add_variable(meta.Variable(
                op['name'], numpy.dtype(dtype), dimensions=dims,
                attrs=attrs_of(op['name']), fill_value=fill,
                **codecs(op['name'])))
        if kind == 'vdrop':
            return lambda: view.drop_variable(op['name'])
        if kind == 'vsync':
            return lambda: view.sync(filters=make_filter(w, op.get('filter')))
        if kind == 'vupdate':
            kwargs = {k: op[k] for k in ('depth', 'delayed', 'trim')
                      if k in op}
            if op.get('npart'):
                kwargs['npartitions'] = op['npart']
            if op.get('sel'):
                kwargs['selected_variables'] = list(op['sel'])
            func, args, more = with_args(
                make_view_update(op, dict(self.m.vars)), op.get('args'))
            return lambda: view.update(
                func, *args, filters=make_filter(w, op.get('filter')),
                **kwargs, **more)
        raise KeyError(kind)

    def apply(self, op, m):
        kind = op['op']
        if kind == 'vadd':
            m.addvar(op['name'], self.w.model)
        elif kind == 'vdrop':
            m.dropvar(op['name'])
        elif kind == 'vsync':
            return m.sync(self.w.model)
        elif kind == 'vupdate':
            m.update(self.w.model, op)
        return None

    def possible(self, op):
        """Does the op make sense in the current state?"""
        m, ref = self.m, self.w.model
        kind = op['op']
        if kind == 'vadd':
            return op['name'] not in m.vars
        if kind == 'vdrop':
            return op['name'] in m.vars
        if kind == 'vupdate':
            qs = m.listed(ref, op.get('filter'))
            return (all(n in m.vars for n in op['names']) and
                    bool(qs) and m.clean(ref, qs))
        return True

    # ---- observations
    def check_listing(self, user, view, what, flt=None, m=None):
        m = m or self.m
        found = self.must(user, lambda: list(view.partitions(
            filters=make_filter(self.w, flt))), f'{what}: View.partitions')
        want = [f'{self.base}/{self.w.layout.path(q)}'
                for q in m.listed(self.w.model, flt)]
        if found != want:
            raise Violation(f'{what}: view lists {found} instead of {want}',
                            f'{what}: view partitions')

    def check_synced(self, user, view, what):
        found = self.must(user, view.is_synced, f'{what}: is_synced')
        want = self.m.clean(self.w.model, self.w.model.parts)
        if found != want:
            raise Violation(f'{what}: is_synced returned {found} instead of '
                            f'{want}', f'{what}: is_synced')

    def check_load(self, user, view, what, flt=None, sel=None, delayed=False,
                   indexer=None, m=None, names=None):
        """Compare View.load with the model; the selection has to be clean.
        names: variables compared (and loaded), if not all."""
        w = self.w
        m = m or self.m
        if not m.vars:
            return
        qs = m.listed(w.model, flt)
        if not m.clean(w.model, qs):
            return

        def fn():
            kwargs = {}
            if indexer is not None:
                kwargs['indexer'] = [(w.layout.key(q), slice(a, b))
                                     for q, a, b in indexer]
            zds = view.load(filters=make_filter(w, flt), delayed=delayed,
                            selected_variables=names or sel, **kwargs)
            if zds is None:
                return None
            out = {}
            for name, var in zds.variables.items():
                check_codecs(name, var, what)
                out[name] = (stored(name, raw(var)),
                             stored(name, numpy.ma.getmaskarray(var.values)),
                             {a.name: a.value for a in var.attrs})
            return out

        found = self.must(user, fn, f'{what}: View.load')
        if indexer is None:
            want = m.whole(w.model, qs, names or sel)
        else:
            pieces = [model.take(m.part(w.model, q), slice(a, b))
                      for q, a, b in indexer if q in qs]
            want = model.concat(pieces) if pieces else None
            if want and (names or sel):
                want = {k: v for k, v in want.items() if k in (names or sel)}
        diff = model.difference(want, None if found is None else {
            k: v[0] for k, v in found.items()})
        if diff:
            raise Violation(f'{what}: View.load returned wrong data: {diff}',
                            f'{what}: View.load wrong data')
        for name, (values, mask, attrs) in (found or {}).items():
            fill = (m.vars[name][2] if name in m.vars else
                    w.model.vars[name][2])
            wanted = (numpy.zeros(mask.shape, bool) if fill is None else
                      want[name] == fill)
            if not numpy.array_equal(mask, wanted):
                raise Violation(f'{what}: {name} is not masked where it holds'
                                ' the fill value', f'{what}: mask')
            if attrs != plain_attrs(name):
                raise Violation(f'{what}: attributes of {name}: {attrs}',
                                f'{what}: attributes')

    def check_map(self, user, view, what, op):
        w, m = self.w, self.m
        qs = m.listed(w.model, op.get('filter'))
        if not m.vars or not qs or not m.clean(w.model, qs):
            return
        depth = op.get('depth', 0)

        def plain(zds):
            return extract(zds), None

        def info(zds, partition_info=None):
            return extract(zds), (partition_info[0], partition_info[1].start,
                                  partition_info[1].stop)

        def fn():
            kwargs = {'filters': make_filter(w, op.get('filter')),
                      'delayed': op['delayed']}
            if op.get('npart'):
                kwargs['npartitions'] = op['npart']
            if op.get('psize'):
                kwargs['partition_size'] = op['psize']
            if op.get('sel'):
                kwargs['selected_variables'] = op['sel']
            f, args, more = with_args(
                info if depth and op.get('info') else plain, op.get('args'))
            if depth:
                return view.map_overlap(f, *args, depth=depth, **kwargs,
                                        **more).compute()
            return view.map(f, *args, **kwargs, **more).compute()

        found = self.must(user, fn, f'{what}: View.map')
        keys = [tuple((k, int(v)) for k, v in key) for key, _ in found]
        if keys != [w.layout.key(q) for q in qs]:
            raise Violation(f'{what}: View.map gave {keys}',
                            f'{what}: View.map partitions')
        for i, (q, (_, (data, part))) in enumerate(zip(qs, found)):
            lo = max(0, i - depth)
            want = m.whole(w.model, qs[lo:i + depth + 1], op.get('sel'))
            diff = model.difference(want, data)
            if diff:
                raise Violation(f'{what}: View.map gave wrong data: {diff}',
                                f'{what}: View.map wrong data')
            if part is not None:
                start = sum(len(w.model.parts[k]['time'])
                            for k in qs[lo:i])
                if part != ('x', start,
                            start + len(w.model.parts[q]['time'])):
                    raise Violation(f'{what}: partition_info {part}')

    def check_all(self, user, view, what):
        if set(view.metadata.variables) != set(self.m.vars):
            raise Violation(
                f'{what}: view variables {sorted(view.metadata.variables)} '
                f'instead of {sorted(self.m.vars)}', f'{what}: variables')
        self.check_listing(user, view, what)
        self.check_load(user, view, what)

    def check_everywhere(self, user, what):
        self.check_all(user, self.view, what)
        other = self.w.user()
        view = self.open(other)
        self.check_all(other, view, f'{what} (reopened)')
        self.check_synced(other, view, f'{what} (reopened)')


# ------------------------------------------------------------------ generation
def vvars(spec):
    return [n for n in VVARS if n != 'u6' or 'w1' in spec['rich']]


def gen_vupdate(rng, spec, maxq, names, faulty=False):
    op = {'op': 'vupdate', 'func': 'set' if faulty or rng.random() < 0.6
          else 'inc',
          'names': sorted(rng.sample(sorted(names),
                                     rng.choice([1, min(2, len(names))]))),
          'arg': rng.randint(1, 40), 'delayed': rng.random() < 0.5,
          'filter': gen.flt(rng, spec['part'], maxq)
          if rng.random() < 0.5 else None,
          'npart': rng.choice([None, None, 1, 2]),
          'masked': rng.random() < 0.3}
    if rng.random() < 0.35:
        op['depth'] = rng.choice([1, 1, 2])
        op['func'] = 'sum'
        op['trim'] = rng.random() < 0.6
        op['info'] = rng.random() < 0.5
    if op['func'] != 'inc' and rng.random() < 0.3:
        op['sel'] = ['time', 'v2'] + op['names']
    if rng.random() < 0.2:
        op['args'] = True
    return op


def gen_change(rng, ver, maxq, spec, state):
    """A change of the reference."""
    kind = rng.choices(['append', 'insert', 'drop'], [5, 3, 1])[0]
    if kind == 'append' and state:
        # rows after (mostly) those already there
        out = []
        for q in sorted(state):
            if rng.random() < 0.6:
                r0 = state[q] + rng.choice([0, 0, 1])
                n = rng.randint(1, 4)
                out.append([q, r0, n, 1])
                state[q] = r0 + n
        if rng.random() < 0.3:
            q = rng.randrange(maxq)
            if q not in state:
                out.append([q, rng.randrange(6), rng.randint(1, 4), 1])
                state[q] = out[-1][1] + out[-1][2]
        out = [r for r in out if r[1] < model.SLOTS]
        if out:
            return {'op': 'insert', 'ver': ver, 'rows': sorted(out),
                    'delayed': rng.random() < 0.5, 'npart': None,
                    'merge': True}
    if kind == 'drop':
        return {'op': 'drop', 'filter': gen.flt(rng, spec['part'], maxq)}
    op = gen.insert(rng, ver, 3, maxq)
    op.pop('omit', None)
    note(state, op)
    return op


def note(state, op):
    """Upper bound of the slots in use, per partition."""
    for q, r0, n, step in op['rows']:
        last = r0 + (n - 1) * step + 1
        state[q] = max(state.get(q, 0), last)


def gen_start(rng, spec, maxq):
    """Initial reference and view."""
    setup_ops, ver = gen_setup(rng, maxq, rng.choice([1, 1, 2]))
    setup_ops = [dict(o) for o in setup_ops if o['op'] == 'insert']
    state = {}
    for o in setup_ops:
        o.pop('omit', None)
        note(state, o)
    spec['setup'] = setup_ops
    spec['vfilter'] = gen.flt(rng, spec['part'], maxq) \
        if rng.random() < 0.3 else None
    return ver, state


def start(w):
    user = w.user('A')
    w.create(user)
    for op in w.spec['setup']:
        w.mutate_ok(user, op)
    vw = ViewWorld(w, user)
    vw.create(user, w.spec['vfilter'])
    return user, vw


def reopen(w, vw):
    """A new process takes over."""
    user = w.user()
    user.h = w.open(user)
    vw.view = vw.open(user)
    return user


class Sync(Scenario):
    """Synchronisation with errors and crashes."""
    id = 'C09'

    def gen(self, rng):
        spec = gen.config(rng, immutable=False)
        maxq = gen.width(rng, [3, 4, 6])
        ver, state = gen_start(rng, spec, maxq)
        ver += 5
        names = sorted(rng.sample(vvars(spec), rng.choice([0, 1, 1, 2])))
        ops = [{'op': 'vadd', 'name': n} for n in names]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if names and rng.random() < 0.8:
                ops.append(gen_vupdate(rng, spec, maxq, names))
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append(gen_change(rng, ver, maxq, spec, state))
                ver += 1
            if rng.random() < 0.15:
                ops.append({'op': 'reopen'})
            if rng.random() < 0.1:
                free = sorted(set(vvars(spec)) - set(names))
                if free:
                    names.append(free[0])
                    ops.append({'op': 'vadd', 'name': free[0]})
            if rng.random() < 0.15:
                # a variable added while partitions are not in the reference
                free = sorted(set(vvars(spec)) - set(names))
                ops.append({'op': 'drop', 'filter': gen.flt(
                    rng, spec['part'], maxq)})
                if free:
                    names.append(rng.choice(free))
                    ops.append({'op': 'vadd', 'name': names[-1]})
                ops += [dict(o) for o in spec['setup']]
            sync = {'op': 'vsync'}
            if rng.random() < 0.25:
                sync['filter'] = gen.flt(rng, spec['part'], maxq)
            kind = rng.random()
            horizon = rng.choice([6, 15, 40, 80])
            if kind < 0.4:
                sync['faults'] = gen.io_faults(rng, horizon)
            elif kind < 0.75:
                sync['faults'] = [{
                    'at': rng.randrange(horizon), 'n': 1, 'kind': 'crash',
                    'frac': rng.choice([0.0, 0.3, 0.5, 1.0])}]
                if rng.random() < 0.3:
                    sync['again_fault'] = [{
                        'at': rng.randrange(horizon), 'n': 1,
                        'kind': 'crash', 'frac': rng.choice([0.0, 0.5])}]
            sync['again'] = rng.choice(['same', 'new'])
            if rng.random() < 0.2:
                sync['between'] = gen_change(rng, ver, maxq, spec, state)
                if not sync['between'].get('merge') or \
                        sync['between'].get('tol'):
                    del sync['between']
                ver += 1
            ops.append(sync)
        spec['ops'] = ops
        return spec

    def run(self, w):
        user, vw = start(w)
        facts = {'syncs': 0, 'failed': 0, 'crashed': 0, 'extended': 0,
                 'recreated': 0, 'created': 0}
        for op in w.spec['ops']:
            kind = op['op']
            if kind in ('insert', 'drop'):
                w.mutate_ok(user, op)
            elif kind == 'reopen':
                user = reopen(w, vw)
            elif kind == 'vsync':
                user = self.sync(w, vw, user, op, facts)
            elif vw.possible(op):
                vw.must(user, vw.operation(vw.view, op), kind)
                vw.apply(op, vw.m)
                settle(w, user, kind)
        vw.check_everywhere(user, 'final state')
        facts['nontrivial'] = bool(w.model.parts) and facts['syncs'] > 0
        return facts

    def sync(self, w, vw, user, op, facts):
        for q in w.model.parts:
            status = vw.m.status(w.model, q)
            key = {'extended': 'extended', 'other': 'recreated',
                   'missing': 'created'}.get(status)
            if key:
                facts[key] += 1
        facts['syncs'] += 1
        vw.check_synced(user, vw.view, 'before sync')
        if len(w.spec['ops']) % 2:
            vw.check_synced(user, vw.view, 'before sync, again')
        pending = [k for k in ('faults', 'again_fault') if op.get(k)]
        first = True
        for key in pending:
            specs = [dict(f, group=user.name) if f['kind'] == 'crash' else f
                     for f in op[key]]
            plan = arm(w, specs)
            value, error = vw.call(user, vw.operation(vw.view, op),
                                   'View.sync')
            plan.disarm()
            if error is None:
                break
            if is_crash(error):
                facts['crashed'] += 1
                w.sim.kill(user.name)
                user = reopen(w, vw)
            else:
                genuine(error)
                if not plan.fired:
                    raise Violation(f'View.sync failed without any fault: '
                                    f'{describe(error)}',
                                    'View.sync failed') from error
                facts['failed'] += 1
                settle(w, user, 'failed sync')
                if op['again'] == 'new':
                    user = reopen(w, vw)
            first = False
            # if it claims to be synchronised, it is
            if vw.must(user, vw.view.is_synced, 'is_synced after a failed '
                       'sync'):
                m = vw.m.clone()
                m.sync(w.model)
                vw.check_load(user, vw.view, 'claimed synchronised', m=m)
            if op.get('between') and self.appends(w, vw, op['between']):
                w.mutate_ok(user, op['between'])
        else:
            value = vw.must(user, vw.operation(vw.view, op),
                            'View.sync' if first else 'repeated View.sync')
        settle(w, user, 'View.sync')
        changed = vw.m.sync(w.model)
        vw.check_synced(user, vw.view, 'after sync')
        vw.check_all(user, vw.view, 'after sync')
        if first:
            found = vw.must(user, lambda: list(vw.view.partitions(
                filters=value)), 'partitions(sync result)')
            want = [f'{vw.base}/{w.layout.path(q)}' for q in changed]
            if found != want:
                raise Violation(f'View.sync: its result selects {found} '
                                f'instead of {want}', 'View.sync: result')
        return user


    def appends(self, w, vw, op):
        """The op only appends to partitions, none being rewritten by the
        interrupted synchronisation (which may have got rid of its data)."""
        after = w.apply_model(op, w.model.clone())
        probe = ViewModel()
        for q, part in w.model.parts.items():
            if vw.m.status(w.model, q) == 'other':
                return False
            probe.data[q] = (part['time'], {})
        return all(probe.status(after, q) in ('same', 'extended')
                   for q in w.model.parts)


class ViewHistory(Scenario):
    """View operations, observations and failures."""
    id = 'C10'

    def gen(self, rng):
        spec = gen.config(rng, immutable=False)
        maxq = gen.width(rng, [3, 4, 6])
        ver, state = gen_start(rng, spec, maxq)
        ver += 5
        ops = []
        names = set()
        for _ in range(rng.randint(3, 7)):
            kind = rng.choices(
                ['vadd', 'vdrop', 'vupdate', 'ref', 'vsync', 'load', 'map',
                 'reopen'],
                [6 if not names else 1.5, 1, 4, 1, 1, 2.5, 1, 0.7])[0]
            if kind == 'vadd':
                free = sorted(set(vvars(spec)) - names)
                if not free:
                    continue
                op = {'op': kind, 'name': rng.choice(free)}
                names.add(op['name'])
            elif kind == 'vdrop':
                if not names:
                    continue
                op = {'op': kind, 'name': rng.choice(sorted(names))}
                names.discard(op['name'])
            elif kind == 'vupdate':
                if not names:
                    continue
                op = gen_vupdate(rng, spec, maxq, names)
                if op['func'] != 'inc' and rng.random() < 0.1:
                    op['fail'] = rng.choice(
                        [0, model.Layout(spec['part']).time(
                            rng.randrange(maxq), 0)])
            elif kind == 'ref':
                ops.append(gen_change(rng, ver, maxq, spec, state))
                ver += 1
                op = {'op': 'vsync'}
            elif kind == 'load':
                op = {'op': kind, 'filter': gen.flt(rng, spec['part'], maxq),
                      'delayed': rng.random() < 0.5,
                      'handle': rng.choice(['own', 'new'])}
                if rng.random() < 0.5:
                    op['sel'] = rng.choice([
                        ['time', *sorted(names)], sorted(names) or ['time'],
                        ['time', 'v1'], ['v2', *sorted(names)[:1]]])
                if rng.random() < 0.4:
                    op['index'] = rng.randrange(10**6)
            elif kind == 'map':
                op = {'op': kind, 'filter': gen.flt(rng, spec['part'], maxq),
                      'delayed': rng.random() < 0.5,
                      'depth': rng.choice([0, 1, 2]),
                      'npart': rng.choice([None, 1, 2]),
                      'info': rng.random() < 0.5,
                      'args': rng.random() < 0.3}
                if rng.random() < 0.3:
                    op['npart'], op['psize'] = None, rng.choice([1, 2])
                if rng.random() < 0.3:
                    op['sel'] = rng.choice([
                        ['time', *sorted(names)], ['time', 'v1'],
                        ['v2', *sorted(names)[:1]]])
            else:
                op = {'op': kind}
            if kind in ('vadd', 'vdrop', 'vupdate') and rng.random() < 0.4 \
                    and op.get('func') != 'inc':
                horizon = rng.choice([4, 10, 25])
                if rng.random() < 0.7:
                    op['faults'] = gen.io_faults(rng, horizon)
                else:
                    op['faults'] = [{
                        'at': rng.randrange(horizon), 'n': 1,
                        'kind': 'crash',
                        'frac': rng.choice([0.0, 0.3, 0.5, 1.0])}]
                if rng.random() < 0.15:
                    op['faults'] = [{'at': 0, 'n': 1, 'kind': 'eio',
                                     'ops': list(faults.CREATING),
                                     'path': '.view'}]
                op['again'] = rng.choice(['same', 'new'])
            ops.append(op)
        spec['ops'] = ops
        return spec

    def run(self, w):
        user, vw = start(w)
        facts = {'failed': 0, 'crashed': 0, 'updates': 0, 'loads': 0}
        done = 0
        for op in w.spec['ops']:
            kind = op['op']
            if kind in ('insert', 'drop'):
                w.mutate_ok(user, op)
            elif kind == 'reopen':
                user = reopen(w, vw)
            elif kind == 'load':
                self.load(w, vw, user, op)
                facts['loads'] += 1
            elif kind == 'map':
                vw.check_map(user, vw.view, 'map', op)
            elif vw.possible(op):
                user = self.perform(w, vw, user, op, facts)
                done += 1
                facts['updates'] += kind == 'vupdate'
        vw.check_everywhere(user, 'final state')
        # the reference itself
        w.check_everywhere(user, 'reference')
        facts['nontrivial'] = done >= 2 and bool(vw.m.data)
        return facts

    def load(self, w, vw, user, op):
        view = vw.view
        if op['handle'] == 'new':
            user = w.user()
            view = vw.open(user)
        index = None
        if op.get('index') is not None:
            import random
            from .history import indexer_for
            index = indexer_for(
                random.Random(op['index']),
                {q: len(p['time']) for q, p in sorted(w.model.parts.items())})
        sel = op.get('sel')
        if sel is not None:
            have = set(vw.m.vars) | set(w.model.vars)
            sel = [n for n in sel if n in have] or None
        vw.check_load(user, view, 'load', op['filter'], sel, op['delayed'],
                      index)

    def perform(self, w, vw, user, op, facts):
        before = vw.m.clone()
        fn = vw.operation(vw.view, op)
        fails = False
        if op.get('fail') is not None:
            fails = self.expect_failure(w, vw, op)
        specs = [dict(f, group=user.name) if f['kind'] == 'crash' else f
                 for f in op.get('faults') or ()]
        plan = arm(w, specs)
        value, error = vw.call(user, fn, op['op'])
        plan.disarm()
        if error is None:
            settle(w, user, op['op'])
            if fails:
                raise Violation(f'{op["op"]}: the failure of the function is '
                                'not reported', 'update: silent failure')
            vw.apply(op, vw.m)
            vw.check_all(user, vw.view, op['op'])
            return user
        if is_crash(error):
            facts['crashed'] += 1
            w.sim.kill(user.name)
            user = reopen(w, vw)
        else:
            genuine(error)
            if not plan.fired and not fails:
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}', f'{op["op"]} failed') \
                    from error
            facts['failed'] += 1
            settle(w, user, f'failed {op["op"]}')
            other = w.user()
            view = vw.open(other)
            if op['op'] != 'vupdate':
                a = op['name'] in vw.view.metadata.variables
                b = op['name'] in view.metadata.variables
                if a != b:
                    raise Violation(
                        f'failed {op["op"]}: handle and configuration '
                        'disagree', f'failed {op["op"]}: disagree')
            self.others(vw, user, vw.view, before, op)
            self.others(vw, other, view, before, op)
            if op['again'] == 'new' if 'again' in op else False:
                user = reopen(w, vw)
        # again
        op = dict(op)
        op.pop('fail', None)
        listed = op.get('name') in vw.view.metadata.variables
        if op['op'] == 'vadd' and listed:
            vw.must(user, vw.operation(vw.view, dict(op, op='vdrop')),
                    'drop_variable of the half added variable')
        if op['op'] != 'vdrop' or listed:
            vw.must(user, vw.operation(vw.view, op), f'repeated {op["op"]}')
        vw.apply(op, vw.m)
        settle(w, user, op['op'])
        vw.check_all(user, vw.view, f'repeated {op["op"]}')
        return user

    def expect_failure(self, w, vw, op):
        """Does the update function fail on some window?"""
        ref = w.model
        qs = vw.m.listed(ref, op.get('filter'))
        depth = op.get('depth', 0)
        for i, q in enumerate(qs):
            first = qs[max(0, i - depth)]
            if int(model.nanos(ref.parts[first]['time'])[0]) >= op['fail']:
                return True
        return False

    def others(self, vw, user, view, before, op):
        """What a failed call does not target is unchanged."""
        target = set(op.get('names') or [op.get('name')])
        m = before.clone()
        names = [n for n in m.vars if n not in target]
        ref = list(vw.w.model.vars)
        if names:
            vw.check_load(user, view, f'failed {op["op"]}', m=m,
                          names=names + ref)
        vw.check_listing(user, view, f'failed {op["op"]}', m=m)
        if op['op'] == 'vupdate':
            selected = set(m.listed(vw.w.model, op.get('filter')))
            rest = [q for q in m.listed(vw.w.model) if q not in selected]
            if rest:
                vw.check_load(user, view, 'failed update: other partitions',
                              flt={'t': 'in', 'qs': rest}, m=m)


class ViewDeaths(Scenario):
    """Workers die during view operations, their tasks are run again."""
    id = 'C16'

    def gen(self, rng):
        spec = gen.config(rng, immutable=False)
        spec['cluster'] = {'nworkers': rng.choice([2, 3, 4]),
                           'nthreads': rng.choice([1, 1, 2]),
                           'processes': True}
        maxq = rng.choice([3, 4, 6])
        ver, state = gen_start(rng, spec, maxq)
        spec['names'] = sorted(rng.sample(vvars(spec), 2))
        spec['before'] = [gen_vupdate(rng, spec, maxq, spec['names'], True)
                          for _ in range(rng.choice([0, 1]))]
        kind = rng.choice(['vadd', 'vupdate', 'vupdate', 'vsync', 'vsync'])
        op = {'op': kind}
        if kind == 'vadd':
            op['name'] = sorted(set(vvars(spec)) - set(spec['names']))[0]
        elif kind == 'vupdate':
            op = gen_vupdate(rng, spec, maxq, spec['names'], True)
        else:
            spec['changes'] = [gen_change(rng, ver + 5 + i, maxq, spec, state)
                               for i in range(rng.choice([1, 1, 2]))]
        spec['op'] = op
        horizon = {'vadd': 15, 'vupdate': 20, 'vsync': 40}[kind]
        spec['faults'] = [
            {'at': rng.randrange(horizon), 'n': 1, 'kind': 'kill',
             'frac': rng.choice([0.0, 0.4, 1.0])}
            for _ in range(rng.choice([1, 1, 2, 3]))]
        return spec

    def run(self, w):
        user, vw = start(w)
        for name in w.spec['names']:
            op = {'op': 'vadd', 'name': name}
            vw.must(user, vw.operation(vw.view, op), 'vadd')
            vw.apply(op, vw.m)
        for op in w.spec['before']:
            if vw.possible(op):
                vw.must(user, vw.operation(vw.view, op), op['op'])
                vw.apply(op, vw.m)
        for op in w.spec.get('changes') or ():
            w.mutate_ok(user, op)
        op = w.spec['op']
        if not vw.possible(op):
            return {'nontrivial': False}
        before = vw.m.clone()
        plan = arm(w, w.spec['faults'])
        _, error = vw.call(user, vw.operation(vw.view, op), op['op'])
        plan.disarm()
        settle(w, user, op['op'])
        if error is not None:
            genuine(error)
            if not plan.fired:
                raise Violation(f'{op["op"]} failed without any fault: '
                                f'{describe(error)}', f'{op["op"]} failed') \
                    from error
        else:
            vw.apply(op, vw.m)
            vw.check_all(user, vw.view, f'{op["op"]} after worker deaths')
            vw.check_everywhere(user, 'after worker deaths')
        w.check_everywhere(user, 'reference after worker deaths')
        return {'nontrivial': plan.fired > 0, 'failed': error is not None,
                f'death in {op["op"]}': plan.fired}


class ViewWriters(Scenario):
    """Processes synchronising, or updating, one view at the same time with
    the same lock."""
    id = 'C03'
    max_steps = 600_000

    def gen(self, rng):
        spec = gen.config(rng, fs='posix', sync='proc', immutable=False)
        spec['policy']['p'] = rng.choice([0.02, 0.1, 0.3, 0.6])
        maxq = rng.choice([2, 3, 4])
        ver, state = gen_start(rng, spec, maxq)
        spec['names'] = sorted(rng.sample(vvars(spec), rng.choice([1, 2])))
        spec['before'] = [gen_vupdate(rng, spec, maxq, spec['names'], True)]
        spec['vkind'] = rng.choice(['vsync', 'vupdate', 'vupdate'])
        spec['changes'] = []
        if spec['vkind'] == 'vsync':
            spec['changes'] = [gen_change(rng, ver + 6 + i, maxq, spec, state)
                               for i in range(rng.choice([1, 2]))]
        spec['users'] = []
        for _ in range(rng.choice([2, 2, 3])):
            ops = [{'op': 'vsync'} if spec['vkind'] == 'vsync' else
                   gen_vupdate(rng, spec, maxq, spec['names'], True)
                   for _ in range(rng.choice([1, 1, 2]))]
            spec['users'].append({'ops': ops, 'cluster': {
                'nworkers': rng.choice([1, 2]),
                'nthreads': rng.choice([1, 1, 2]),
                'processes': rng.random() < 0.5}})
        return spec

    def run(self, w):
        from .writers import interleavings
        spec = w.spec
        user, vw = start(w)
        for op in [{'op': 'vadd', 'name': n} for n in spec['names']] + \
                spec['before']:
            if vw.possible(op):
                vw.must(user, vw.operation(vw.view, op), op['op'])
                vw.apply(op, vw.m)
        for op in spec['changes']:
            w.mutate_ok(user, op)
        todo = []
        for i, item in enumerate(spec['users']):
            other = w.user(f'P{i}', item['cluster'])
            view = vw.open(other)
            todo.append((other, view, [op for op in item['ops']
                                       if vw.possible(op)]))
        listener = vw.watch()
        threads = []
        for other, view, ops in todo:
            fns = [vw.operation(view, op) for op in ops]

            def body(fns=fns):
                return [fn() for fn in fns]

            threads.append((other, other.start(body, 'ops')))
        for _, thread in threads:
            w.sim.join(thread)
        vw.unwatch(listener, 'concurrent calls')
        for other, thread in threads:
            if thread.error is not None:
                genuine(thread.error)
                raise Violation(f'a concurrent call on a view failed: '
                                f'{describe(thread.error)}',
                                'concurrent call on a view failed') \
                    from thread.error
            settle(w, other, 'concurrent calls')
        if spec['vkind'] == 'vsync':
            changed = vw.m.sync(w.model)
            vw.check_everywhere(w.user(), 'concurrent syncs')
            return {'nontrivial': len(changed) > 0, 'view syncs': len(todo)}
        contended = self.outcome(w, vw, list(interleavings(
            [ops for _, _, ops in todo])))
        return {'nontrivial': contended > 0, 'view updates': len(todo),
                'contended view variables': contended}

    def outcome(self, w, vw, orders):
        """Each variable of each partition is what some order gives."""
        states = []
        for order in orders:
            m = vw.m.clone()
            for op in order:
                vw.apply(op, m)
            states.append(m)
        user = w.user()
        view = vw.open(user)

        def fn():
            zds = view.load(delayed=False)
            return None if zds is None else {
                n: stored(n, raw(zds.variables[n])) for n in vw.m.vars}

        found = vw.must(user, fn, 'View.load')
        qs = vw.m.listed(w.model)
        if not qs:
            return 0
        contended, first = 0, 0
        for q in qs:
            last = first + len(w.model.parts[q]['time'])
            for name in vw.m.vars:
                options = {m.data[q][1][name].tobytes(): m.data[q][1][name]
                           for m in states}
                contended += len(options) > 1
                if all(model.difference({name: v},
                                        {name: found[name][first:last]})
                       for v in options.values()):
                    raise Violation(
                        f'{name} in {w.layout.path(q)} of the view holds the '
                        'result of no serial order of the calls',
                        'view variable mixed')
            first = last
        return contended
