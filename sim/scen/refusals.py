"""C22: a refused call changes nothing."""
from __future__ import annotations

import numpy
import zcollection
from zcollection import dataset, merging, meta, partitioning
from zcollection.view import ViewReference

from .base import *
from ..world import attrs_of, describe_handle, make_dataset
from . import views

#: Calls on a collection that have to be refused, whatever its state.
CALLS = ('unknown-variable', 'unordered', 'no-partitions', 'other-metadata',
         'update-unknown', 'update-depth', 'update-func', 'update-filter',
         'drop-filter', 'load-filter', 'drop-unknown', 'drop-key', 'drop-axis',
         'drop-lut', 'add-existing', 'add-no-dim', 'add-other-dim',
         'add-permuted',
         'copy-on-itself', 'map-func', 'create-axis', 'create-key', 'open-none',
         'view-none')
#: The same on a view
VCALLS = ('vadd-reference', 'vadd-existing', 'vadd-other-dim', 'vdrop-unknown',
          'vdrop-reference', 'vupdate-reference', 'vupdate-unknown',
          'vload-empty', 'vupdate-empty', 'vupdate-depth',
          'vadd-permuted')


def variable(name, dims, dtype='float64'):
    return meta.Variable(name, numpy.dtype(dtype), dimensions=dims,
                         attrs=attrs_of(name), fill_value=0)


def build(w, op):
    """A dataset that does not suit the collection."""
    zds = make_dataset(w, dict(op, delayed=op['delayed']))
    handler = dataset.DelayedArray if op['delayed'] else dataset.Array
    kind = op['call']
    if kind == 'unknown-variable':
        n = len(model.expand(op['rows']))
        zds.variables['odd'] = handler(name='odd', data=numpy.zeros(n),
                                       dimensions=('x', ))
    elif kind == 'unordered':
        variables = []
        for var in zds.variables.values():
            arr = numpy.asarray(var.array)
            if 'x' in var.dimensions:
                arr = numpy.flip(arr, axis=var.dimensions.index('x'))
            variables.append(handler(
                name=var.name, data=arr, dimensions=var.dimensions,
                attrs=var.attrs, fill_value=var.fill_value,
                compressor=var.compressor, filters=var.filters))
        zds = dataset.Dataset(variables, attrs=zds.attrs, chunks=zds.chunks)
    elif kind == 'other-metadata':
        var = zds.variables['v3']
        zds.variables['v3'] = handler(
            name='v3', data=numpy.asarray(var.array).astype('float64'),
            dimensions=var.dimensions, attrs=var.attrs)
    return zds


def refused_call(w, user, h, op):
    """The function to call, or None if it is not refused in this state."""
    kind = op['call']
    m = w.model
    kwargs = {}
    if op.get('merge'):
        kwargs['merge_callable'] = merging.merge_time_series
    if kind == 'unordered' and len({q for q, _ in model.expand(
            op['rows'])}) < 2:
        return None
    if kind in ('unknown-variable', 'unordered'):
        return lambda: list(h.insert(build(w, op), **kwargs))
    if kind == 'other-metadata':
        return lambda: list(h.insert(build(w, op), validate=True, **kwargs))
    if kind == 'no-partitions':
        return lambda: list(h.insert(build(w, op), npartitions=op['n'],
                                     **kwargs))
    if kind == 'update-unknown':

        def odd(zds):
            shape = zds.variables['v2'].shape
            out = {'odd': numpy.zeros(shape)}
            if op['n']:
                out['v2'] = numpy.zeros(shape, 'int32')
            return out

        return (lambda: h.update(odd)) if m.parts else None
    if kind == 'update-depth':
        return (lambda: h.update(lambda zds: {
            'v2': zds.variables['v2'].values * 0}, depth=-1)) \
            if m.parts else None
    if kind == 'update-func':
        return lambda: h.update('v2')
    if kind == 'map-func':
        return lambda: (h.map(None) if op['n'] else h.map_overlap(
            3, depth=1)).compute()
    # a filter naming something else than the keys
    if kind == 'update-filter':
        return (lambda: h.update(lambda zds: {
            'v2': zds.variables['v2'].values * 0}, filters='odd == 1',
            variables=('v2', ))) if m.parts else None
    if kind == 'drop-filter':
        return (lambda: list(h.drop_partitions(filters='odd == 1'))) \
            if m.parts else None
    if kind == 'load-filter':
        return (lambda: h.load(filters='odd == 1')) if m.parts else None
    if kind == 'drop-unknown':
        return lambda: h.drop_variable('odd')
    if kind == 'drop-key':
        return lambda: h.drop_variable(
            w.partitioning().variables[0])
    if kind == 'drop-axis':
        return lambda: h.drop_variable('time')
    if kind == 'drop-lut':
        return (lambda: h.drop_variable('lut')) if m.has_lut else None
    if kind == 'add-existing':
        return lambda: h.add_variable(variable('v1', ('x', 'y')))
    if kind == 'add-no-dim':
        return lambda: h.add_variable(variable('odd', ('y', )))
    if kind == 'add-other-dim':
        return lambda: h.add_variable(variable('odd', ('x', 'odd')))
    if kind == 'add-permuted':
        # accepted if another variable has these dimensions
        return (lambda: h.add_variable(variable('odd', ('y', 'x')))) \
            if m.parts and 'w1' not in m.vars else None
    if kind == 'copy-on-itself':
        return lambda: h.copy(w.base)
    # elsewhere: nothing is created there
    other = w.path('other')
    if kind in ('create-axis', 'create-key'):
        key = partitioning.Sequence(('odd', ))
        return lambda: zcollection.create_collection(
            'odd' if kind == 'create-axis' else 'time', build(w, op),
            w.partitioning() if kind == 'create-axis' else key, other,
            filesystem=w.fs(), synchronizer=user.sync())
    if kind == 'open-none':
        return lambda: zcollection.open_collection(
            other, mode='w' if op['n'] else 'r', filesystem=w.fs(),
            synchronizer=user.sync())
    if kind == 'view-none':
        if op['n']:
            return lambda: zcollection.create_view(
                w.path('other-view'), ViewReference(other, w.fs()),
                filesystem=w.fs(), synchronizer=user.sync())
        return lambda: zcollection.open_view(
            other, filesystem=w.fs(), synchronizer=user.sync())
    raise KeyError(kind)


def refused_view_call(w, vw, op):
    kind = op['call']
    view, m = vw.view, vw.m
    full = [q for q in m.listed(w.model, None)]
    if kind == 'vadd-reference':
        return lambda: view.add_variable(variable('v1', ('x', 'y')))
    if kind == 'vadd-existing':
        name = sorted(m.vars)[0] if m.vars else None
        return (lambda: view.add_variable(variable(
            name, views.VVARS[name][1]))) if name else None
    if kind == 'vadd-other-dim':
        return lambda: view.add_variable(variable('odd', ('x', 'odd')))
    if kind == 'vadd-permuted':
        # known dimensions, but not those of a variable of the reference
        return (lambda: view.add_variable(variable('odd', ('y', 'x')))) \
            if 'w1' not in w.model.vars else None
    if kind == 'vdrop-unknown':
        return lambda: view.drop_variable('odd')
    if kind == 'vdrop-reference':
        return lambda: view.drop_variable('v2')
    if kind in ('vupdate-reference', 'vupdate-unknown'):
        if not full or not m.vars or not m.clean(w.model, full):
            return None
        target = 'v2' if kind == 'vupdate-reference' else 'odd'
        extra = sorted(m.vars)[0] if op['n'] else None

        def odd(zds):
            shape = zds.variables['v2'].shape
            out = {target: numpy.zeros(shape, 'int32')}
            if extra:
                out[extra] = numpy.zeros(zds.variables[extra].shape)
            return out

        return lambda: view.update(odd)
    if kind == 'vupdate-depth':
        if not full or not m.vars or not m.clean(w.model, full):
            return None
        name = sorted(m.vars)[0]
        return lambda: view.update(lambda zds: {
            name: zds.variables[name].values * 0}, depth=-1)
    if kind == 'vload-empty':
        return None if m.vars else (lambda: view.load())
    if kind == 'vupdate-empty':
        return None if m.vars else (lambda: view.update(
            lambda zds: {'odd': 1}))
    raise KeyError(kind)


class Refusals(Scenario):
    id = 'C22'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = rng.choice([3, 5, 6])
        spec['view'] = rng.random() < 0.4
        if spec['view']:
            spec['immutable'] = False
        ver = 1
        ops = []
        made = False
        for i in range(rng.randint(3, 7)):
            kind = rng.choices(['bad', 'insert', 'addvar', 'dropvar', 'drop',
                                'update', 'reopen', 'view'],
                               [6, 2.5, 0.7, 0.7, 0.7, 1, 0.5,
                                3 if spec['view'] else 0])[0]
            if kind == 'insert':
                ops.append(gen.insert(rng, ver, 4, maxq))
                ver += 1
            elif kind == 'addvar':
                name = rng.choice(sorted(model.EXTRA))
                if not spec['view']:
                    ops.append({'op': 'addvar', 'name': name})
            elif kind == 'dropvar':
                if not spec['view']:
                    ops.append({'op': 'dropvar',
                                'name': rng.choice(sorted(model.EXTRA))})
            elif kind == 'drop':
                ops.append({'op': 'drop',
                            'filter': gen.flt(rng, spec['part'], maxq)})
            elif kind == 'update':
                ops.append(gen.update(rng, spec, maxq))
            elif kind == 'reopen':
                ops.append({'op': 'reopen'})
            elif kind == 'view':
                if not made or rng.random() < 0.2:
                    ops.append({'op': 'vcreate'} if not made else
                               {'op': 'vsync', 'filter': None})
                    made = True
                else:
                    ops.append({'op': rng.choice(['vadd', 'vadd', 'vdrop']),
                                'name': rng.choice(sorted(views.VVARS)[:3])})
            else:
                names = CALLS
                if made and rng.random() < 0.7:
                    names = VCALLS
                ops.append({
                    'op': 'bad', 'call': rng.choice(names), 'ver': 80 + i,
                    'rows': gen.rows(rng, 4, maxq),
                    'delayed': rng.random() < 0.5,
                    'merge': rng.random() < 0.3,
                    'n': rng.choice([0, 0, -1, -3])})
        spec['ops'] = ops
        return spec

    def run(self, w):
        user = w.user('A')
        w.create(user)
        vw = None
        bad = 0
        for op in w.spec['ops']:
            kind = op['op']
            if kind == 'bad':
                bad += self.refuse(w, user, vw, op)
            elif kind in ('insert', 'drop', 'addvar', 'dropvar', 'update'):
                if kind == 'dropvar' and op['name'] not in w.model.vars:
                    continue
                if kind == 'addvar' and op['name'] in w.model.vars:
                    continue
                if kind == 'update' and (
                        not w.model.select(op['filter']) or
                        op['func'] == 'lut' and w.model.lut is None):
                    continue
                w.mutate_ok(user, op)
            elif kind == 'reopen':
                user = w.user()
                user.h = w.open(user)
                if vw is not None:
                    vw.view = vw.open(user)
            elif kind == 'vcreate':
                if w.model.parts:
                    vw = views.ViewWorld(w, user)
                    vw.create(user, None)
            elif vw is not None and vw.possible(op):
                vw.must(user, vw.operation(vw.view, op), kind)
                vw.apply(op, vw.m)
        w.check_everywhere(user)
        if vw is not None:
            vw.check_all(user, vw.view, 'finally')
            vw.check_all(user, vw.open(user), 'finally (reopened)')
        return {'nontrivial': bad > 0, 'refused': bad}

    def refuse(self, w, user, vw, op):
        kind = op['call']
        if kind in VCALLS:
            fn = None if vw is None else refused_view_call(w, vw, op)
        else:
            fn = refused_call(w, user, user.h, op)
        if fn is None:
            return 0

        def state():
            out = [w.snapshot(), describe_handle(user.h),
                   w.snapshot('other'), w.snapshot('other-view')]
            if vw is not None:
                out += [w.snapshot('v'), str(vw.view.metadata.get_config())]
            return out

        before = state()
        value, error = user.call(fn)
        if error is None and kind in ('add-permuted', 'vadd-permuted'):
            # nothing says that it has to be refused
            w.must(user, lambda: (vw.view if kind in VCALLS else
                                  user.h).drop_variable('odd'), kind)
            return 0
        if error is None:
            raise Violation(f'{kind} is not refused', f'{kind} not refused')
        genuine(error)
        settle(w, user, kind)
        after = state()
        for what, a, b in zip(('storage of the collection', 'handle',
                               'other directory', 'other view directory',
                               'storage of the view', 'view handle'),
                              before, after):
            if a != b:
                diff = ''
                if isinstance(a, dict):
                    diff = sorted(set(a.items()) ^ set(b.items()),
                                  key=str)[:2] if all(
                        isinstance(v, (bytes, str, type(None)))
                        for v in [*a.values(), *b.values()]) else ''
                raise Violation(f'{kind}, refused ({describe(error)}), '
                                f'changed the {what} {str(diff)[:200]}',
                                f'{kind} changed the {what}')
        return 1
