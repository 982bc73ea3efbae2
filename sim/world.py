"""The real side of a scenario: simulated user processes, their clusters, their
storage, and calls into the real zcollection API described by JSON ops."""
from __future__ import annotations

import datetime as real_datetime
import json

import dask.utils
import numcodecs
import numpy
import xarray

import zcollection
from zcollection import dataset, merging, meta, partitioning, sync

from . import cluster, faults, kernel, model, objstore, posix


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, what, sig=None, known=None):
        super().__init__(what)
        self.known = known  # key of the finding this may be an instance of
        self.what = what
        self.sig = sig or what.split(':')[0]


class Skip(Exception):
    """The generated case does not exercise the property."""


def describe(exc):
    text = str(exc).split('\n')[0][:200]
    return f'{type(exc).__name__}: {text}'


#: Names of variables, as attributes of datasets and metadata.
def attr_values(name):
    values = {'units': f'unit-{name}'}
    if name in ('v1', 'w2'):
        values['scale_hint'] = numpy.float64(0.5)
        values['flag_values'] = numpy.array([1, 2, 4], dtype='int8')
        values['valid_max'] = numpy.int16(len(name))
    return values


def attrs_of(name):
    return tuple(dataset.Attribute(k, v)
                 for k, v in attr_values(name).items())


def plain_attrs(name):
    return {k: getattr(v, 'tolist', lambda v=v: v)()
            for k, v in attr_values(name).items()}


def make_filter(world, flt, as_string=False):
    """The filter argument of an API call."""
    if flt is None:
        return None
    if flt['t'] == 'in':
        keys = [dict(world.layout.key(q)) for q in flt['qs']]
        return lambda item: dict(item) in keys
    if flt.get('call'):
        expr = flt['e']
        return lambda item: bool(eval(expr, {'__builtins__': {}}, dict(item)))
    return flt['e']


def codecs(name):
    """Storage properties of a variable."""
    if name == 'w2':
        return {'compressor': numcodecs.Zlib(level=1),
                'filters': (numcodecs.Delta(dtype='<i2'), )}
    if name == 'w3':
        return {'compressor': numcodecs.Blosc()}
    if name in ('a5', 'u4'):
        return {'compressor': numcodecs.BZ2(level=1),
                'filters': (numcodecs.Delta(dtype='<i2'), )}
    if name in ('a3', 'u3'):
        return {'compressor': numcodecs.GZip(level=2)}
    return {}


def check_codecs(name, var, what):
    """The variable is stored as it was declared."""
    want = codecs(name)
    found = (getattr(var, 'compressor', None),
             tuple(getattr(var, 'filters', None) or ()))
    if want and found != (want['compressor'], want.get('filters', ())):
        raise Violation(f'{what} codecs: {name} has {found}')


def stored(name, arr):
    """From the shape of the model to that of the variable."""
    return arr.T if name in model.TRANSPOSED else arr


def hide(arr, fill):
    """A masked array, with something else than the fill value under the
    mask."""
    if fill is None or fill != fill:
        return arr
    mask = arr == fill
    return numpy.ma.MaskedArray(numpy.where(mask, fill + 17, arr).astype(
        arr.dtype), mask=mask, fill_value=fill)


def make_dataset(world, op, m=None):
    layout = world.layout
    rows = model.expand(op['rows'])
    data = model.build(layout, op['ver'], rows, world.model.rich)
    for name in op.get('omit', ()):
        data.pop(name, None)
    if op['ver']:
        # variables dropped from the collection
        for name in set(data) - set(world.model.vars):
            data.pop(name)
    dims = {'v1': ('x', 'y')}
    dims.update((name, model.ANY[name][1]) for name in world.model.rich)
    fills = {name: item[2] for name, item in world.model.vars.items()}
    fills.update(model.FILL)
    data = {name: stored(name, arr) for name, arr in data.items()}
    if world.spec.get('immutable'):
        data['lut'] = model.lut(op['ver'])
        dims['lut'] = ('y', )
    if op.get('xr') and layout.dtype == 'M8[ns]':
        variables = {}
        for name, arr in data.items():
            var = xarray.Variable(dims.get(name, ('x', )), arr,
                                  attrs=attr_values(name))
            if fills.get(name) is not None:
                var.encoding['_FillValue'] = fills[name]
            var.encoding.update(codecs(name))
            variables[name] = var
        return xarray.Dataset(variables, attrs={'title': model.TITLE})
    handler = (dataset.DelayedArray if op.get('delayed', True) else
               dataset.Array)
    variables = []
    for name, arr in data.items():
        fill = fills.get(name)
        if op.get('masked'):
            arr = hide(arr, fill)
            if isinstance(arr, numpy.ma.MaskedArray):
                fill = None  # it is the one of the array
        variables.append(handler(
            name=name, data=arr, dimensions=dims.get(name, ('x', )),
            attrs=attrs_of(name), fill_value=fill, **codecs(name)))
    chunks = world.spec.get('chunks')
    return dataset.Dataset(
        variables, attrs=(dataset.Attribute('title', model.TITLE), ),
        chunks=[meta.Dimension(k, v) for k, v in (chunks or {}).items()])


def append(existing_ds, inserted_ds, axis, partitioning_dim, *, mark):
    """A merge of the user: only what follows the stored records."""
    if (axis, partitioning_dim, mark) != ('time', 'x', 'm'):
        raise Violation(f'merge called with {axis, partitioning_dim, mark}')
    last = existing_ds.variables[axis].values[-1]
    times = inserted_ds.variables[axis].values
    first = int(numpy.searchsorted(times, last, side='right'))
    if first == len(times):
        return existing_ds
    return existing_ds.concat(
        inserted_ds.isel({partitioning_dim: slice(first, None)}),
        partitioning_dim)


#: Arguments given to map, map_overlap and update for the function
ARGS = (7, ), {'tag': 'k'}


def with_args(func, wanted):
    """The function, or the same one with further arguments."""
    if not wanted:
        return func, (), {}
    if dask.utils.has_keyword(func, 'partition_info'):

        def wrapped(zds, num, *, tag, partition_info=None):
            if (num, tag) != (7, 'k'):
                raise Violation(f'the function got {(num, tag)}')
            return func(zds, partition_info=partition_info)
    else:

        def wrapped(zds, num, *, tag):
            if (num, tag) != (7, 'k'):
                raise Violation(f'the function got {(num, tag)}')
            return func(zds)

    return (wrapped, *ARGS)


def make_update(op, fills):
    """The function passed to update()."""
    func, arg = op['func'], op.get('arg', 0)
    trim = op.get('trim', True)
    names = op.get('names', ())
    needed = {'time', 'v2'} | ({'lut'} if func == 'lut' else set())
    fail = op.get('fail')

    def arrays(zds):
        return {name: raw(zds.variables[name]) for name in needed
                if name in zds.variables}

    def finish(values):
        values = {k: stored(k, v) for k, v in values.items()}
        if op.get('masked'):
            values = {k: hide(v, fills.get(k)) for k, v in values.items()}
        if op.get('lazy'):
            import dask.array
            return {k: dask.array.from_array(v, chunks=2)
                    for k, v in values.items()}
        return values

    def check(win):
        if fail is not None and int(model.nanos(win['time'])[0]) >= fail:
            raise ArithmeticError('update function failed')

    if op.get('depth', 0) and op.get('info', True):

        def updater(zds, partition_info=None):
            win = arrays(zds)
            check(win)
            dim, sl = partition_info
            assert dim == 'x'
            n = len(win['time'])
            values = model.apply_update(func, arg, win, sl.start,
                                        sl.stop - sl.start, fills, names)
            if not trim:
                values = {k: v[sl] for k, v in values.items()}
            return finish(values)
    else:

        def updater(zds):
            win = arrays(zds)
            check(win)
            values = model.apply_update(func, arg, win, 0, len(win['time']),
                                        fills, names)
            return finish(values)

    return updater


def raw(var):
    """Stored values of a variable."""
    values = var.values
    if isinstance(values, numpy.ma.MaskedArray):
        values = values.filled(var.fill_value)
    return numpy.asarray(values)


def extract(zds):
    """Arrays of a dataset, as the model has them."""
    return {name: stored(name, raw(var))
            for name, var in zds.variables.items()}


def access(zds, how, expected, what):
    """The loaded data, obtained in another way than variable by variable;
    None if compared here."""
    if how == 'compute':
        return zds.compute()
    if how == 'persist':
        return zds.persist()
    if how == 'compress':
        return zds.persist(compress=True)
    if how == 'rechunk':
        return zds.rechunk()
    if how not in ('xarray', 'dict', 'isel') or expected is None:
        return zds
    if how == 'xarray':
        data = zds.to_xarray(mask_and_scale=False, decode_times=False)
        found = {name: numpy.asarray(data[name].values)
                 for name in data.variables}
        if 'time' in found and 'time' in expected:
            # xarray has its own resolution
            found['time'] = found['time'].astype(expected['time'].dtype)
    elif how == 'dict':
        found = {}
        for name, arr in zds.to_dict().items():
            if isinstance(arr, numpy.ma.MaskedArray):
                arr = arr.filled(zds.variables[name].fill_value)
            found[name] = arr
    else:
        n = len(expected[next(k for k in expected if k != 'lut')])
        sl = slice(n // 3, n - n // 4)
        found = {name: raw(var)
                 for name, var in zds.isel({'x': sl}).variables.items()}
        expected = {name: arr if name == 'lut' else arr[sl]
                    for name, arr in expected.items()}
    found = {name: stored(name, arr) for name, arr in found.items()}
    diff = model.difference(expected, found)
    if diff:
        raise Violation(f'{what} returned wrong data ({how}): {diff}',
                        f'{what} wrong data')
    return None


class User:
    """One user process with its dask cluster."""

    def __init__(self, world, name, shape=None):
        self.world = world
        self.name = name
        sim = world.sim
        self.proc = sim.new_proc(name, group=name)
        shape = dict(world.spec['cluster'], **(shape or {}))
        self.cluster = cluster.SimCluster(
            sim, name, name, nworkers=shape['nworkers'],
            nthreads=shape['nthreads'], processes=shape['processes'],
            client_proc=self.proc)
        self.client = cluster.SimClient(self.cluster)
        self.h = None

    def call(self, fn):
        """(value, error) of fn run in this process."""
        return self.world.sim.call(self.proc, fn, client=self.client)

    def start(self, fn, name='call'):
        return self.world.sim.spawn(fn, f'{self.name}-{name}', self.proc,
                                    client=self.client)

    def sync(self):
        if self.world.spec.get('sync') == 'proc':
            return sync.ProcessSync(self.world.root + '/lock')
        return sync.NoSync()


def describe_handle(h):
    return json.dumps([h.axis, h.metadata.get_config(),
                       h.partitioning.get_config()], sort_keys=True,
                      default=str)


class World:

    def __init__(self, sim, spec, root):
        self.sim = sim
        self.spec = spec
        self.root = root
        self.layout = model.Layout(spec['part'], spec.get('unit', 'ns'))
        self.object = spec['fs'] == 'object'
        self.dir = spec.get('dir', '')
        self.name = spec.get('name', 'c')
        self.base = self.path(self.name)
        self.model = model.Model(self.layout, spec.get('immutable', False),
                                 spec.get('rich', ()))
        self.users = 0
        self.others = None

    def path(self, name):
        name = self.dir + name
        return f'bucket/{name}' if self.object else f'{self.root}/{name}'

    def fs(self):
        return (objstore.SimObjectFileSystem() if self.object else
                objstore.SimLocalFileSystem())

    def snapshot(self, name=None):
        where = self.path(self.name if name is None else name)
        return (objstore.snapshot(where) if self.object else
                posix.snapshot(where))

    def user(self, name=None, shape=None):
        self.users += 1
        return User(self, name or f'u{self.users}', shape)

    # ---- handles
    def partitioning(self):
        part = self.spec['part']
        if part in ('seqn', 'seqm'):
            return partitioning.Sequence(self.layout.names(),
                                         self.layout.key_types())
        if part.startswith('seq'):
            return partitioning.Sequence(self.layout.names())
        return partitioning.Date(('time', ), part[0])

    def create(self, user):
        op = {'rows': [[0, 0, 3, 1]], 'ver': 0}

        def fn():
            return zcollection.create_collection(
                'time', make_dataset(self, op), self.partitioning(),
                self.base, filesystem=self.fs(), synchronizer=user.sync())

        user.h = self.must(user, fn, 'create_collection')
        self.settle_neighbours()
        return user.h

    def settle_neighbours(self):
        """Other data stored beside the collection, under names that start
        like its own."""
        for name in ('-old', '.bak', 'c'):
            for item in ('.zcollection', f'{self.layout.path(0)}/time/0'):
                path = f'{self.base}{name}/{item}'
                if self.object:
                    objstore.STORE.objects[path] = (name.encode(), 0.0)
                else:
                    posix.store(path, name.encode())
        self.others = self.neighbours()

    def neighbours(self):
        return [(objstore.snapshot if self.object else posix.snapshot)(
            self.base + name) for name in ('-old', '.bak', 'c')]

    def open(self, user, mode='w', base=None):

        def fn():
            return zcollection.open_collection(
                base or self.base, mode=mode, filesystem=self.fs(),
                synchronizer=user.sync())

        return self.must(user, fn, 'open_collection')

    def must(self, user, fn, what):
        return self.must_known(user, fn, what)

    def must_known(self, user, fn, what, known=None):
        value, error = user.call(fn)
        if error is not None:
            if isinstance(error, (kernel.HarnessError, kernel.SimStop)):
                raise error
            if isinstance(error, Violation):
                raise error
            raise Violation(f'{what} failed: {describe(error)}',
                            f'{what} failed', known=known) from error
        return value

    # ---- mutating ops: (value, error)
    def mutation(self, user, op, h=None):
        """A function performing the op, to be run in the user process."""
        h = h or user.h
        kind = op['op']
        if kind == 'insert':

            def fn():
                kwargs = {}
                if op.get('merge') == 'append':
                    kwargs.update(merge_callable=append, mark='m')
                elif op.get('merge'):
                    kwargs['merge_callable'] = merging.merge_time_series
                    if op.get('tol') is not None:
                        kwargs['tolerance'] = numpy.timedelta64(
                            int(op['tol'] * self.layout.slot()), 'ns')
                return list(h.insert(
                    make_dataset(self, op), npartitions=op.get('npart'),
                    **kwargs))
        elif kind == 'drop':

            def fn():
                kwargs = {}
                if op.get('td') is not None:
                    kwargs['timedelta'] = real_datetime.timedelta(
                        seconds=op['td'])
                return list(h.drop_partitions(
                    filters=make_filter(self, op.get('filter')), **kwargs))
        elif kind == 'addvar':

            def fn():
                dtype, dims, fill = model.EXTRA[op['name']]
                return h.add_variable(meta.Variable(
                    op['name'], numpy.dtype(dtype), dimensions=dims,
                    attrs=attrs_of(op['name']), fill_value=fill,
                    **codecs(op['name'])))
        elif kind == 'dropvar':

            def fn():
                return h.drop_variable(op['name'])
        elif kind == 'update':
            fills = {k: v[2] for k, v in self.model.vars.items()}

            def fn():
                kwargs = {}
                for name in ('depth', 'trim', 'delayed'):
                    if name in op:
                        kwargs[name] = op[name]
                if op.get('npart'):
                    kwargs['npartitions'] = op['npart']
                if op.get('explicit'):
                    kwargs['variables'] = model.updated(op)
                if op.get('sel'):
                    kwargs['selected_variables'] = (
                        tuple if op.get('arg', 0) % 2 else list)(op['sel'])
                func, args, more = with_args(make_update(op, fills),
                                             op.get('args'))
                return h.update(func, *args,
                                filters=make_filter(self, op.get('filter')),
                                **kwargs, **more)
        elif kind == 'validate':

            def fn():
                return sorted(h.validate_partitions(
                    filters=make_filter(self, op.get('filter')),
                    fix=op.get('fix', False)))
        else:
            raise KeyError(kind)
        return fn

    def mutate(self, user, op, h=None):
        return user.call(self.mutation(user, op, h))

    def apply_model(self, op, m=None):
        m = m or self.model
        kind = op['op']
        if kind == 'insert':
            m.insert(op)
        elif kind == 'drop':
            m.drop(op)
        elif kind == 'addvar':
            m.addvar(op['name'])
        elif kind == 'dropvar':
            m.dropvar(op['name'])
        elif kind == 'update':
            m.update(op)
        return m

    def mutate_ok(self, user, op, h=None):
        """Perform an op that has to succeed, on both sides."""
        value = self.must(user, self.mutation(user, op, h), op['op'])
        self.check_result(op, value)
        self.apply_model(op)
        return value

    def check_result(self, op, value):
        """The value returned by a successful mutating call (before the model
        is advanced)."""
        if op['op'] == 'insert':
            want = [f'{self.base}/{self.layout.path(q)}'
                    for q in sorted({q for q, _ in model.expand(op['rows'])})]
            if list(value) != want:
                raise Violation(f'insert result: returned {value} instead of '
                                f'{want}')
        elif op['op'] == 'drop' and op.get('td') is None:
            want = [f'{self.base}/{self.layout.path(q)}'
                    for q in self.model.select(op.get('filter'))]
            if list(value) != want:
                raise Violation(f'drop result: returned {value} instead of '
                                f'{want}')

    # ---- observations
    def q_of(self, m=None):
        return {self.layout.key(q): q for q in range(60)}

    def contents(self, user, h, known=None):
        """{q: arrays} through the per-partition map; Violation on failure."""

        def fn():
            bag = h.map(extract, delayed=False)
            return bag.compute()

        def parts():
            return list(h.partitions())

        paths = self.must_known(user, parts, 'partitions', known)
        if not paths:
            return {}
        found = self.must_known(user, fn, 'map', known)
        table = self.q_of()
        out = {}
        for key, data in found:
            key = tuple((k, int(v)) for k, v in key)
            if key not in table:
                raise Violation(f'unknown partition: {key}')
            if table[key] in out:
                raise Violation(f'duplicate partition: {key}')
            out[table[key]] = data
        return out

    def with_lut(self, m, part):
        if m.lut is not None:
            return dict(part, lut=m.lut)
        return part

    def check_dataset(self, zds, expected, what, m=None):
        """Values, fill values and attributes of a loaded dataset."""
        m = m or self.model
        found = None if zds is None else extract(zds)
        diff = model.difference(expected, found)
        if diff:
            raise Violation(f'{what} returned wrong data: {diff}',
                            f'{what} wrong data')
        if zds is None:
            return
        for name, var in zds.variables.items():
            fill = None if name == 'lut' else m.vars[name][2]
            if (var.fill_value is None) != (fill is None) or (
                    fill is not None and
                    not model.same(var.fill_value, fill)):
                raise Violation(f'{what} fill value: {name} has '
                                f'{var.fill_value!r} instead of {fill!r}')
            values = var.values
            mask = numpy.ma.getmaskarray(values)
            want = (numpy.zeros(mask.shape, bool) if fill is None else
                    stored(name, expected[name]) == fill)
            if not numpy.array_equal(mask, want):
                raise Violation(f'{what} mask: {name} is not masked where it '
                                'holds the fill value')
            check_codecs(name, var, what)
            if name in model.RICH and \
                    tuple(var.dimensions) != model.RICH[name][1]:
                raise Violation(f'{what} dimensions: {name} has '
                                f'{var.dimensions}')

    def check_attrs(self, zds, what):
        if zds is None:
            return
        got = {a.name: a.value for a in zds.attrs}
        if got != {'title': model.TITLE}:
            raise Violation(f'{what} attributes: {got}')
        for name, var in zds.variables.items():
            got = {a.name: a.value for a in getattr(var, 'attrs', ())}
            if got != plain_attrs(name):
                raise Violation(f'{what} attributes: {name} has {got}')

    def check_partitions(self, user, h, flt=None, m=None, lock=False,
                         relative=False, what='partitions', cache=None):
        m = m or self.model
        kwargs = {}
        selected = m.select(flt)
        if cache is not None:
            # only these, in this order
            selected = [q for q in cache if q in selected]
            kwargs['cache'] = [f'{self.base}/{self.layout.path(q)}'
                               for q in cache if q in m.parts]

        def fn():
            return list(h.partitions(filters=make_filter(self, flt),
                                     lock=lock, relative=relative, **kwargs))

        found = self.must(user, fn, what)
        want = [self.layout.path(q) if relative else
                f'{self.base}/{self.layout.path(q)}' for q in selected]
        if found != want:
            raise Violation(f'{what}: listed {found} instead of {want}', what)

    def check_load(self, user, h, flt=None, sel=None, delayed=True, m=None,
                   what='load', how=None):
        m = m or self.model
        expected = m.whole(m.select(flt), sel)

        def fn():
            zds = h.load(filters=make_filter(self, flt), delayed=delayed,
                         selected_variables=sel)
            if zds is not None:
                for var in zds.variables.values():
                    if (type(var).__name__ == 'DelayedArray') != delayed:
                        raise Violation(f'{what}: laziness of {var.name}')
                zds = access(zds, how, expected, what)
                if zds is not None and zds.delayed:
                    extract(zds)
            elif expected is not None:
                raise Violation(f'{what} returned wrong data: no data',
                                f'{what} wrong data')
            return zds

        zds = self.must(user, fn, what)
        if how in ('xarray', 'dict', 'isel'):
            return
        _, error = user.call(
            lambda: (self.check_dataset(zds, expected, what, m),
                     self.check_attrs(zds, what)))
        if error is not None:
            raise error

    def check_state(self, user, h, m=None, what='state'):
        """Complete comparison, partition by partition, with the model."""
        m = m or self.model
        self.check_partitions(user, h, m=m, what=f'{what} partitions')
        found = self.contents(user, h)
        for q in m.parts:
            if q not in found:
                raise Violation(f'{what}: partition {self.layout.path(q)} is '
                                'missing', f'{what} missing partition')
            diff = model.difference(self.with_lut(m, m.parts[q]), found[q])
            if diff:
                raise Violation(f'{what}: partition {self.layout.path(q)}: '
                                f'{diff}', f'{what} partition content')
        if set(found) - set(m.parts):
            raise Violation(f'{what}: extra partitions')
        want = set(m.vars) | ({'lut'} if m.has_lut else set())
        if set(h.metadata.variables) != want:
            raise Violation(f'{what} metadata: {sorted(h.metadata.variables)} '
                            f'instead of {sorted(want)}')

    def check_everywhere(self, user, what='state', m=None):
        """Through the handle, and through a handle reopened by another
        process."""
        if self.others is not None and self.neighbours() != self.others:
            raise Violation(f'{what}: the data stored beside the collection '
                            'changed', f'{what}: neighbours changed')
        self.check_state(user, user.h, m=m, what=what)
        other = self.user()
        h = self.open(other, mode='r')
        if describe_handle(user.h) != describe_handle(h):
            raise Violation(f'{what}: the stored description is not the one '
                            'of the handle', f'{what}: description')
        self.check_state(other, h, m=m, what=f'{what} (reopened)')
        self.check_load(other, h, m=m, what=f'{what} load (reopened)')
