"""Small executable reference model: what a history of calls implies.

It shares no code with zcollection. Partitions are identified by an integer
``q`` (position in key order), records by ``(q, r)``: ``r`` is the time slot in
the partition. Stored values are deterministic functions of the version that
wrote them, so any mix-up of versions, partitions, records or variables shows.
"""
from __future__ import annotations

import copy
import datetime

import numpy

NY = 2
NZ = 3
SLOTS = 24
NS_HOUR = 3_600_000_000_000
NS_DAY = 24 * NS_HOUR
FILL = {'v1': -1.0, 'v2': -9, 'v3': None}
TITLE = 'simulated'

#: name -> (dtype, dims, fill) of the variables that can be added
EXTRA = {
    'a1': ('float64', ('x', 'y'), -5.0),
    'a2': ('int32', ('x', ), 77),
    'a3': ('float32', ('x', ), 1.5),
    'a4': ('int64', ('x', 'y'), -3),
    'a5': ('int16', ('x', ), 0),
    'a6': ('float64', ('x', ), float('nan')),
}

#: Variables that a configuration may add to the base ones. The model keeps
#: the arrays with the partitioning dimension first.
RICH = {
    'w1': ('float32', ('y', 'x'), 0.0),
    'w2': ('int16', ('x', ), 0),
    'w3': ('float64', ('x', 'z'), float('nan')),
    'w4': ('S5', ('x', ), None),
    'w5': ('bool', ('x', ), None),
}
SIZES = {'y': NY, 'z': NZ, 'b': 450_000}
#: A variable with large incompressible chunks
BIG = {'w6': ('uint8', ('x', 'b'), None)}
ANY = {**RICH, **BIG}
#: Variables whose partitioning dimension is not the first one.
TRANSPOSED = ('w1', 'u6')


def shape(dims, n):
    """Shape of an array of the model."""
    return (n, ) + tuple(SIZES[d] for d in dims if d != 'x')


def same(a, b):
    return a == b or (a != a and b != b)


def ns(text):
    return int(numpy.datetime64(text, 'ns').astype('int64'))


def nanos(arr):
    """Dates as nanoseconds since 1970."""
    return arr.astype('M8[ns]').astype('int64')


class Layout:
    """Partitioning layout: q <-> key <-> directory, (q, r) <-> time."""

    def __init__(self, part, unit='ns'):
        self.part = part
        # of the time axis
        self.dtype = f'M8[{unit}]'

    def key_types(self):
        """Types of the variables that are partitioning keys."""
        if self.part == 'seqn':
            return ('int16', )
        if self.part == 'seqm':
            return ('int8', 'uint8')
        return ('int64', ) * len(self.names())

    def key(self, q):
        if self.part == 'seq1':
            return (('cyc', 8 + q), )
        if self.part == 'seq2':
            return (('cyc', 9 + q // 3), ('pas', 9 + q % 3))
        if self.part == 'seqn':
            return (('cyc', q - 3), )
        if self.part == 'seqm':
            return (('cyc', q // 3 - 1), ('pas', 253 + q % 3))
        if self.part == 'seq3':
            return (('cyc', 9 + q // 4), ('pas', 98 + q // 2 % 2),
                    ('sub', 9 + q % 2))
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            microseconds=self.time(q, 0) // 1000)
        fields = (('year', t.year), ('month', t.month), ('day', t.day),
                  ('hour', t.hour), ('minute', t.minute),
                  ('second', t.second))
        return fields[:'YMDhms'.index(self.part[0]) + 1]

    def path(self, q):
        if self.part.startswith('seq'):
            return '/'.join(f'{k}={v}' for k, v in self.key(q))
        return '/'.join(f'{k}={v:02d}' for k, v in self.key(q))

    def time(self, q, r):
        if self.part == 'D':
            return ns('2000-01-29') + q * NS_DAY + r * NS_HOUR
        if self.part == 'De':
            # around the epoch
            return ns('1969-12-29') + q * NS_DAY + r * NS_HOUR
        if self.part == 'h':
            return ns('2000-01-31T22') + q * NS_HOUR + r * 120_000_000_000
        if self.part == 'm':
            return ns('2000-01-31T23:57') + (q * 60 + r * 2) * 1_000_000_000
        if self.part == 's':
            return (ns('2000-02-29T23:59:57') +
                    (q * 1000 + r * 40) * 1_000_000)
        if self.part == 'M':
            month = numpy.datetime64('1999-11', 'M') + q
            return (int(month.astype('M8[ns]').astype('int64')) +
                    r * 28 * NS_HOUR)
        if self.part == 'Y':
            year = numpy.datetime64('1998', 'Y') + q
            return (int(year.astype('M8[ns]').astype('int64')) +
                    r * 14 * NS_DAY)
        return ns('2000-01-01') + q * NS_DAY + r * NS_HOUR

    def slot(self):
        """Distance between consecutive slots, in ns."""
        return self.time(0, 1) - self.time(0, 0)

    def names(self):
        return tuple(k for k, _ in self.key(0))


def cell(var, ver, q, r, y=0):
    """The value stored for a cell; sometimes the fill value itself."""
    mix = (ver * 7 + q * 5 + r * 3 + y) % 11
    if var == 'v1':
        if mix == 0:
            return FILL['v1']
        return ver * 1000 + q * 30 + r + y * 0.25
    if var == 'v2':
        if mix in (1, 2):
            return FILL['v2']
        return ver * 10000 + q * 100 + r
    if var == 'v3':
        return ver * 100 + q + r * 0.5
    if var == 'w1':
        return FILL_W[var] if mix == 3 else ver * 50 + q * 7 + r + y * 0.5
    if var == 'w2':
        return FILL_W[var] if mix in (4, 5) else ver * 100 + q * 9 - r
    if var == 'w3':
        return FILL_W[var] if mix == 6 else ver * 11 + q * 3 + r * 0.5 + y
    if var == 'w4':
        return b'%d.%d' % (ver % 100, (q * 24 + r) % 100)
    if var == 'w5':
        return (ver + q + r) % 2 == 0
    raise KeyError(var)


FILL_W = {name: item[2] for name, item in RICH.items()}


def lut(ver):
    return numpy.array([ver * 10.0 + y for y in range(NY)])


def build(layout, ver, rows, rich=()):
    """Arrays of all base variables for a list of (q, r)."""
    n = len(rows)
    out = {
        'time': numpy.array([layout.time(q, r) for q, r in rows],
                            dtype='int64').astype('M8[ns]').astype(layout.dtype),
        'v1': numpy.array([[cell('v1', ver, q, r, y) for y in range(NY)]
                           for q, r in rows], dtype='float64').reshape(n, NY),
        'v2': numpy.array([cell('v2', ver, q, r) for q, r in rows],
                          dtype='int32'),
        'v3': numpy.array([cell('v3', ver, q, r) for q, r in rows],
                          dtype='float32'),
    }
    for name in rich:
        dtype, dims, _ = ANY[name]
        if name in BIG:
            out[name] = numpy.stack([
                numpy.random.default_rng([ver, q, r]).integers(
                    0, 256, SIZES['b'], dtype='uint8') for q, r in rows])
            continue
        if len(dims) == 1:
            values = [cell(name, ver, q, r) for q, r in rows]
        else:
            values = [[cell(name, ver, q, r, y)
                       for y in range(shape(dims, n)[1])] for q, r in rows]
        out[name] = numpy.array(values, dtype=dtype).reshape(shape(dims, n))
    if layout.part.startswith('seq'):
        for name, dtype in zip(layout.names(), layout.key_types()):
            out[name] = numpy.array([dict(layout.key(q))[name]
                                     for q, _ in rows], dtype=dtype)
    return out


def expand(rows):
    """[[q, r0, n, step], ...] -> sorted unique [(q, r)]."""
    out = set()
    for q, r0, n, step in rows:
        for i in range(n):
            r = r0 + i * step
            if r < SLOTS:
                out.add((q, r))
    return sorted(out)


def take(part, index):
    return {k: v[index] for k, v in part.items()}


def concat(parts):
    return {k: numpy.concatenate([p[k] for p in parts]) for k in parts[0]}


def merge(old, new, tol):
    """Independent merge oracle (tol in ns or None)."""
    t_old = nanos(old['time'])
    t_new = nanos(new['time'])
    periods = []
    start = 0
    for i in range(1, len(t_new) + 1):
        if i == len(t_new) or (tol is not None and
                               t_new[i] - t_new[i - 1] > tol):
            periods.append((t_new[start], t_new[i - 1]))
            start = i
    keep = numpy.array([not any(a <= t <= b for a, b in periods)
                        for t in t_old], dtype=bool)
    both = concat([take(old, keep), new])
    return take(both, numpy.argsort(both['time'], kind='stable'))


class Model:

    def __init__(self, layout, immutable=False, rich=()):
        self.layout = layout
        self.parts = {}  # q -> {var: array}
        self.rich = tuple(rich)
        self.vars = {  # name -> (dtype, dims, fill)
            'time': (layout.dtype, ('x', ), None),
            'v1': ('float64', ('x', 'y'), FILL['v1']),
            'v2': ('int32', ('x', ), FILL['v2']),
            'v3': ('float32', ('x', ), None),
        }
        self.vars.update((name, ANY[name]) for name in self.rich)
        if layout.part.startswith('seq'):
            for name, dtype in zip(layout.names(), layout.key_types()):
                self.vars[name] = (dtype, ('x', ), None)
        self.has_lut = immutable
        self.lut = None

    def clone(self):
        return copy.deepcopy(self)

    # ---- selection
    def select(self, flt):
        return [q for q in sorted(self.parts) if matches(self.layout, flt, q)]

    # ---- mutations
    def incoming(self, op):
        """{q: arrays} of the dataset an insert op brings, completed."""
        rows = expand(op['rows'])
        out = {}
        for q in sorted({q for q, _ in rows}):
            mine = [(a, r) for a, r in rows if a == q]
            part = build(self.layout, op['ver'], mine, self.rich)
            for name in op.get('omit', ()):
                part.pop(name, None)
            for name, (dtype, dims, fill) in self.vars.items():
                if name not in part:
                    part[name] = numpy.full(shape(dims, len(mine)), fill,
                                            dtype=dtype)
            for name in list(part):
                if name not in self.vars:
                    del part[name]
            out[q] = part
        return out

    def insert(self, op):
        if self.has_lut and self.lut is None:
            self.lut = lut(op['ver'])
        for q, part in self.incoming(op).items():
            self.parts[q] = self.put(self.parts.get(q), part, op)

    def put(self, old, new, op):
        if old is None or not op.get('merge'):
            return new
        if op['merge'] == 'append':
            return concat([old, take(new, new['time'] > old['time'][-1])])
        tol = op.get('tol')
        return merge(old, new,
                     None if tol is None else tol * self.layout.slot())

    def drop(self, op):
        for q in self.select(op.get('filter')):
            del self.parts[q]

    def addvar(self, name):
        dtype, dims, fill = EXTRA[name]
        self.vars[name] = (dtype, dims, fill)
        for part in self.parts.values():
            n = len(part['time'])
            part[name] = numpy.full(shape(dims, n), fill, dtype=dtype)

    def dropvar(self, name):
        self.vars.pop(name)
        for part in self.parts.values():
            part.pop(name, None)

    def update(self, op):
        """Returns {q: {var: array}} and applies it."""
        selected = self.select(op.get('filter'))
        out = {}
        for i, q in enumerate(selected):
            depth = op.get('depth', 0)
            lo, hi = max(0, i - depth), min(len(selected), i + depth + 1)
            window = concat([self.parts[k] for k in selected[lo:hi]])
            window['lut'] = self.lut
            start = sum(len(self.parts[k]['time']) for k in selected[lo:i])
            size = len(self.parts[q]['time'])
            fills = {k: v[2] for k, v in self.vars.items()}
            values = apply_update(op['func'], op.get('arg', 0), window, start,
                                  size, fills, op.get('names', ()))
            out[q] = {
                k: numpy.asarray(v[start:start + size]).astype(
                    self.vars[k][0]) for k, v in values.items()}
        for q, values in out.items():
            self.parts[q] = dict(self.parts[q], **values)
        return out

    # ---- expected observations
    def whole(self, qs=None, names=None):
        """Concatenated content of partitions in key order, or None."""
        qs = sorted(self.parts) if qs is None else sorted(qs)
        if not qs:
            return None
        data = concat([self.parts[q] for q in qs])
        if names is not None:
            data = {k: v for k, v in data.items() if k in names}
        if self.lut is not None and (names is None or 'lut' in names):
            data['lut'] = self.lut
        return data


def apply_update(func, arg, win, start, size, fills, names=()):
    """The update functions, on plain arrays of the extended window. 'names'
    are variables of the rich configurations to update as well."""
    out = apply_base(func, arg, win, start, size, fills)
    hollow = win['v2'] == fills.get('v2')
    v2 = win['v2'].astype('float64')
    for name in names:
        dtype, dims, fill = RICH[name]
        base = numpy.where(hollow, fill, v2 % 500 + arg + 1)
        if len(dims) > 1:
            base = numpy.stack([numpy.where(hollow, fill, base + y)
                                for y in range(SIZES[dims[0]])], axis=1)
        out[name] = base.astype(dtype)
    return out


def updated(op):
    """Names of the variables an update writes."""
    return UPDATED[op['func']] + tuple(op.get('names', ()))


def apply_base(func, arg, win, start, size, fills):
    f2 = fills.get('v2')
    v2 = win['v2'].astype('float64') if 'v2' in win else None
    n = len(win['time'])
    if func == 'set':  # v1 from v2 of the same records
        res = numpy.where((win['v2'] == f2), fills['v1'], v2 * 2 + arg)
        return {'v1': numpy.stack([res + 0 * y for y in range(NY)], axis=1)}
    if func == 'lut':  # with a variable of the immutable dataset
        return {'v1': numpy.stack([v2 + arg + win['lut'][y]
                                   for y in range(NY)], axis=1)}
    if func == 'inc':  # reads what it writes
        return {'v2': numpy.where(win['v2'] == f2, f2, win['v2'] + arg)}
    if func == 'two':  # two variables at once
        return {'v3': (nanos(win['time']) // NS_HOUR % 1000 +
                       arg).astype('float32'),
                'v1': numpy.stack([numpy.arange(n) * 0.0 + v2 + arg + y
                                   for y in range(NY)], axis=1)}
    if func == 'sum':  # depends on the whole window through v2 only
        total = float(v2.sum()) + 1000.0 * n
        res = total + v2
        return {'v1': numpy.stack([res + y for y in range(NY)], axis=1)}
    raise KeyError(func)


UPDATED = {'set': ('v1', ), 'inc': ('v2', ), 'two': ('v3', 'v1'),
           'sum': ('v1', ), 'lut': ('v1', )}


def matches(layout, flt, q):
    """Does the partition filter select q?"""
    if flt is None:
        return True
    keys = dict(layout.key(q))
    if flt['t'] == 'in':
        return q in flt['qs']
    return bool(eval(flt['e'], {'__builtins__': {}}, keys))


def difference(expected, found, fills=None):
    """None if equal, else a description. Both {name: array}."""
    if expected is None or found is None:
        if expected is None and found is None:
            return None
        return (f'expected {"no data" if expected is None else "data"}, '
                f'found {"no data" if found is None else "data"}')
    if set(expected) != set(found):
        return (f'variables {sorted(found)} instead of {sorted(expected)}')
    for name in sorted(expected, key=lambda k: (k != 'time', k)):
        a, b = expected[name], found[name]
        if a.shape != b.shape:
            return f'{name}: shape {b.shape} instead of {a.shape}'
        if a.dtype != b.dtype:
            return f'{name}: dtype {b.dtype} instead of {a.dtype}'
        wrong = a != b
        if a.dtype.kind == 'f':
            wrong &= ~((a != a) & (b != b))
        if wrong.any():
            where = tuple(int(i[0]) for i in numpy.nonzero(wrong))
            return (f'{name}{list(where)} is {b[where]!r} instead of '
                    f'{a[where]!r}')
    return None
