"""C11: an index updated incrementally answers like a scan."""
from __future__ import annotations

import functools

import numpy
import pyarrow.compute
from zcollection.indexing import abc as indexing

from .base import *
from .faulty import gen_setup
from ..world import extract, raw


def classes(v2, nclass):
    """Class of each record; records of class -1 are not indexed."""
    return v2.astype('int64') % 97 % (nclass + 1) - 1


def runs(cls):
    """[(start, stop, class)] of the runs of indexed records."""
    out = []
    start = 0
    n = len(cls)
    for i in range(1, n + 1):
        if i == n or cls[i] != cls[start]:
            if cls[start] >= 0:
                out.append((start, i, int(cls[start])))
            start = i
    return out


def spans(cls):
    """[(start, stop, class)]: from the first to the last record of each
    class; they overlap and contain each other."""
    out = []
    for value in sorted(set(cls.tolist()) - {-1}):
        where = numpy.nonzero(cls == value)[0]
        out.append((int(where[0]), int(where[-1]) + 1, value))
    return out


STYLES = {'runs': runs, 'spans': spans}


def label(cls):
    return b'%c%d' % (65 + cls, cls % 10)


def scan(zds, nclass=3, fail=None, style='runs', labels=False, **kwargs):
    time = model.nanos(raw(zds.variables['time']))
    if fail is not None and int(time[0]) >= fail:
        raise ArithmeticError('scan failed')
    v2 = raw(zds.variables['v2'])
    dtype = [('start', 'int64'), ('stop', 'int64'), ('cls', 'uint16')]
    rows = STYLES[style](classes(v2, nclass))
    if labels:
        dtype.append(('lab', 'S2'))
        rows = [(*row, label(row[2])) for row in rows]
    return numpy.array(rows, dtype=dtype)


class ClassIndexer(indexing.Indexer):

    def dtype(self, /, **kwargs):
        return super().dtype() + [('cls', 'uint16')]

    @classmethod
    def create(cls, path, zds, *, filesystem=None, **kwargs):
        return super()._create(path, zds, meta={'attribute': b'value'},
                               filesystem=filesystem)

    def update(self, zds, *, partition_size=None, npartitions=None, **kwargs):
        super()._update(zds, scan, partition_size, npartitions, **kwargs)


class LabelIndexer(ClassIndexer):
    """With a column of strings."""

    def dtype(self, /, **kwargs):
        return super().dtype() + [('lab', 'S2')]


class IndexModel:

    def __init__(self):
        self.rows = {}  # q -> [(start, stop, class)]

    def clone(self):
        out = IndexModel()
        out.rows = {q: list(r) for q, r in self.rows.items()}
        return out

    def update(self, ref, flt, nclass, style):
        for q in ref.select(flt):
            self.rows[q] = STYLES[style](
                classes(ref.parts[q]['v2'], nclass))

    def query(self, wanted=None, layout=None, keys=None, logical=None,
              split=False, mask=None):
        """{q: sorted records}, or {(q, class): sorted records}."""
        out = {}
        for q, rows in self.rows.items():
            for a, b, c in rows:
                if c == mask:
                    continue
                tests = [] if wanted is None else [c in wanted]
                tests += [dict(layout.key(q))[k] in v
                          for k, v in (keys or {}).items()]
                if tests and not functools.reduce(LOGICAL[logical], tests):
                    continue
                out.setdefault((q, c) if split else q, set()).update(
                    range(a, b))
        return {k: sorted(v) for k, v in out.items()}


LOGICAL = {
    None: lambda a, b: a and b,
    'and': lambda a, b: a and b,
    'or': lambda a, b: a or b,
    'xor': lambda a, b: a != b,
    'and_not': lambda a, b: a and not b,
}


class Index(Scenario):
    id = 'C11'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = gen.width(rng, [3, 4, 6])
        spec['nclass'] = rng.choice([1, 2, 3, 5])
        spec['labels'] = rng.random() < 0.3
        spec['style'] = rng.choice(['runs', 'runs', 'spans'])
        setup_ops, ver = gen_setup(rng, maxq, rng.choice([1, 1, 2]))
        spec['setup'] = [o for o in setup_ops if o['op'] == 'insert']
        ops = []
        for i in range(rng.randint(1, 4)):
            if i or rng.random() < 0.2:
                for _ in range(rng.choice([1, 1, 2])):
                    if rng.random() < 0.15:
                        ops.append(gen.update(rng, spec, maxq,
                                              funcs=('inc', )))
                    else:
                        ops.append(gen.insert(rng, ver + i, 3, maxq))
                        ver += 1
            op = {'op': 'index', 'npart': rng.choice([None, None, 1, 2]),
                  'partial': i > 0 and rng.random() < 0.6,
                  'delayed': rng.random() < 0.5,
                  'again': rng.choice(['same', 'new'])}
            kind = rng.random()
            if kind < 0.3:
                n = rng.choice([1, 1, 2, -1])
                op['faults'] = [{
                    'at': rng.randrange(4), 'n': n,
                    'ops': [o for o in faults.CREATING
                            if n == 1 or o != 'rename'],
                    'kind': rng.choice(['eio', 'enospc', 'torn', 'eacces']),
                    'frac': rng.choice([0.0, 0.4, 0.9])}]
            elif kind < 0.5:
                op['faults'] = [{
                    'at': rng.randrange(5), 'n': 1, 'kind': 'crash',
                    'frac': rng.choice([0.0, 0.3, 0.7, 1.0])}]
            elif kind < 0.6:
                op['fail'] = rng.choice([0, model.Layout(spec['part']).time(
                    rng.randrange(maxq), 0)])
            ops.append(op)
            for _ in range(rng.choice([0, 1, 2])):
                ops.append(self.gen_query(rng, spec, maxq))
            if rng.random() < 0.2:
                ops.append({'op': 'reopen'})
        ops.append(self.gen_query(rng, spec, maxq))
        spec['ops'] = ops
        return spec

    def gen_query(self, rng, spec, maxq):
        n = spec['nclass']
        op = {'op': 'query', 'cls': sorted(rng.sample(
            range(n), rng.randint(1, n))), 'handle': rng.choice(
                ['own', 'new']), 'delayed': rng.random() < 0.5}
        if rng.random() < 0.2:
            op['cls'] = op['cls'][:1]
            op['scalar'] = True
        if rng.random() < 0.1:
            op['cls'] = None
        if op['cls'] is not None and rng.random() < 0.3:
            q = rng.randrange(maxq)
            key = dict(model.Layout(spec['part']).key(q))
            op['keys'] = {k: [v] for k, v in key.items()}
            if rng.random() < 0.5:
                # several values, a subset of the keys, any operator
                other = dict(model.Layout(spec['part']).key(
                    rng.randrange(maxq)))
                names = rng.sample(sorted(key), rng.randint(1, len(key)))
                op['keys'] = {k: sorted({key[k], other[k]}) for k in names}
                op['logical'] = rng.choice(['and', 'or', 'xor', 'and_not'])
        if rng.random() < 0.2:
            op['split'] = True
        if rng.random() < 0.15:
            op['mask'] = rng.randrange(n)
        if spec['labels'] and op['cls'] is not None and rng.random() < 0.5:
            op['labels'] = True
        if rng.random() < 0.3:
            op['filter'] = gen.flt(rng, spec['part'], maxq)
        return op

    def run(self, w):
        user = w.user('A')
        w.create(user)
        for op in w.spec['setup']:
            w.mutate_ok(user, op)
        self.path = w.path('index.parquet')
        self.indexer = (LabelIndexer if w.spec.get('labels') else
                        ClassIndexer)
        self.m = IndexModel()
        self.exists = False
        self.index = None
        self.dirty = set(w.model.parts)
        facts = {'failed': 0, 'crashed': 0, 'queries': 0, 'intervals': 0}
        self.new_index(w, user)
        for op in w.spec['ops']:
            kind = op['op']
            if kind == 'insert':
                w.mutate_ok(user, op)
                self.dirty |= {q for q, _ in model.expand(op['rows'])}
            elif kind == 'update':
                w.mutate_ok(user, op)
                self.dirty |= set(w.model.select(op.get('filter')))
            elif kind == 'index':
                user = self.update(w, user, op, facts)
            elif kind == 'reopen':
                user = w.user()
                user.h = w.open(user)
                self.new_index(w, user)
            elif self.exists:
                self.query(w, user, op, facts)
        facts['nontrivial'] = facts['intervals'] > 0
        return facts

    def new_index(self, w, user):
        if self.exists:
            self.index = self.opened(w, user)
        else:
            self.index = w.must(user, lambda: self.indexer.create(
                self.path, user.h, filesystem=w.fs()), 'Indexer.create')

    def opened(self, w, user, what='Indexer.open'):
        index = w.must(user, lambda: self.indexer.open(
            self.path, filesystem=w.fs()), what)
        if index.meta.get('attribute') != b'value':
            raise Violation(f'{what}: the index has lost its metadata: '
                            f'{sorted(index.meta)}', 'index metadata')
        return index

    def updating(self, w, user, op, flt, fail=None):

        def fn():
            kwargs = {'nclass': w.spec['nclass'], 'delayed': op['delayed'],
                      'style': w.spec['style'],
                      'labels': w.spec.get('labels', False)}
            if flt is not None:
                kwargs['filters'] = make_filter(w, flt)
            if fail is not None:
                kwargs['fail'] = fail
            if op.get('npart'):
                kwargs['npartitions'] = op['npart']
            self.index.update(user.h, **kwargs)

        return fn

    def update(self, w, user, op, facts):
        flt = None
        if op['partial'] and self.exists:
            # only the partitions that changed
            qs = sorted(self.dirty)
            if not qs:
                return user
            flt = {'t': 'in', 'qs': qs}
        if not w.model.select(flt):
            return user
        before = self.m.clone()
        after = self.m.clone()
        after.update(w.model, flt, w.spec['nclass'], w.spec['style'])
        specs = [dict(f, group=user.name) if f['kind'] == 'crash' else f
                 for f in op.get('faults') or ()]
        fails = op.get('fail') is not None and any(
            int(model.nanos(w.model.parts[q]['time'])[0]) >= op['fail']
            for q in w.model.select(flt))
        plan = arm(w, specs)
        value, error = user.call(self.updating(w, user, op, flt,
                                               op.get('fail')))
        plan.disarm()
        if error is None and fails:
            raise Violation('Indexer.update: the failure of the scan is not '
                            'reported', 'index: silent failure')
        if error is not None:
            if is_crash(error):
                facts['crashed'] += 1
                w.sim.kill(user.name)
                user = w.user()
                user.h = w.open(user)
                self.index = None
            else:
                genuine(error)
                if not plan.fired and not fails:
                    raise Violation(f'Indexer.update failed without any fault:'
                                    f' {describe(error)}',
                                    'Indexer.update failed') from error
                facts['failed'] += 1
                if self.exists:
                    self.either(w, user, self.index, before, after,
                                'after a failed index update (own handle)')
            there = w.must(user, lambda: w.fs().exists(self.path), 'exists')
            if self.exists and not there:
                raise Violation('after a failed index update the index is '
                                'missing', 'index lost')
            self.exists = self.exists or there
            if there:
                other = w.user()
                index = self.opened(w, other,
                                    'Indexer.open after a failed update')
                self.either(w, other, index, before, after,
                            'after a failed index update')
            if op['again'] == 'new' or self.index is None:
                self.new_index(w, user)
            w.must(user, self.updating(w, user, op, flt),
                   'repeated Indexer.update')
        self.m = after
        self.exists = any(self.m.rows.values()) or self.exists
        self.dirty = set()
        return user

    def answer(self, w, user, index, op, what):
        """{q: records} of a query, and the indexer."""
        columns = {}
        if op.get('cls') is not None:
            columns['cls'] = (op['cls'][0] if op.get('scalar') else
                              list(op['cls']))
        if op.get('labels'):
            labels = [label(c) for c in op['cls']]
            columns = {'lab': labels[0] if op.get('scalar') else labels}
        columns.update(op.get('keys') or {})
        split = op.get('split', False)

        def fn():
            kwargs = {}
            if op.get('mask') is not None:
                kwargs['mask'] = pyarrow.compute.not_equal(
                    index.table['cls'], op['mask'])
            return list(index.query(columns, logical_op=op.get('logical'),
                                    only_partition_keys=not split, **kwargs))

        indexer = w.must(user, fn, f'{what}: Indexer.query')
        table = w.q_of()
        got = {}
        for key, sl in indexer:
            fields = dict(key)
            cls = fields.pop('cls', None)
            lab = fields.pop('lab', None)
            if cls is not None and w.spec.get('labels') and \
                    lab != label(int(cls)):
                raise Violation(f'{what}: query returned the label {lab}',
                                f'{what}: label')
            cls = None if cls is None else int(cls)
            fields = {k: int(v) for k, v in fields.items()}
            key = tuple((k, fields[k]) for k in w.layout.names()
                        if k in fields)
            if key not in table or (cls is None) == split:
                raise Violation(f'{what}: query returned the unknown partition'
                                f' {key}', f'{what}: unknown partition')
            got.setdefault((table[key], cls) if split else table[key],
                           []).extend(
                range(int(sl.start), int(sl.stop)))
        for q, records in got.items():
            if records != sorted(set(records)):
                raise Violation(f'{what}: query returned duplicated or '
                                f'unordered records {records}',
                                f'{what}: query duplicates')
        return got, indexer

    def either(self, w, user, index, before, after, what):
        got, _ = self.answer(w, user, index, {}, what)
        if got not in (before.query(), after.query()):
            raise Violation(f'{what}: the index is neither old nor new: {got}',
                            f'{what}: neither old nor new')

    def query(self, w, user, op, facts):
        index = self.index
        h = user.h
        if op['handle'] == 'new':
            user = w.user()
            h = w.open(user, mode='r')
            index = self.opened(w, user)
        got, indexer = self.answer(w, user, index, op, 'query')
        want = self.m.query(None if op['cls'] is None else set(op['cls']),
                            w.layout, op.get('keys'), op.get('logical'),
                            op.get('split'), op.get('mask'))
        if got != want:
            raise Violation(f'query: {got} instead of {want}', 'query')
        facts['queries'] += 1
        facts['intervals'] += len(indexer)
        if self.dirty or not want or op.get('split'):
            return
        flt = op.get('filter')

        def fn():
            zds = h.load(indexer=indexer, delayed=op['delayed'],
                         filters=make_filter(w, flt))
            return None if zds is None else strip(extract(zds))

        found = w.must(user, fn, 'load(indexer=query)')
        selected = w.model.select(flt)
        pieces = [model.take(w.model.parts[q], want[q])
                  for q in sorted(want) if q in selected]
        diff = model.difference(model.concat(pieces) if pieces else None,
                                found)
        if diff:
            raise Violation(f'load(indexer=query) returned wrong data: {diff}',
                            'load(indexer=query) wrong data')
