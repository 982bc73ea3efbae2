"""C01: reads return what the history of completed calls implies."""
from __future__ import annotations

import numpy

from .base import *
from ..world import extract, raw, stored, with_args


def indexer_for(rng, parts):
    """JSON indexer: [[q, start, stop], ...] over existing partitions."""
    out = []
    for q, n in parts.items():
        if rng.random() < 0.6:
            a = rng.randrange(n)
            b = rng.randint(a + 1, n)
            out.append([q, a, b])
            if b + 1 < n and rng.random() < 0.4:
                out.append([q, b + 1, n])
    return out


def gen_observation(rng, part, maxq):
    kind = rng.choice(['load', 'load', 'partitions', 'map', 'overlap',
                       'indexer', 'records', 'validate'])
    ob = {'op': kind, 'filter': gen.flt(rng, part, maxq),
          'delayed': rng.random() < 0.5, 'handle': rng.choice(['own', 'new'])}
    if kind in ('load', 'map', 'overlap', 'indexer') and rng.random() < 0.35:
        ob['sel'] = rng.choice([['time', 'v1'], ['time', 'v2', 'v3'],
                                ['time'], ['time', 'v1', 'nope']])
    if kind == 'load':
        ob['how'] = rng.choice([None, None, None, 'compute', 'persist',
                                'compress', 'rechunk', 'xarray', 'dict',
                                'isel'])
    if kind == 'overlap':
        ob['depth'] = rng.choice([0, 1, 1, 2, 3])
        ob['info'] = rng.random() < 0.6
    if kind in ('map', 'overlap'):
        ob['npart'] = rng.choice([None, 1, 2, 3])
        ob['psize'] = rng.choice([None, None, 1, 2])
        if ob['psize']:
            ob['npart'] = None
        ob['args'] = rng.random() < 0.3
    if kind == 'indexer':
        ob['seed'] = rng.randrange(10**6)
    if kind == 'partitions':
        ob['lock'] = rng.random() < 0.3
        ob['relative'] = rng.random() < 0.4
        if rng.random() < 0.2:
            ob['cache'] = rng.sample(range(maxq), rng.randint(0, maxq))
    return ob


class History(Scenario):
    id = 'C01'

    def gen(self, rng):
        spec = gen.config(rng)
        maxq = gen.width(rng, [4, 6, 9])
        ops = [gen.insert(rng, 1, rng.randint(2, 5), maxq, merge=False)]
        present = set()
        ver = 2
        for _ in range(rng.randint(1, 5)):
            kind = rng.choices(
                ['insert', 'drop', 'addvar', 'dropvar', 'obs', 'reopen'],
                [4, 1.5, 1.2, 1.2, 3, 0.8])[0]
            if kind == 'insert':
                op = gen.insert(rng, ver, 4, maxq)
                if rng.random() < 0.25:
                    op['xr'] = True
                ops.append(op)
                ver += 1
            elif kind == 'drop':
                ops.append({'op': 'drop',
                            'filter': gen.flt(rng, spec['part'], maxq)})
            elif kind == 'addvar':
                free = sorted(set(model.EXTRA) - present)
                if free:
                    name = rng.choice(free)
                    present.add(name)
                    ops.append({'op': 'addvar', 'name': name})
            elif kind == 'dropvar':
                if present:
                    name = rng.choice(sorted(present))
                    present.discard(name)
                    ops.append({'op': 'dropvar', 'name': name})
            elif kind == 'reopen':
                ops.append({'op': 'reopen'})
            else:
                ops.append(gen_observation(rng, spec['part'], maxq))
        for _ in range(rng.randint(2, 3)):
            ops.append(gen_observation(rng, spec['part'], maxq))
        spec['ops'] = ops
        return spec

    def run(self, w):
        user = w.user('A')
        w.create(user)
        n = 0
        for op in w.spec['ops']:
            kind = op['op']
            if kind in ('insert', 'drop', 'addvar', 'dropvar'):
                if kind == 'dropvar' and op['name'] not in w.model.vars:
                    continue
                if kind == 'addvar' and op['name'] in w.model.vars:
                    continue
                w.mutate_ok(user, op)
                settle(w, user, kind)
                n += 1
            elif kind == 'reopen':
                user = w.user()
                user.h = w.open(user)
            else:
                observe(w, user, op)
        w.check_everywhere(user)
        return {'nontrivial': n >= 2 and len(w.model.parts) >= 1}


def observe(w, user, ob):
    """One observation compared with the model."""
    m = w.model
    h = user.h
    if ob.get('handle') == 'new':
        user = w.user()
        h = w.open(user, mode='r')
    kind = ob['op']
    sel = ob.get('sel')
    selected = m.select(ob['filter'])
    if kind == 'load':
        w.check_load(user, h, ob['filter'], sel, ob['delayed'],
                     how=ob.get('how'))
    elif kind == 'partitions':
        w.check_partitions(user, h, ob['filter'], lock=ob.get('lock', False),
                           relative=ob.get('relative', False),
                           cache=ob.get('cache'))
    elif kind == 'validate':
        found = w.must(user, lambda: h.validate_partitions(
            filters=make_filter(w, ob['filter'])), 'validate_partitions')
        if found:
            raise Violation(f'validate_partitions: reports {found} on a sound '
                            'collection')
    elif kind == 'records':
        found = w.must(user, lambda: [
            (path, {k: stored(k, a[...]) for k, a in group.arrays()})
            for path, group in h.iterate_on_records(relative=True)],
            'iterate_on_records')
        want = [w.layout.path(q) for q in sorted(m.parts)]
        if [p for p, _ in found] != want:
            raise Violation(f'iterate_on_records: {[p for p, _ in found]} '
                            f'instead of {want}')
        for q, (_, data) in zip(sorted(m.parts), found):
            diff = model.difference(m.parts[q], data)
            if diff:
                raise Violation(f'iterate_on_records: {diff}')
    elif kind in ('map', 'overlap'):
        if not selected and not m.parts:
            return

        def func(zds, partition_info=None):
            data = extract(zds)
            if partition_info is not None:
                return data, (partition_info[0], partition_info[1].start,
                              partition_info[1].stop)
            return data, None

        def plain(zds):
            return extract(zds), None

        def fn():
            kwargs = {'filters': make_filter(w, ob['filter']),
                      'delayed': ob['delayed'], 'selected_variables': sel}
            if kind == 'map':
                if ob.get('psize'):
                    kwargs['partition_size'] = ob['psize']
                elif ob.get('npart'):
                    kwargs['npartitions'] = ob['npart']
                f, args, more = with_args(plain, ob.get('args'))
                return h.map(f, *args, **kwargs, **more).compute()
            if ob.get('psize'):
                kwargs['partition_size'] = ob['psize']
            elif ob.get('npart'):
                kwargs['npartition'] = ob['npart']
            f, args, more = with_args(func if ob.get('info') else plain,
                                      ob.get('args'))
            return h.map_overlap(f, *args, depth=ob['depth'], **kwargs,
                                 **more).compute()

        if not selected:
            return
        found = w.must(user, fn, kind)
        if len(found) != len(selected):
            raise Violation(f'{kind}: {len(found)} results instead of '
                            f'{len(selected)}')
        for i, (q, (key, (data, info))) in enumerate(zip(selected, found)):
            key = tuple((k, int(v)) for k, v in key)
            if key != w.layout.key(q):
                raise Violation(f'{kind}: {key} instead of '
                                f'{w.layout.key(q)}')
            depth = ob['depth'] if kind == 'overlap' else 0
            lo = max(0, i - depth)
            window = selected[lo:i + depth + 1]
            want = m.whole(window, sel)
            diff = model.difference(want, data)
            if diff:
                raise Violation(f'{kind} gave wrong data for {key}: {diff}',
                                f'{kind} wrong data')
            if info is not None:
                start = sum(len(m.parts[k]['time'])
                            for k in selected[lo:i])
                if info != ('x', start, start + len(m.parts[q]['time'])):
                    raise Violation(f'{kind}: partition_info {info}')
    elif kind == 'indexer':
        import random
        rng = random.Random(ob['seed'])
        items = indexer_for(rng, {q: len(p['time'])
                                  for q, p in sorted(m.parts.items())})
        if not items:
            return
        indexer = [(w.layout.key(q), slice(a, b)) for q, a, b in items]
        if ob['seed'] % 2:
            indexer = list(indexer)

        def fn():
            zds = h.load(filters=make_filter(w, ob['filter']),
                         indexer=(iter(indexer) if ob['seed'] % 3 == 0 else
                                  indexer), delayed=ob['delayed'],
                         selected_variables=sel)
            return None if zds is None else extract(zds)

        found = w.must(user, fn, 'load(indexer)')
        pieces = [model.take(m.parts[q], slice(a, b)) for q, a, b in items
                  if q in selected]
        want = None
        if pieces:
            want = model.concat(pieces)
            if sel is not None:
                want = {k: v for k, v in want.items() if k in sel}
            if m.lut is not None and (sel is None or 'lut' in sel):
                want['lut'] = m.lut
        diff = model.difference(want, found)
        if diff:
            raise Violation(f'load(indexer) returned wrong data: {diff}',
                            'load(indexer) wrong data')
