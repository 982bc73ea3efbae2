"""Seeded generation of configurations, histories and fault plans (JSON)."""
from __future__ import annotations

from . import faults, model

PARTS = ('D', 'D', 'D', 'M', 'M', 'h', 'h', 'Y', 'Y', 'm', 's', 'seq1', 'seq1',
         'seq2', 'seq2', 'seq3', 'seqn', 'seqm', 'De')


def config(rng, **over):
    spec = {
        'fs': rng.choice(['posix', 'posix', 'object']),
        'part': rng.choice(PARTS),
        'immutable': rng.random() < 0.2,
        'chunks': rng.choice([{}, {'x': 2}, {'x': 3}, {'x': 2, 'y': 1}]),
        'sync': rng.choice(['proc', 'none']),
        'cluster': {
            'nworkers': rng.choice([1, 2, 3, 4]),
            'nthreads': rng.choice([1, 1, 2]),
            'processes': rng.random() < 0.5,
        },
        'policy': {
            'p': rng.choice([0.0, 0.02, 0.1, 0.3, 0.6]),
            'slow': rng.choice([0.0, 0.0, 0.3]),
            'dirorder': rng.random() < 0.5,
            # seconds taken by each system call or storage request
            'lat': rng.choice([0.0, 0.0, 0.0, 0.002, 0.5, 20.0]),
        },
    }
    spec['rich'] = sorted(rng.sample(sorted(model.RICH), rng.choice(
        [0, 0, 1, 2, 3])))
    unit = rng.choice(['ns', 'ns', 'ns', 'us', 'ms', 's'])
    if unit != 'ns' and not (unit == 's' and spec['part'] == 's'):
        spec['unit'] = unit
    if rng.random() < 0.15:
        # where the collection lives
        layout = model.Layout(spec['part'])
        spec['dir'] = rng.choice(['a b/', 'run=3/', 'x/y=z/t/',
                                  layout.path(1) + '/',
                                  layout.path(0).split('/')[-1] + '/d/'])
    if rng.random() < 0.08:
        spec['name'] = rng.choice(['c=1', 'c.d', 'time', 'zarr=', '.c'])
    spec.update(over)
    return spec


#: Number of partitions of the wide collections
WIDE = 18


def width(rng, choices):
    """Number of partitions that a history may use."""
    return WIDE if rng.random() < 0.04 else rng.choice(choices)


def rows(rng, nparts, maxq=8, dense=False):
    """Rows of an insert on at most nparts partitions."""
    if maxq == WIDE:
        qs = sorted(rng.sample(range(maxq), rng.randint(maxq // 2, maxq)))
        return [[q, rng.randrange(0, 8), rng.randint(1, 3), 1] for q in qs]
    qs = sorted(rng.sample(range(maxq), min(maxq, rng.randint(1, nparts))))
    if dense:
        lo = rng.randrange(maxq - len(qs) + 1)
        qs = list(range(lo, lo + len(qs)))
    out = []
    for q in qs:
        r0 = rng.randrange(0, 8)
        out.append([q, r0, rng.randint(1, 6), rng.choice([1, 1, 2])])
    return out


def insert(rng, ver, nparts=4, maxq=8, merge=None, **over):
    op = {
        'op': 'insert',
        'ver': ver,
        'rows': rows(rng, nparts, maxq),
        'delayed': rng.random() < 0.6,
        'npart': rng.choice([None, None, 1, 2, 3]),
    }
    if merge is None:
        merge = rng.random() < 0.4
    if merge:
        op['merge'] = True
        if rng.random() < 0.15:
            op['merge'] = 'append'
        elif rng.random() < 0.3:
            op['tol'] = rng.choice([1, 2, 3])
    if rng.random() < 0.12:
        op['omit'] = ['v2']
    if rng.random() < 0.15:
        op['masked'] = True
    op.update(over)
    return op


def merging_rows(rng, nparts, maxq):
    """Rows whose periods relate in every way, with gaps."""
    qs = sorted(rng.sample(range(maxq), rng.randint(1, nparts)))
    out = []
    for q in qs:
        for _ in range(rng.choice([1, 1, 2, 3])):
            r0 = rng.randrange(0, model.SLOTS - 2)
            out.append([q, r0, rng.choice([1, 2, 3, 4, 6, 10]),
                        rng.choice([1, 1, 2, 3])])
    return out


def flt(rng, part, maxq=8):
    """A partition filter (or None)."""
    kind = rng.random()
    if kind < 0.25:
        return None
    if kind < 0.6:
        return {'t': 'in',
                'qs': sorted(rng.sample(range(maxq), rng.randint(1, maxq)))}
    layout = model.Layout(part)
    key = dict(layout.key(rng.randrange(maxq)))
    name = rng.choice(list(key))
    value = key[name]
    expr = rng.choice([
        f'{name} == {value}', f'{name} >= {value}', f'{name} < {value}',
        f'{name} % 2 == {value % 2}', f'{name} != {value}',
        ' and '.join(f'{k} == {v}' for k, v in key.items())
    ])
    return {'t': 'expr', 'e': expr, 'call': rng.random() < 0.4}


def update(rng, spec, maxq=8, funcs=('set', 'inc', 'two'), depth=None):
    part = spec['part']
    op = {
        'op': 'update',
        'func': rng.choice(funcs),
        'arg': rng.randint(1, 50),
        'filter': flt(rng, part, maxq) if rng.random() < 0.5 else None,
        'delayed': rng.random() < 0.5,
        'explicit': rng.random() < 0.4,
        'npart': rng.choice([None, None, 1, 2, 5]),
    }
    if spec.get('immutable') and 'set' in funcs and rng.random() < 0.3:
        op['func'] = 'lut'
    if rng.random() < 0.3:
        op['sel'] = rng.choice([['time', 'v2'], ['v2', 'time', 'v1', 'v3']])
    form = rng.random()
    if form < 0.25:
        op['masked'] = True
    elif form < 0.4:
        op['lazy'] = True
    if depth is None:
        depth = 0
    if depth:
        op['depth'] = depth
        if op['func'] != 'lut' or rng.random() < 0.5:
            op['func'] = 'sum'
        op['trim'] = rng.random() < 0.6
        op['info'] = True if not op['trim'] else rng.random() < 0.6
    names = [name for name in ('w1', 'w2') if name in spec['rich']]
    if names and rng.random() < 0.6:
        op['names'] = rng.sample(names, rng.randint(1, len(names)))
    if op.get('sel') and op['func'] == 'lut':
        op['sel'].append('lut')
    if rng.random() < 0.2:
        op['args'] = True
    return op


def needed(op):
    """The variables that the function of an update reads."""
    return ['time', 'v2'] + (['lut'] if op['func'] == 'lut' else [])


def io_faults(rng, horizon, removing=True, creating=True):
    """One or two I/O faults among the first `horizon` mutations.

    Creating operations may fail for a long time; removals fail transiently
    (at most three in a row): the code retries them."""
    out = []
    if creating and rng.random() < 0.1:
        # a renaming fails, and what is done instead fails too
        return [{'at': rng.randrange(6), 'n': 1, 'ops': ['rename'],
                 'kind': rng.choice(['eio', 'eacces', 'estale'])},
                {'at': rng.choice([0, 0, 1, 3]), 'n': rng.choice([1, 1, 2]),
                 'ops': [op for op in faults.CREATING if op != 'rename'],
                 'kind': rng.choice(['eio', 'enospc', 'eacces', 'torn']),
                 'frac': rng.choice([0.0, 0.3, 0.9]), 'after': 0}]
    for _ in range(rng.choice([1, 1, 1, 2])):
        if removing and (not creating or rng.random() < 0.3):
            out.append({
                'at': rng.randrange(max(1, horizon // 3)),
                'n': rng.choice([1, 1, 2, 3]),
                'ops': list(faults.REMOVING),
                'kind': rng.choice(['eio', 'eacces', 'estale']),
            })
        else:
            at = rng.randrange(horizon)
            if rng.random() < 0.25:
                at = rng.randrange(min(horizon, 12))
            n = rng.choice([1, 1, 1, 2, 5, -1])
            out.append({
                'at': at,
                'n': n,
                # renaming needs no space: its failures are transient
                'ops': [op for op in faults.CREATING
                        if n == 1 or op != 'rename'],
                'kind': rng.choice(['eio', 'enospc', 'eacces', 'torn']),
                'frac': rng.choice([0.0, 0.3, 0.9]),
            })
    return out
