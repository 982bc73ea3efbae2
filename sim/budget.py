"""Number of simulated runs per tier, and how cases are made."""
RUNS = {
    'C01': (1000, 40000),
    'C02': (1200, 40000),
    'C03': (900, 40000),
    'C04': (1200, 40000),
    'C05': (1000, 40000),
    'C06': (1000, 40000),
    'C07': (900, 40000),
    'C08': (1200, 40000),
    'C09': (1200, 40000),
    'C10': (1000, 40000),
    'C11': (900, 40000),
    'C12': (900, 40000),
    'C13': (700, 40000),
    'C14': (1000, 40000),
    'C15': (1000, 40000),
    'C16': (1200, 40000),
    'C20': (1200, 40000),
    'C21': (1000, 40000),
    'C22': (1200, 40000),
}
_COMMON = ('on random cluster shapes, partitionings, chunkings, storage and '
           'schedules; distinct by generated case and interleaving')
RULES = {
    'C01': 'seeded histories of inserts, drops and schema changes with random '
           f'observations, {_COMMON}; non-trivial: at least two modifying '
           'calls and one partition left',
    'C02': 'seeded inserts on seeded states with storage errors at seeded '
           f'operations, {_COMMON}; non-trivial: a fault was injected during '
           'the insert',
    'C03': 'two or three seeded concurrent writer programs sharing a lock, '
           f'{_COMMON}; non-trivial: calls of different processes target a '
           'common partition',
    'C04': 'seeded modifying calls killed at a seeded storage operation, once '
           f'or twice, {_COMMON}; non-trivial: a crash happened',
    'C05': f'seeded sequences of merging inserts, {_COMMON}; non-trivial: a '
           'merge met stored records',
    'C06': 'seeded updates (filters, overlaps, batches, forms of the result) '
           f'with and without failures, {_COMMON}; non-trivial: a partition '
           'was updated',
    'C07': 'seeded creation histories with clock jumps, time zones, drops '
           f'with filters and ages, and failures, {_COMMON}; non-trivial: a '
           'partition was dropped',
    'C08': 'seeded additions and removals of variables with storage errors, '
           f'{_COMMON}; non-trivial: the collection has partitions',
    'C09': 'seeded histories of reference and view changes with '
           'synchronisations interrupted by storage errors or crashes, '
           f'{_COMMON}; non-trivial: the reference has partitions',
    'C10': 'seeded sequences of view operations, observations, reference '
           f'changes and failures, {_COMMON}; non-trivial: at least two '
           'modifying calls on a view with partitions',
    'C11': 'seeded sequences of reference changes, complete and incremental '
           'index updates (failing, interrupted or not), and queries, '
           f'{_COMMON}; non-trivial: a query returned intervals',
    'C12': 'seeded copies of seeded collections between file systems, with '
           'errors on either side and crashes, then changes of both sides, '
           f'{_COMMON}; non-trivial: at least one partition was copied',
    'C13': 'seeded reading calls, and modifying calls on read-only handles, on '
           'sound and damaged collections, with read errors, '
           f'{_COMMON}; non-trivial: a call was made',
    'C14': 'seeded modifying calls whose tasks fail or are slow, '
           f'{_COMMON}; non-trivial: tasks were started',
    'C15': 'seeded histories on an object store with one listing cache per '
           f'process, {_COMMON}; non-trivial: the collection was modified',
    'C20': 'seeded reading and modifying calls with read and listing errors '
           f'at seeded operations, {_COMMON}; non-trivial: a fault was injected',
    'C21': 'seeded creations of collections and views with storage errors or '
           f'killed at a seeded operation, {_COMMON}; non-trivial: a fault was '
           'injected',
    'C22': 'seeded histories of valid and refused calls on collections and '
           f'views, {_COMMON}; non-trivial: a call was refused',
    'C16': 'seeded modifying calls with workers killed at seeded storage '
           f'operations, {_COMMON}; non-trivial: a worker died',
}
