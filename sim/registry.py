"""Scenarios by property."""


def scenarios():
    from .scen import caches, copying, creation, drops, faulty, history, index, reading, readers, refusals, settled, updates, views, writers
    table = {}
    for item in [history.History(), faulty.InsertFault(), faulty.Crash(),
                 faulty.Deaths(), writers.Writers(), views.ViewWriters(),
                 updates.Merging(), updates.Updates(), drops.Drops(),
                 drops.Variables(), views.Sync(), views.ViewHistory(), views.ViewDeaths(), index.Index(), copying.Copy(),
                 readers.Readers(), reading.ReadErrors(), creation.Creation(), refusals.Refusals(), settled.Settled(), caches.Caches(),
                 *faulty.directed()]:
        table.setdefault(item.id, []).append(item)
    return table
