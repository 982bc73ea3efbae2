from __future__ import annotations

from .. import faults, gen, kernel, model
from ..world import Skip, Violation, World, describe, make_filter


class Scenario:
    id = ''
    weight = 1  # share of the runs, among the scenarios of the property
    limit = 0  # maximum number of runs, if any
    max_steps = 400_000

    def gen(self, rng):
        raise NotImplementedError

    def run(self, w: World):
        """Returns a dict of facts about the run (nontrivial, notes)."""
        raise NotImplementedError


def arm(w, specs):
    plan = faults.FaultPlan(specs)
    w.sim.faults = plan
    plan.arm()
    return plan


def settle(w, user, what, reads=False):
    """After a call: nothing pending, lock free (shared by all scenarios).

    When a read may have failed (``reads``), the computation of a delayed array
    may leave tasks reading its other chunks: they modify nothing.
    """
    pending = user.cluster.pending()
    if pending and not reads:
        raise Violation(f'{what}: {pending} tasks left running after the '
                        'call', 'tasks left running')
    if w.sim.locks:
        raise Violation(f'{what}: lock left held', 'lock left held')


def is_crash(error):
    return isinstance(error, kernel.SimCrash)


def genuine(error):
    """Errors of the simulator are never verdicts."""
    if isinstance(error, (kernel.HarnessError, kernel.SimStop)):
        raise error
    return error


def strip(part):
    return {k: v for k, v in part.items() if k != 'lut'}


def lut_ok(found, *models):
    """The non-partitioned data found is that of one of the models."""
    lut = found.get('lut')
    for m in models:
        if m.lut is None and lut is None:
            return True
        if m.lut is not None and lut is not None and \
                (lut == m.lut).all():
            return True
    return False


def check_either(w, user, h, before, after, what, known=None):
    """Every partition holds its content of one of two models, complete; a
    partition known to one model only may be absent."""
    paths = w.must_known(user, lambda: list(h.partitions()),
                         f'{what}: partitions', known)
    want = set(before.parts) & set(after.parts)
    possible = set(before.parts) | set(after.parts)
    table = {f'{w.base}/{w.layout.path(q)}': q for q in possible}
    listed = set()
    for path in paths:
        if path not in table:
            raise Violation(f'{what}: unexpected partition {path}',
                            f'{what}: unexpected partition')
        listed.add(table[path])
    for q in want - listed:
        raise Violation(f'{what}: partition {w.layout.path(q)} is missing',
                        f'{what}: partition missing', known=known)
    found = w.contents(user, h, known=known) if paths else {}
    new = 0
    for q, data in found.items():
        options = [m.parts[q] for m in (after, before) if q in m.parts]
        diffs = [model.difference(part, strip(data)) for part in options]
        if all(diffs):
            raise Violation(
                f'{what}: partition {w.layout.path(q)} is neither old nor '
                f'new: {diffs}', f'{what}: partition neither old nor new',
                known=known)
        new += bool(not diffs[0])
        if not lut_ok(data, before, after):
            raise Violation(f'{what}: wrong non-partitioned data',
                            f'{what}: lut')
    return new


def dirs_hit(w, plan_log, qs):
    """Partitions (of qs) whose directory an injected fault hit."""
    out = set()
    for _, _, _, _, path in plan_log:
        for q in qs:
            where = f'{w.base}/{w.layout.path(q)}'
            if path == where or path.startswith(where + '/'):
                out.add(q)
    return out


class Directed(Scenario):
    """A fixed case: reproduces a recorded finding at every check."""
    limit = 1

    def __init__(self, scenario, **over):
        self.scenario = scenario
        self.id = scenario.id
        self.max_steps = scenario.max_steps
        self.spec = {
            'fs': 'posix', 'part': 'D', 'immutable': False, 'chunks': {},
            'sync': 'none', 'cluster': {'nworkers': 1, 'nthreads': 1,
                                        'processes': True},
            'policy': {'p': 0.0}, 'setup': [], 'faults': [],
        }
        self.spec.update(over)

    def gen(self, rng):
        return self.spec

    def run(self, w):
        return self.scenario.run(w)


def plain_insert(ver, rows, **over):
    return dict({'op': 'insert', 'ver': ver, 'rows': rows, 'delayed': False,
                 'npart': None}, **over)
