"""Runs scenarios: one seed is one exactly repeatable execution."""
from __future__ import annotations

import hashlib
import json
import random
import time
import traceback

from . import env, kernel

_perf = time.perf_counter
_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = env.Scratch()
    return _SCRATCH


def cleanup():
    global _SCRATCH
    if _SCRATCH is not None:
        _SCRATCH.clean()
        _SCRATCH = None


def make_spec(scenario, seed):
    return json.loads(json.dumps(
        scenario.gen(random.Random(f'{scenario.id}-gen-{seed}'))))


def execute(scenario, spec, seed, replay=None, full=False):
    """Run one simulated execution. Returns a result dict."""
    from .world import Skip, Violation, World
    root = env.begin_run(scratch(), 'r', spec.get('tz', 'UTC'))
    sim = kernel.Sim(seed, replay=replay, policy=spec.get('policy'),
                     max_steps=scenario.max_steps)
    if full:
        sim.trace_full = []
    out = {'seed': seed, 'violation': None, 'sig': None, 'facts': {},
           'harness': None, 'known': None}
    t0 = _perf()
    world = None
    try:

        def main():
            nonlocal world
            world = World(sim, spec, root)
            return scenario.run(world)

        facts = sim.run(main, 240)
        out['facts'] = facts or {}
    except Skip as exc:
        out['facts'] = {'skip': str(exc)}
    except Violation as exc:
        out['violation'] = exc.what.replace(root, '<root>')
        out['sig'] = exc.sig
        out['known'] = exc.known
        out['cause'] = ''.join(traceback.format_exception(exc.__cause__))[
            -6000:] if exc.__cause__ else None
    except kernel.Deadlock as exc:
        out['violation'] = f'deadlock: {exc}'.replace(root, '<root>')
        out['sig'] = 'deadlock'
    except kernel.StepLimit as exc:
        out['violation'] = f'no progress within {exc}'
        out['sig'] = 'no progress'
    except BaseException as exc:  # noqa: B902
        if isinstance(exc, KeyboardInterrupt):
            raise
        out['harness'] = ''.join(traceback.format_exception(exc))[-8000:]
    finally:
        env.end_run(root)
    if sim.harness and not out['harness']:
        out['harness'] = sim.harness
        out['violation'] = None
    out.update(
        wall=_perf() - t0, steps=sim.steps, switches=sim.switches,
        hash=sim.hash.hexdigest()[:16], ilv=sim.ilv.hexdigest()[:16],
        injected=dict(sim.injected), simtime=sim.clock - sim.clock_start,
        record={str(k): v for k, v in sim.dec.record.items()},
        decisions=sim.dec.count,
        fault_log=[[a, b, c, d, e.replace(root, '<root>')]
                   for a, b, c, d, e in sim.fault_log[:20]],
        deaths=sum(c.deaths for c in sim.clusters))
    if full:
        out['trace'] = [line.replace(root, '<root>')
                        for line in sim.trace_full]
    return out


def spec_hash(spec):
    return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()
                          ).hexdigest()[:16]


# ---------------------------------------------------------------- minimising
def _lists(spec):
    """Paths of the lists a spec can be shrunk by."""
    out = []

    def visit(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if isinstance(v, list) and k in ('ops', 'setup', 'faults',
                                                 'users', 'rows', 'after'):
                    out.append(path + [k])
                visit(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                visit(v, path + [i])

    visit(spec, [])
    return out


def _get(spec, path):
    for k in path:
        spec = spec[k]
    return spec


def minimise(scenario, spec, seed, result, budget=60.0):
    """Shrink spec then decisions, keeping the same violation signature."""
    deadline = _perf() + budget
    sig = result['sig']

    def same(candidate, replay=None):
        if _perf() > deadline:
            return None
        try:
            res = execute(scenario, candidate, seed, replay)
        except Exception:
            return None
        return res if res['sig'] == sig and res['violation'] else None

    best, best_res = spec, result
    changed = True
    while changed and _perf() < deadline:
        changed = False
        for path in sorted(_lists(best), key=len):
            try:
                items = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            i = len(items) - 1
            floor = 1 if path[-1] in ('rows', 'users') else 0
            while i >= 0 and len(items) > floor:
                cand = json.loads(json.dumps(best))
                target = _get(cand, path)
                del target[i]
                res = same(cand)
                if res:
                    best, best_res = cand, res
                    items = _get(best, path)
                    changed = True
                i -= 1
        for key, values in (('policy', [{'p': 0.0}, {'p': 0.02}]),
                            ('chunks', [{}]),
                            ('cluster', [{'nworkers': 1, 'nthreads': 1,
                                          'processes': False},
                                         {'nworkers': 2, 'nthreads': 1,
                                          'processes': False}])):
            if key not in best:
                continue
            for value in values:
                if best[key] == value:
                    break
                cand = json.loads(json.dumps(best))
                cand[key] = value
                res = same(cand)
                if res:
                    best, best_res = cand, res
                    break
    # decisions
    record = best_res['record']
    res = same(best, record)
    if res is None:
        return best, best_res, best_res['record']
    best_res = res
    keys = sorted(record, key=int)
    n = 2
    while keys and n <= len(keys) * 2 and _perf() < deadline:
        size = max(1, len(keys) // n)
        for start in range(0, len(keys), size):
            kept = keys[:start] + keys[start + size:]
            res = same(best, {k: record[k] for k in kept})
            if res:
                keys, best_res = kept, res
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n *= 2
    return best, best_res, {k: record[k] for k in keys}
