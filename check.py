#!/usr/bin/env python3
"""Decides one property: check.py <ID>.

Runs the property's simulated scenarios for consecutive seeds derived from
VERIF_SEED, in worker processes; prints a VIOLATION line and exits 1 if some
execution breaks the property, exits 0 if none does. VERIF_TIER (quick or
thorough) sizes the search. Options: --runs N, --wall SECONDS, --jobs N,
--scenario I, --digest FILE (one line per run: seed and event hash).
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

REAL = ['zcollection (everything imported from /repo)', 'zarr', 'numcodecs',
        'fsspec mappers and LocalFileSystem logic', 'dask graphs, bags, arrays',
        'xarray', 'pandas/pyarrow (index)', 'fasteners lock API']
STUB = ['dask.distributed scheduler, workers, client (sim/cluster.py)',
        'POSIX system calls: faults, crashes, ordering over a scratch directory'
        ' (sim/posix.py)',
        'object store with per-process listing caches (sim/objstore.py)',
        'clock, sleep, uuid, thread scheduling (sim/kernel.py, sim/env.py)',
        'interprocess file locks (sim/posix.py)']
ASSUMPTIONS = [
    'process crashes lose no data already handed to the operating system '
    '(the code never calls fsync)',
    'reads and listings fail in C12, C13, C14 and C20 only, stats never; '
    'failing removals are transient (at most three in a row), other mutating '
    'operations may fail for ever',
    'the stub cluster keeps the semantics of dask.distributed that the code '
    'relies on: eager start, gather raising on the first error while other '
    'tasks go on, one slot per thread, rerun of tasks of dead workers',
    'scheduling points are the storage operations, lock operations and '
    'cluster operations; code between two of them is atomic',
]


def known_findings(pid):
    """{key: text} of the findings recorded for the property."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as stream:
            for line in stream:
                if line.startswith(f'known: property={pid} key='):
                    rest = line.split('key=', 1)[1].rstrip('\n')
                    key, _, text = rest.partition(' ')
                    out[key] = text
    return out


# ------------------------------------------------------------------ worker
def worker(args):
    """Runs (scenario, seed) pairs; one JSON line per run on stdout."""
    sys.path.insert(0, HERE)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # anything printed by the code goes to stderr
    from sim import env
    env.install()
    from sim import registry, runner
    table = registry.scenarios()[args.id]
    deadline = time.perf_counter() + args.wall
    try:
        for i in range(args.part, args.runs, args.jobs):
            if time.perf_counter() > deadline:
                break
            index, number = plan(table, i, args.tier)
            seed = args.seed * 1_000_000 + number
            scenario = table[index]
            spec = runner.make_spec(scenario, seed)
            res = runner.execute(scenario, spec, seed)
            line = {
                'scenario': index, 'seed': seed, 'spec': None,
                'sh': runner.spec_hash(spec),
                **{k: res[k] for k in (
                    'violation', 'sig', 'known', 'harness', 'steps',
                    'switches', 'hash', 'ilv', 'injected', 'simtime',
                    'facts', 'deaths', 'wall', 'decisions', 'fault_log')},
            }
            if res['violation'] or number % 97 == 0:
                line['spec'] = spec
            if res['violation']:
                line['cause'] = res.get('cause')
            out.write(json.dumps(line) + '\n')
            out.flush()
        out.write(json.dumps({'end': True}) + '\n')
        out.flush()
    finally:
        runner.cleanup()


def plan(table, i, tier):
    """(scenario index, number) of the i-th run: fixed cases first, then the
    scenarios interleaved in proportion of their weights."""
    for index, scenario in enumerate(table):
        if scenario.limit:
            if i < scenario.limit:
                return index, i
            i -= scenario.limit
    weights = [0 if s.limit else s.weight for s in table]
    cycle, pos = divmod(i, sum(weights))
    acc = 0
    for index, weight in enumerate(weights):
        if pos < acc + weight:
            return index, cycle * weight + pos - acc
        acc += weight
    raise AssertionError


# ------------------------------------------------------------------ replay
def replay(args):
    if os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        os.execve(PYTHON, [PYTHON] + sys.argv,
                  dict(os.environ, PYTHONHASHSEED='0'))
    sys.path.insert(0, HERE)
    from sim import env
    env.install()
    from sim import registry, runner
    with open(args.replay) as stream:
        data = json.load(stream)
    scenario = registry.scenarios()[data['property']][data['scenario']]
    try:
        res = runner.execute(scenario, data['spec'], data['seed'],
                             data['decisions'], full=args.trace)
    finally:
        runner.cleanup()
    if args.trace:
        for line in res['trace']:
            print(line)
    print(json.dumps({k: res[k] for k in (
        'violation', 'sig', 'known', 'harness', 'hash', 'steps',
        'fault_log')}))
    if res['violation']:
        print(f'VIOLATION property={data["property"]} replay={args.replay}')
        same = res['hash'] == data['hash'] and res['sig'] == data['sig']
        print('reproduced exactly' if same else
              'reproduced with a different execution')
        return 1
    return 0


def minimise(args):
    """Worker process shrinking a failing run (request on stdin)."""
    sys.path.insert(0, HERE)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from sim import env
    env.install()
    from sim import registry, runner
    data = json.load(sys.stdin)
    scenario = registry.scenarios()[args.id][data['scenario']]
    try:
        spec = runner.make_spec(scenario, data['seed'])
        res = runner.execute(scenario, spec, data['seed'])
        if not res['violation']:
            out.write(json.dumps({'lost': True}))
            return
        spec, res, decisions = runner.minimise(scenario, spec, data['seed'],
                                               res, args.wall)
        # the replay file describes exactly one execution
        last = runner.execute(scenario, spec, data['seed'], decisions)
        if not last['violation']:
            last, decisions = res, res['record']
        out.write(json.dumps({
            'property': args.id, 'scenario': data['scenario'],
            'name': type(scenario).__name__, 'seed': data['seed'],
            'spec': spec, 'decisions': decisions,
            **{k: last.get(k) for k in ('violation', 'sig', 'known', 'cause',
                                        'hash', 'steps', 'fault_log')},
        }))
        out.flush()
    finally:
        runner.cleanup()


# ------------------------------------------------------------------ master
def child(args, *extra, **kwargs):
    env = dict(os.environ, PYTHONHASHSEED=os.environ.get(
        'VERIF_HASHSEED', '0'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
        PYTHONDONTWRITEBYTECODE='1', MKL_NUM_THREADS='1')
    return subprocess.Popen(
        [PYTHON, os.path.abspath(__file__), args.id, '--seed', str(args.seed),
         '--tier', args.tier, *extra], env=env, text=True, **kwargs)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('id')
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--tier',
                        default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--runs', type=int)
    parser.add_argument('--wall', type=float)
    parser.add_argument('--jobs', type=int)
    parser.add_argument('--part', type=int)
    parser.add_argument('--mode', default='master')
    parser.add_argument('--replay')
    parser.add_argument('--trace', action='store_true')
    parser.add_argument('--digest')
    args = parser.parse_args()
    if args.mode == 'worker':
        worker(args)
        return 0
    if args.mode == 'minimise':
        minimise(args)
        return 0
    if args.replay:
        return replay(args)
    return master(args)


def master(args):
    t0 = time.time()
    sys.path.insert(0, HERE)
    from sim import budget
    quick, thorough = budget.RUNS[args.id]
    if args.runs is None:
        args.runs = quick if args.tier == 'quick' else thorough
    if args.wall is None:
        args.wall = 240.0 if args.tier == 'quick' else 3300.0
    args.jobs = args.jobs or min(8, os.cpu_count() or 1)
    procs = []
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for part in range(args.jobs):
        procs.append(child(args, '--mode', 'worker', '--part', str(part),
                           '--jobs', str(args.jobs), '--runs', str(args.runs),
                           '--wall', str(args.wall), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE))
    import threading
    runs, errors, ended = [], [], []
    stop = threading.Event()
    known = known_findings(args.id)

    def is_violation(run):
        return run['violation'] and run.get('known') not in known

    def pump(proc):
        for line in proc.stdout:
            data = json.loads(line)
            if data.get('end'):
                ended.append(proc)
            else:
                runs.append(data)
                if is_violation(data):
                    stop.set()

    def drain(proc, sink):
        sink.append(proc.stderr.read())

    sinks = [[] for _ in procs]
    threads = [threading.Thread(target=pump, args=(p, )) for p in procs]
    threads += [threading.Thread(target=drain, args=(p, s))
                for p, s in zip(procs, sinks)]
    for t in threads:
        t.start()
    hard = time.time() + args.wall + 280
    while any(p.poll() is None for p in procs):
        if stop.wait(0.1) or time.time() > hard:
            break
    if stop.is_set():
        time.sleep(0.2)
    hung = time.time() > hard
    if stop.is_set() or hung:
        for p in procs:
            if p.poll() is None:
                p.terminate()
        for p in procs:
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                p.kill()
    for t in threads:
        t.join(20)
    sweep(procs)
    if args.digest:
        with open(args.digest, 'w') as stream:
            for run in sorted(runs, key=lambda r: (r['scenario'], r['seed'])):
                stream.write(f'{run["scenario"]} {run["seed"]} {run["hash"]} '
                             f'{run["ilv"]} {run["steps"]} {run["sig"]}\n')
    status = conclude(args, runs, known, procs, ended, sinks, hung, stop, t0)
    return status


def sweep(procs):
    """Scratch directories of workers that were stopped."""
    import glob
    import shutil
    for p in procs:
        for path in glob.glob(f'/dev/shm/zsim-{p.pid}-*') + glob.glob(
                f'/tmp/zsim-{p.pid}-*'):
            shutil.rmtree(path, ignore_errors=True)


def conclude(args, runs, known, procs, ended, sinks, hung, stop, t0):
    runs.sort(key=lambda r: (r['seed'], r['scenario']))
    bad = [r for r in runs if r['violation'] and r.get('known') not in known]
    status = 0
    reported = 0
    seen = set()
    for run in bad:
        if run['sig'] in seen or reported >= 3:
            continue
        seen.add(run['sig'])
        path = write_replay(args, run)
        print(f'seed {run["seed"]}: {run["violation"]}')
        print(f'VIOLATION property={args.id} replay={path}', flush=True)
        reported += 1
        status = 1
    hits = {}
    for run in runs:
        if run['violation'] and run.get('known') in known:
            hits.setdefault(run['known'], []).append(run)
    for key, text in known.items():
        if key in hits:
            print(f'KNOWN-FINDING: property={args.id} {text} '
                  f'(seed {hits[key][0]["seed"]})')
    harness = [r for r in runs if r['harness']]
    if not status:
        if harness:
            print('HARNESS ERROR: no verdict\n' + harness[0]['harness'],
                  file=sys.stderr)
            status = 2
        elif hung or len(ended) < len(procs):
            print('a worker process failed: no verdict', file=sys.stderr)
            for p, sink in zip(procs, sinks):
                if p.returncode:
                    print((sink or [''])[0][-3000:], file=sys.stderr)
            status = 2
    evidence(args, runs, bad, hits, time.time() - t0)
    ok = sum(1 for r in runs if not r['violation'] and not r['harness'])
    print(f'{args.id}: {len(runs)} simulated runs, {ok} held, '
          f'{len(bad)} violations, {time.time() - t0:.0f} s')
    return status


def write_replay(args, run):
    """Minimise in a fresh process, write the replay file."""
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    budget = 60 if args.tier == 'quick' else 240
    data = None
    proc = child(args, '--mode', 'minimise', '--wall', str(budget),
                 stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                 stderr=subprocess.DEVNULL)
    try:
        text, _ = proc.communicate(json.dumps(
            {'scenario': run['scenario'], 'seed': run['seed']}),
            timeout=budget + 200)
        data = json.loads(text)
    except Exception:
        proc.kill()
    sweep([proc])
    if not data or data.get('lost'):
        data = {'property': args.id, 'scenario': run['scenario'],
                'seed': run['seed'], 'spec': run['spec'], 'decisions': None,
                'violation': run['violation'], 'sig': run['sig'],
                'hash': run['hash'], 'fault_log': run['fault_log'],
                'cause': run.get('cause')}
    path = os.path.join(HERE, 'replays', f'{args.id}-{run["scenario"]}-'
                        f'{run["seed"]}.json')
    with open(path, 'w') as stream:
        json.dump(data, stream, indent=1)
    return path


def evidence(args, runs, bad, hits, wall):
    sys.path.insert(0, HERE)
    from sim import budget
    injected = {}
    for run in runs:
        for kind, n in run['injected'].items():
            injected[kind] = injected.get(kind, 0) + n
    probes = {}
    for run in runs:
        for name, value in (run['facts'] or {}).items():
            if isinstance(value, bool):
                probes[name] = probes.get(name, 0) + value
            elif isinstance(value, int):
                probes[name] = probes.get(name, 0) + value
    distinct = {(r['scenario'], r['sh'], r['ilv']) for r in runs
                if (r['facts'] or {}).get('nontrivial')}
    samples = [{'scenario': r['scenario'], 'seed': r['seed'],
                'spec': r['spec'], 'steps': r['steps'],
                'faults': r['fault_log'][:5]}
               for r in runs if r['spec']][:3]
    hours = max(wall, 1e-6) / 3600
    data = {
        'property': args.id, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(runs),
            'distinct_nontrivial': len(distinct),
            'rule': budget.RULES[args.id],
            'samples': samples,
            'seeds_per_hour': round(len(runs) / hours),
            'simulated_seconds': round(sum(r['simtime'] for r in runs), 3),
            'scheduling_steps': sum(r['steps'] for r in runs),
            'context_switches': sum(r['switches'] for r in runs),
            'distinct_interleavings': len({r['ilv'] for r in runs}),
            'interleaving_measure': 'hash of the sequence of (thread, kind of '
                                    'operation) at every scheduling point',
            'decisions': sum(r['decisions'] for r in runs),
            'faults_injected': injected,
            'worker_deaths': sum(r['deaths'] for r in runs),
            'probes': probes,
            'known_findings_hit': {k: len(v) for k, v in hits.items()},
            'components_real': REAL,
            'components_stubbed': STUB,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(bad),
    }
    with open(os.path.join(HERE, 'evidence', f'{args.id}.json'), 'w') as f:
        json.dump(data, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
