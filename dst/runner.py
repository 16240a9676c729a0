"""Runs many simulations, reports, minimises and replays."""
import collections
import json
import os
import random
import select
import sys
import time
import traceback

from . import build, impls, props
from .core import Context, Inconclusive, Violation, seed_of, short
from .proc import Ended, HarnessError, LibraryError, Proc, isolated

ROOT = build.ROOT
OUTER = dict(cpu_limit=600., stall_limit=700., wall_limit=800.)
MINIMISATION_TIME = float(os.environ.get('VERIF_MINIMISATION') or 150.)
MINIMISATION_RUNS = 400


def workers_count():
    return int(os.environ.get('VERIF_WORKERS') or os.cpu_count() or 4)


def make_plan(prop, seed, index):
    result = props.get(prop).plan(random.Random(seed_of(prop, seed, index)),
                                  index)
    return json.loads(json.dumps(result))


def run_plan(prop, plan):
    """Executes the plan in the current process, which should be disposable."""
    ctx = Context()
    result = {'violation': None, 'inconclusive': None, 'harness': None}
    started = time.monotonic()
    try:
        props.get(prop).execute(plan, ctx)
    except Violation as error:
        result['violation'] = str(error)
    except Inconclusive as error:
        result['inconclusive'] = str(error)
        ctx.event('INCONCLUSIVE', error)
    except LibraryError as error:
        result['violation'] = 'unexpected exception: %s' % ' / '.join(
            str(error).strip().splitlines()[-3:])
    except HarnessError as error:
        result['harness'] = str(error)
    except Ended as error:
        if error.kind == 'dead':
            result['harness'] = 'unexpected end: %s' % error
        else:
            result['violation'] = 'unexpected end: %s' % error
    except Exception:
        result['harness'] = traceback.format_exc()
    result.update(digest=ctx.digest(), stats=dict(ctx.stats),
                  faults=dict(ctx.faults), states=sorted(ctx.states),
                  lines=ctx.lines, seconds=time.monotonic() - started)
    return result


def _from_seed(prop, seed, index):
    plan = make_plan(prop, seed, index)
    result = run_plan(prop, plan)
    if not (result['violation'] or result['harness']):
        del result['lines']
    else:
        result['plan'] = plan
    return result


def run_isolated(prop, plan):
    return isolated(run_plan, prop, plan, **OUTER)


class Pool:
    def __init__(self, count, function):
        self.procs = [Proc(lambda: lambda args: isolated(function, *args,
                                                         **OUTER))
                      for _ in range(count)]

    def map(self, tasks, deadline):
        """Yields pairs of numbers of tasks and results until told to stop."""
        tasks = iter(enumerate(tasks))
        busy = {}
        free = list(self.procs)
        stopped = False
        while True:
            while free and not stopped:
                task = next(tasks, None)
                if task is None:
                    break
                proc = free.pop()
                proc.post(task[1])
                busy[proc] = task[0]
            if not busy:
                return
            ready, _, _ = select.select(list(busy), [], [], 5.)
            if time.monotonic() > deadline:
                raise HarnessError('out of time')
            for proc in ready:
                number = busy.pop(proc)
                try:
                    value = proc.collect()
                except Ended as error:
                    raise HarnessError('worker has ended: %s' % error)
                free.append(proc)
                if (yield number, value):
                    stopped = True

    def close(self):
        for proc in self.procs:
            proc.close()


def known_findings():
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if not os.path.exists(path):
        return []
    with open(path) as file:
        return [json.loads(line) for line in file if line.strip()]


def check(prop, tier, seed):
    started = time.monotonic()
    module = props.get(prop)
    limit = float(os.environ.get('VERIF_DEADLINE')
                  or (780. if tier == 'quick' else 6 * 3600.))
    deadline = started + limit
    impls.load(module.IMPLS)
    build_seconds = time.monotonic() - started
    runs = int(os.environ.get('VERIF_RUNS') or module.RUNS[tier])
    stats, faults = collections.Counter(), collections.Counter()
    states = set()
    digests = {}
    bad = None
    harness = []
    inconclusive = []
    violations = []
    curve = []
    pool = Pool(workers_count(), _from_seed)
    calm = 0
    generator = pool.map(((prop, seed, index) for index in range(runs)),
                         deadline)
    try:
        item = next(generator, None)
        while item is not None:
            index, result = item
            stats.update(result['stats'])
            faults.update(result['faults'])
            calm += not result['faults']
            states.update(result['states'])
            digests[index] = result['digest']
            if len(digests) % max(1, runs // 8) == 0:
                curve.append([len(digests), len(states)])
            stop = False
            if result['harness']:
                harness.append((index, result['harness']))
                stop = len(harness) > 3
            elif result['violation']:
                if bad is None or index < bad[0]:
                    bad = index, result
                stop = True
            elif result['inconclusive']:
                inconclusive.append((index, result['inconclusive']))
            try:
                item = generator.send(stop)
            except StopIteration:
                break
    finally:
        pool.close()
    wall = time.monotonic() - started
    if bad is not None:
        index, result = bad
        path, text = minimise(prop, seed, index, result,
                              min(deadline + 60, time.monotonic()
                                  + MINIMISATION_TIME))
        violations.append({'replay': path, 'what': text, 'seed': seed,
                           'run': index})
    known = []
    for finding in known_findings():
        if finding.get('property') == prop and finding.get('kind') == 'known':
            known.append(finding)
    searched = max(wall - build_seconds, 1e-3)
    trivial = stats['trivial runs']
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(digests),
            'distinct_nontrivial': len(set(digests.values())) - min(
                trivial, len(set(digests.values())) - 1),
            'rule': module.RULE,
            'samples': samples(prop, seed, sorted(digests)),
            'runs': len(digests),
            'runs_without_faults': calm,
            'runs_per_hour': round(len(digests) * 3600 / searched),
            'seeds_per_hour': round(len(digests) * 3600 / searched),
            'simulated_steps': stats['steps'],
            'simulated_time_in_events': stats['simulated time (events)'],
            'faults_injected': dict(sorted(faults.items())),
            'distinct_states': len(states),
            'distinct_states_measure': (
                'combinations of operation, its outcome, kind and source '
                'line of the fault, previous operation and size of the '
                'state, see Context.state'),
            'states_by_runs': curve,
            'counters': dict(sorted(stats.items())),
            'inconclusive_runs': len(inconclusive),
            'inconclusive_samples': [short(text, 200) for _, text
                                     in inconclusive[:3]],
            'real_components': list(module.REAL),
            'stubs': list(module.STUBS),
            'digest_of_all_runs': digest_of(digests),
            'violations_found': violations,
            'known_findings': [finding['id'] for finding in known],
        },
        'wall_s': round(time.monotonic() - started, 1),
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())) + [
            'seeded search, not enumeration: nothing is claimed about '
            'schedules and faults which have not been drawn'],
        'violations': len(violations),
    }
    write_evidence(prop, evidence)
    for finding in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, finding['what']))
    print('%s %s: %d runs (%d inconclusive), %d steps, %d checks, faults %s, '
          '%d states, %.0f s' % (
              prop, tier, len(digests), len(inconclusive), stats['steps'],
              stats['checks'], dict(sorted(faults.items())), len(states),
              time.monotonic() - started))
    if violations:
        print('seed %s, run %s: %s' % (seed, bad[0], violations[0]['what']))
        print('VIOLATION property=%s replay=%s' % (prop,
                                                   violations[0]['replay']))
        return 1
    if harness:
        print('HARNESS ERROR in run %d:\n%s' % harness[0], file=sys.stderr)
        return 2
    if len(inconclusive) > .2 * runs:
        print('too many inconclusive runs, the first: %s' % inconclusive[0][1],
              file=sys.stderr)
        return 2
    for name, least in getattr(module, 'PROBES', {}).items():
        if faults.get(name, 0) + stats.get(name, 0) < least \
                and runs >= module.RUNS['quick']:
            print('probe "%s" was reached %d times only'
                  % (name, faults.get(name, 0) + stats.get(name, 0)),
                  file=sys.stderr)
            return 2
    return 0


def digest_of(digests):
    import hashlib
    return hashlib.sha256(repr(sorted(digests.items())).encode()).hexdigest()


def samples(prop, seed, indices):
    result = []
    for index in indices[:3]:
        plan = make_plan(prop, seed, index)
        result.append('run %d: %s' % (index, short(plan, 600)))
    return result or ['none']


def write_evidence(prop, evidence):
    directory = os.path.join(ROOT, 'evidence')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, prop + '.json')
    with open(path + '.tmp', 'w') as file:
        json.dump(evidence, file, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)


def minimise(prop, seed, index, result, deadline):
    """Writes the replay file of a smaller plan with the same violation."""
    module = props.get(prop)
    plan, best = result['plan'], result
    runs = 0
    pool = Pool(workers_count(), run_plan)
    progress = True
    while progress and runs < MINIMISATION_RUNS \
            and time.monotonic() < deadline:
        progress = False
        candidates = list(module.shrinks(plan))
        at = 0
        while at < len(candidates) and time.monotonic() < deadline \
                and runs < MINIMISATION_RUNS:
            part = candidates[at:at + len(pool.procs)]
            at += len(part)
            runs += len(part)
            found = {}
            try:
                for number, value in pool.map(
                        [(prop, candidate) for candidate in part],
                        deadline + 300):
                    if value['violation'] and not value['harness']:
                        found[number] = value
            except HarnessError:
                pool.close()
                pool = Pool(workers_count(), run_plan)
                continue
            if found:
                number = min(found)
                plan, best = part[number], found[number]
                progress = True
                break
    pool.close()
    # the replay should give exactly the same
    again = run_isolated(prop, plan)
    reproduced = (again['violation'] == best['violation']
                  and again['digest'] == best['digest'])
    if not reproduced:
        plan, best = result['plan'], result
        again = run_isolated(prop, plan)
        reproduced = (again['violation'] == best['violation']
                      and again['digest'] == best['digest'])
    directory = os.path.join(ROOT, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s-%s-%d.json' % (prop, seed, index))
    with open(path, 'w') as file:
        json.dump({'property': prop, 'seed': seed, 'run': index,
                   'violation': again['violation'] or best['violation'],
                   'digest': again['digest'], 'reproduced': reproduced,
                   'minimisation_runs': runs, 'plan': plan,
                   'trace': again['lines']}, file, indent=1)
    return path, best['violation']


def replay(path):
    with open(path) as file:
        data = json.load(file)
    module = props.get(data['property'])
    impls.load(module.IMPLS)
    result = run_isolated(data['property'], data['plan'])
    for line in result['lines']:
        print(line)
    if result['harness']:
        print(result['harness'], file=sys.stderr)
        return 2
    if not result['violation']:
        print('no violation')
        return 0
    print('digest %s' % ('is the same' if result['digest'] == data['digest']
                         else 'differs from the recorded one'))
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    return 1


def digests(prop, seed, runs, workers):
    module = props.get(prop)
    impls.load(module.IMPLS)
    pool = Pool(workers, _from_seed)
    result = {}
    for index, value in pool.map(((prop, seed, index)
                                  for index in range(runs)),
                                 time.monotonic() + 3000):
        if value['harness']:
            raise HarnessError(value['harness'])
        result[index] = value['digest']
    pool.close()
    return [result[index] for index in range(runs)]
