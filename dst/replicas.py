"""Two replicas of one replicated clipper, one is executed by the port and
another one by the binding, they apply the same log."""
import json
import random

from . import geom, history, impls
from .core import Inconclusive, short
from .faults import measuring, needs_place, positioned
from .history import shrinks  # noqa
from .machine import Machine
from .oracle import Oracle
from .proc import Ended, Proc

NAMES = 'port', 'binding'


def plan(rnd, prof, index):
    found = None
    limit = None  # of points: others are slow
    choice = rnd.random()
    if index % 5 < 2:  # so every scene of the corpus is met
        choice = 0
        found = geom.rare_scene(rnd, index // 5 * 2 + index % 5)
        m, rings = found[:2]
    elif choice < prof['hard']:
        m, rings = geom.hard_scene(rnd)
    else:
        m, rings = geom.scene(rnd, *prof['rings'], prof['grids'])
    if choice < prof['hard']:
        limit = 160
    calm = rnd.random() < prof['calm']
    steps = [{'step': {'k': 'ring', 'r': r, 'pts': points}}
             for r, points in enumerate(rings)]
    steps.append({'step': {'k': 'new', 'c': 0, 'rev': rnd.random() < .35}})
    weights = {'add': 9, 'addp': 3, 'exec': 6, 'bounds': 1, 'scanbeams': .5,
               'dump': 1, 'clear': .3, 'new': .1, 'feed': 1.5}
    names = sorted(weights)
    values = [weights[name] * rnd.choice((.5, 1, 2)) for name in names]
    order = list(range(len(rings)))
    if found:
        kinds, op, f1, f2 = found[2:]
        for r, kind in enumerate(kinds):
            steps.append({'step': {'k': 'add', 'c': 0, 'r': r,
                                   'kind': kind}})
        steps.append({'step': {'k': 'exec', 'c': 0, 'op': op, 'f1': f1,
                               'f2': f2, 'via': 'named'}})
        if rnd.random() < .7:
            order = []
    elif len(rings) > 14:
        for r in order[14:]:
            steps.append({'step': {'k': 'add', 'c': 0, 'r': r,
                                   'kind': rnd.randrange(2)}})
        del order[14:]
    rnd.shuffle(order)
    for _ in range(rnd.randint(1, 5) if found and not order
                   else rnd.randint(*prof['steps'])):
        k = rnd.choices(names, values)[0]
        step = {'k': k, 'c': 0}
        if k == 'add':
            r = order.pop() if order else rnd.randrange(len(rings))
            step.update(r=r, kind=rnd.randrange(2))
        elif k == 'addp':
            step.update(rs=[order.pop() if order
                            else rnd.randrange(len(rings))
                            for _ in range(rnd.randint(1, 4))],
                        kind=rnd.randrange(2))
        elif k == 'exec':
            step = history.random_exec(rnd, 0)
        elif k == 'feed':
            step.update(i=rnd.randrange(8), kind=rnd.randrange(2))
        elif k == 'new':
            step['rev'] = rnd.random() < .35
        if limit is not None:
            size = sum(len(rings[r]) for r in step.get('rs',
                                                       [step['r']]
                                                       if k == 'add' else ()))
            if size > limit:
                continue
            limit -= size
            if k == 'clear':
                limit = 160
        entry = {'step': step, 'faults': {}}
        if not calm and k in ('add', 'addp', 'feed', 'exec', 'clear'):
            for name in NAMES:
                if rnd.random() < prof['fault']:
                    entry['faults'][name] = history.fault(
                        rnd, prof['kinds'], name)
        steps.append(entry)
    for _ in range(2 if found else 4):
        steps.append({'step': history.random_exec(rnd, 0)})
    steps.append({'step': {'k': 'bounds', 'c': 0}})
    steps.append({'step': {'k': 'dump', 'c': 0}})
    return {'m': m, 'steps': steps, 'calm': calm, 'impl': 'both'}


class Replica:
    """A server which keeps its log in a durable storage."""

    def __init__(self, name, ctx):
        self.name = name
        self.ctx = ctx
        self.start()

    def start(self):
        impl = impls.get(self.name)
        self.proc = Proc(lambda: Machine(impl))

    def ask(self, message):
        try:
            return self.proc.ask(message)
        except Ended as error:
            return [error.kind, error.detail], {}

    def restart(self, log):
        self.proc.kill()
        self.start()
        self.ctx.fault('restart of ' + self.name)
        for step in log:
            outcome, _ = self.ask({'step': step})
            self.ctx.check(outcome[0] in ('ok', 'error'), self.name,
                           'fails to apply its log:', short(outcome))


def placed(oracle, name, found, step, rings, adds):
    if not needs_place(found):
        return found
    question = {key: value for key, value in step.items() if key != 'c'}
    if 'r' in question:
        question['pts'] = rings[question.pop('r')]
    question['pool'] = [[r, rings[r]] for r in sorted(set(step.get('rs',
                                                                   ())))]
    _, info = oracle.ask(name, False, adds, question,
                         **measuring(name, found))
    return positioned(found, info)


def normalised(outcome):
    return outcome[:2] if outcome[0] == 'error' else outcome


def execute(plan_, prof, ctx):
    replicas = [Replica(name, ctx) for name in NAMES]
    log = []
    adds = []
    rnd = random.Random(json.dumps(plan_['steps'][:2]))
    rings = {}
    created = reverse = False
    result = []
    previous = '-'
    oracle = Oracle()
    try:
        for index, entry in enumerate(plan_['steps']):
            step, k = entry['step'], entry['step']['k']
            if (k not in ('ring', 'new') and not created
                    or k == 'add' and step['r'] not in rings
                    or any(r not in rings for r in step.get('rs', ()))):
                continue
            if k == 'feed':
                if not result:
                    continue
                k = 'addpts'
                step = {'k': k, 'c': 0, 'kind': step['kind'],
                        'rings': result[step['i'] % len(result)]}
            outcomes = []
            for replica in replicas:
                found = (entry.get('faults') or {}).get(replica.name)
                message = {'step': step}
                if found:
                    message['fault'] = placed(oracle, replica.name, found,
                                              step, rings, adds)
                outcome, info = replica.ask(message)
                fired = bool(info.get('fired'))
                ctx.stats['steps'] += 1
                ctx.stats['simulated time (events)'] += info.get('events', 0)
                if fired:
                    ctx.fault('%s:%s' % (replica.name, found['type']))
                if outcome[0] == 'aborted':
                    ctx.check(fired or info.get('pending') is not None,
                              replica.name, short(outcome),
                              'without a reason')
                    # nobody knows whether it has been done: the replica
                    # restarts, applies its log and tries again
                    ctx.event(index, replica.name, json.dumps(message),
                              'aborted', info.get('site'))
                    if ((found or {}).get('ppm', 0) % 2 and k == 'exec'
                            and replica.name == 'port'):
                        ctx.fault('retry without restart of '
                                  + replica.name)
                    else:
                        replica.restart(log)
                    outcome, info = replica.ask({'step': step})
                outcomes.append(outcome)
            ctx.event(index, json.dumps(step, sort_keys=True),
                      json.dumps(outcomes))
            name = 'step %d (%s)' % (index, k)
            first, second = map(normalised, outcomes)
            ctx.state(k, step.get('op'), step.get('f1'), step.get('f2'),
                      first[0], previous, min(len(adds), 8))
            previous = k
            if first[0] in ('hang', 'crash') and first[0] == second[0]:
                raise Inconclusive('both replicas: %s' % short(first))
            ctx.check(first == second, name, 'port:', short(outcomes[0]),
                      'binding:', short(outcomes[1]))
            if first[0] == 'error':
                ctx.stats['errors agreed upon'] += 1
            if k in ('ring', 'new', 'add', 'addp', 'addpts', 'clear'):
                log.append(step)
            if k == 'exec' and first[0] == 'ok':
                result = history.integers(first[1])
            if k == 'ring':
                rings[step['r']] = step['pts']
            elif k in ('new', 'clear'):
                created = True
                reverse = step.get('rev', reverse)
                adds = []
            elif k == 'add' and first[0] == 'ok':
                adds.append((rings[step['r']], step['kind']))
            elif k == 'addp' and first[0] == 'ok':
                adds.extend((rings[r], step['kind']) for r in step['rs'])
            elif k == 'addpts' and first[0] == 'ok':
                adds.extend((points, step['kind'])
                            for points in step['rings'])
            elif k == 'exec' and first[0] == 'ok' and prof['region']:
                tolerance = 1. if plan_['m'] <= 20 else 1.5
                point, decided = geom.region_mismatch(
                    rnd, adds, step['op'], step['f1'], step['f2'],
                    first[1], reverse, 20, tolerance)
                ctx.stats['points compared with the model'] += decided
                ctx.check(point is None, name,
                          'disagrees with rings at', point)
    finally:
        for replica in replicas:
            replica.proc.close()
