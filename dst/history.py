"""Histories of clippers in one simulated process: seeded plans, their
execution and the checks against a never used process and reference models."""
import json
import random

from . import geom, impls
from .core import Inconclusive, short
from .faults import measuring, needs_place, positioned
from .machine import Machine
from .oracle import Oracle
from .proc import Ended, Proc

OPS = geom.OPS
EXCEPTIONS = ['KeyboardInterrupt', 'MemoryError', 'RecursionError', 'Alarm']
MAX_WORLDS = 24


def profile(**changes):
    result = dict(
        weights={'add': 6, 'addp': 3, 'exec': 7, 'bounds': 1, 'scanbeams': 1,
                 'touch': .5, 'dump': .7, 'repr': .3, 'eq': .3, 'clear': .8, 'drop': .2,
                 'new': .3, 'gc': .3, 'deepcopy': .4, 'mutate': 0,
                 'dropres': .2, 'add_bad': 0, 'feed': .8},
        faulty={},  # operation -> probability
        kinds={},  # fault -> weight
        calm=.25,  # fraction of runs without any faults
        steps=(5, 14), rings=(2, 6), clippers=(1, 3), keep=.2,
        grids=(5, 8, 12, 20, 50, 100, 400, 1000),
        marathon=0, region=False, inputs=False, progress=False, degenerate=True,
        measure='line', hard=.1, spoil=.3)
    result.update(changes)
    return result


# --- generation ---

def fault(rnd, kinds, impl):
    names = sorted(kind for kind in kinds
                   if (kind in ('exc', 'recursion', 'gc')) == (impl == 'port'))
    if not names:
        return None
    kind = rnd.choices(names, [kinds[name] for name in names])[0]
    if kind == 'exc':
        return {'type': 'exc', 'name': rnd.choice(EXCEPTIONS),
                'ppm': rnd.randrange(1000000), 'opcodes': rnd.random() < .4,
                'rare': rnd.choice((False, False, True, 'call'))}
    if kind == 'recursion':
        return {'type': 'recursion', 'k': rnd.randint(5, 16)}
    if kind == 'gc':
        return {'type': 'gc', 'opcodes': False,
                'ppms': sorted(rnd.randrange(1000000) for _ in range(4))}
    if kind == 'request-now':
        return {'type': 'request-now'}
    return {'type': kind, 'ppm': rnd.randrange(1000000),
            'rare': rnd.random() < .4}


def random_exec(rnd, c):
    op = rnd.choice(OPS)
    f1, f2 = rnd.randrange(4), rnd.randrange(4)
    if rnd.random() < .35:
        f1 = f2 = 0
    via = rnd.choice(('named', 'named', 'keyword', 'execute'))
    if f1 == f2 == 0 and rnd.random() < .5:
        via = 'default'
    return {'k': 'exec', 'c': c, 'op': op, 'f1': f1, 'f2': f2, 'via': via}


FOLLOWED = 120


def lighten(steps):
    """Executions over too many points are followed by lines only, it would
    take minutes otherwise."""
    sizes, totals = {}, {}
    for entry in steps:
        step = entry['step']
        k, c = step['k'], step.get('c')
        if k == 'ring':
            sizes[step['r']] = len(step['pts'])
        elif k == 'deepcopy':
            totals[step['d']] = totals.get(c, 0)
        elif k == 'new':
            totals[c] = 0
        elif k in ('add', 'addp'):
            # either clipper can have been reached by a failed attempt
            totals[c] = totals.get(c, 0) + sum(
                sizes.get(r, 0) for r in step.get('rs', [step.get('r')]))
        elif k == 'feed':
            totals[c] = totals.get(c, 0) + 50
        elif k == 'clear' and 'fault' not in entry:
            totals[c] = 0
        elif k == 'exec' and totals.get(c, 0) > FOLLOWED:
            if entry.get('fault', {}).get('opcodes'):
                entry['fault'] = dict(entry['fault'], opcodes=False)


def plan(rnd, impl, prof):
    low, high = prof['rings']
    calm = not prof['kinds'] or rnd.random() < prof['calm']
    limit = rare = None
    if rnd.random() < prof['hard']:
        if rnd.random() < .5:
            m, rings = geom.hard_scene(rnd)
        else:
            m, rings, *rare = geom.rare_scene(rnd)
        limit = 200  # of points: executions are slow
    else:
        m, rings = geom.scene(rnd, low, high, prof['grids'],
                              with_degenerate=prof['degenerate'])
    steps = []
    for r, points in enumerate(rings):
        steps.append({'step': {'k': 'ring', 'r': r, 'pts': points}})
    count = rnd.randint(*prof['clippers'])
    for c in range(count):
        steps.append({'step': {'k': 'new', 'c': c,
                               'rev': rnd.random() < .35}})
    weights = {}
    for name, weight in prof['weights'].items():
        # every run has its own mix
        weights[name] = weight * rnd.choice((0, .5, 1, 1, 2)) \
            if name not in ('add', 'exec') else weight
    if impl != 'port':
        weights.pop('deepcopy', None)
    names = sorted(weights)
    values = [weights[name] for name in names]
    last = None
    results = 0
    kept = []
    if rare and rnd.random() < .7:
        # most likely it is what makes the scene special
        kinds, op, f1, f2 = rare
        for r, points in enumerate(rings):
            steps.append({'step': {'k': 'add', 'c': 0, 'r': r,
                                   'kind': kinds[r]}})
            limit -= len(points)
        last = {'k': 'exec', 'c': 0, 'op': op, 'f1': f1, 'f2': f2,
                'via': 'named'}
        for _ in range(rnd.randint(1, 3)):
            entry = {'step': dict(last)}
            if not calm and rnd.random() < prof['faulty'].get('exec', 0):
                entry['fault'] = fault(rnd, prof['kinds'], impl)
                if not entry['fault']:
                    del entry['fault']
            steps.append(entry)
    for _ in range(rnd.randint(*prof['steps'])):
        k = rnd.choices(names, values)[0]
        c = rnd.randrange(count)
        if k == 'feed' and not kept:
            k = 'exec'
        step = {'k': k, 'c': c}
        if k == 'add':
            step.update(r=rnd.randrange(len(rings)), kind=rnd.randrange(2))
        elif k == 'addp':
            step.update(rs=[rnd.randrange(len(rings))
                            for _ in range(rnd.choice((0, 1, 1, 2, 2, 3, 3,
                                                       5, 8)))],
                        kind=rnd.randrange(2), hold=rnd.random() < .5)
        elif k == 'exec':
            step = random_exec(rnd, c)
            if last is not None and rnd.random() < .35:
                step = dict(last)  # once again
                step.pop('keep', None)
            last = step
            if rnd.random() < prof['keep']:
                step = dict(step, keep=results)
                kept.append(results)
                results += 1
        elif k in ('bounds', 'scanbeams'):
            if rnd.random() < prof['spoil']:
                step['spoil'] = 1  # the user changes what has been returned
        elif k == 'eq':
            step['d'] = rnd.randrange(count)
        elif k == 'deepcopy':
            step['d'] = rnd.randrange(count)
        elif k == 'new':
            step['rev'] = rnd.random() < .35
        elif k == 'feed':
            step.update(res=rnd.choice(kept), i=rnd.randrange(6),
                        kind=rnd.randrange(2))
        elif k in ('mutate', 'dropres'):
            if not kept:
                continue
            step = {'k': k, 'res': kept.pop(rnd.randrange(len(kept)))}
        elif k == 'gc':
            step = {'k': 'gc'}
        elif k == 'add_bad':
            step['what'] = rnd.choice(('none', 'polygon', 'polygon',
                                       'iterable', 'points', 'points'))
            step['kind'] = rnd.randrange(2)
            if step['what'] in ('polygon', 'iterable'):
                step['rs'] = [rnd.randrange(len(rings))
                              for _ in range(rnd.randint(1, 5))]
                step['at'] = rnd.randrange(100)
            elif step['what'] == 'points':
                step['pts'] = rnd.choice([ring for ring in rings
                                          if len(ring) > 2]
                                         or [[[0, 0], [4, 0], [0, 4]]])
                step['at'] = rnd.randrange(100)
        if limit is not None and k in ('add', 'addp', 'add_bad'):
            size = sum(len(rings[r]) for r in step.get('rs', [step.get('r',
                                                                       0)]))
            if size > limit:
                continue
            limit -= size
        entry = {'step': step}
        if not calm and rnd.random() < prof['faulty'].get(k, 0):
            found = fault(rnd, prof['kinds'], impl)
            if found:
                entry['fault'] = found
        steps.append(entry)
        if 'fault' in entry and rnd.random() < .5:
            # the user tries again
            steps.append({'step': dict(step)})
    if rnd.random() < prof['marathon']:
        # counters overflow, caches are filled
        for _ in range(rnd.randint(1, 2)):
            at = rnd.randrange(len(rings) + count, len(steps) + 1)
            times = min(rnd.choice((10, 40, 150, 300)),
                        6000 // (sum(map(len, rings)) + 1) + 2)
            step = dict(random_exec(rnd, rnd.randrange(count)), times=times)
            if rnd.random() < .5:
                del step['c']
                step.update(k='churn', r=rnd.randrange(len(rings)),
                            kind=rnd.randrange(2), rev=rnd.random() < .35)
            steps.insert(at, {'step': step})
    for c in range(count):
        steps.append({'step': {'k': 'dump', 'c': c}})
        steps.append({'step': {'k': 'scanbeams', 'c': c}})
        steps.append({'step': random_exec(rnd, c)})
        steps.append({'step': {'k': 'bounds', 'c': c}})
        steps.append({'step': random_exec(rnd, c), 'final': 1})
        steps.append({'step': {'k': 'dump', 'c': c}})
    lighten(steps)
    return {'impl': impl, 'm': m, 'steps': steps, 'calm': calm}


# --- execution ---

class Clipper:
    def __init__(self, reverse, worlds):
        self.reverse = reverse
        self.worlds = worlds


class Execution:
    def __init__(self, plan_, prof, ctx):
        self.plan, self.prof, self.ctx = plan_, prof, ctx
        self.impl = plan_['impl']
        self.oracle = Oracle()
        self.env = plan_.get('env')
        self.oracle_env = plan_.get('oracle_env')
        self.rings = {}
        self.results = {}
        self.given = set()
        self.clippers = {}
        self.pending = False
        self.previous = '-'
        self.random = random.Random(json.dumps(plan_['steps'][:3]))

    def ask_oracle(self, reverse, adds, step, **options):
        return self.oracle.ask(self.impl, reverse, adds, step,
                               env=self.oracle_env, **options)

    def run(self):
        impl, env = impls.get(self.impl), self.env
        self.child = Proc(lambda: Machine(impl, env))
        try:
            for index, entry in enumerate(self.plan['steps']):
                if not self.applicable(entry['step']):
                    continue
                self.perform(index, entry)
        finally:
            self.child.close()
            self.ctx.stats['oracle processes'] += self.oracle.asked

    def applicable(self, step):
        if 'c' in step and step['k'] != 'new' \
                and step['c'] not in self.clippers:
            return False
        if step['k'] == 'eq' and step['d'] not in self.clippers:
            return False
        if 'r' in step and step['k'] != 'ring' \
                and step['r'] not in self.rings:
            return False
        if step['k'] == 'feed' and not self.results.get(step['res']):
            return False
        if step['k'] == 'mutate' and step['res'] in self.given:
            return False  # it is an input as well
        return all(r in self.rings for r in step.get('rs', ()))

    def points_of(self, step):
        return step['pts'] if 'pts' in step else self.rings[step['r']]

    def fed(self, step):
        result = self.results[step['res']]
        return result[step['i'] % len(result)]

    def question(self, step):
        """Outcome of the step does not depend on anything else."""
        k = step['k']
        if k == 'exec':
            return {'k': 'exec', 'op': step['op'], 'f1': step['f1'],
                    'f2': step['f2']}
        if k == 'add':
            return {'k': 'add', 'pts': self.points_of(step),
                    'kind': step['kind']}
        if k == 'feed':
            rings = self.fed(step)
            return {'k': 'addp', 'rs': list(range(len(rings))),
                    'kind': step['kind'],
                    'pool': [list(pair) for pair in enumerate(rings)]}
        if k == 'addp':
            return {'k': 'addp', 'rs': step['rs'], 'kind': step['kind'],
                    'pool': [[r, self.rings[r]]
                             for r in sorted(set(step['rs']))]}
        if k == 'add_bad':
            result = {key: value for key, value in step.items() if key != 'c'}
            result['pool'] = [[r, self.rings[r]]
                              for r in sorted(set(step.get('rs', ())))]
            return result
        return {'k': k}

    def resolve(self, step, found, worlds):
        """Turns relative position of the fault into an absolute one."""
        if not needs_place(found):
            return found
        reverse = (self.clippers[step['c']].reverse if 'c' in step
                   and step['c'] in self.clippers else False)
        question = self.question(step)
        if step['k'] == 'deepcopy':
            question['d'] = 1
        elif step['k'] == 'eq':
            question['d'] = 0
        elif step['k'] not in ('exec', 'add', 'addp', 'feed', 'add_bad',
                               'bounds',
                               'repr', 'touch', 'scanbeams', 'clear', 'dump'):
            return None
        _, info = self.ask_oracle(
            reverse, worlds[0], question, **measuring(self.impl, found))
        return positioned(found, info)

    def perform(self, index, entry):
        ctx, step, k = self.ctx, entry['step'], entry['step']['k']
        clipper = self.clippers.get(step.get('c'))
        worlds = clipper.worlds if clipper and k != 'new' else [()]
        message = {'step': step, 'inputs': self.prof['inputs']}
        if entry.get('fault'):
            message['fault'] = self.resolve(step, entry['fault'], worlds)
            if message['fault'] is None:
                del message['fault']
                ctx.stats['faults without a place'] += 1
        budget = None
        if self.prof['progress'] and k in ('exec', 'add', 'addp', 'feed'):
            budget = self.budget(step, worlds, clipper, entry)
            if budget is not None and (self.impl != 'port'
                                       or entry.get('final')):
                message['budget'] = budget
                message['measure'] = 'lines'
        pending = self.pending
        try:
            outcome, info = self.child.ask(message)
        except Ended as error:
            outcome, info = [error.kind, error.detail], {}
        fired = bool(info.get('fired'))
        self.pending = bool(info.get('pending'))
        ctx.stats['steps'] += 1
        ctx.stats['simulated time (events)'] += info.get('events', 0) or 0
        fault_kind = (message.get('fault') or {}).get('type')
        if fault_kind == 'exc':
            fault_kind = 'exc:' + message['fault']['name']
        if fired:
            ctx.fault(fault_kind, info.get('fires', 1))
            ctx.state(k, fault_kind, info.get('site'), self.previous)
        ctx.state(k, step.get('op'), outcome[0], fault_kind, self.previous,
                  len(worlds), min(len(worlds[0]), 6))
        ctx.event(index, json.dumps(step, sort_keys=True), fault_kind,
                  info.get('site'), json.dumps(outcome), pending)
        name = 'step %d (%s%s)' % (
            index, k, ' of clipper %s' % step['c'] if 'c' in step else '')
        self.previous = k + ('!' if outcome[0] == 'aborted' else '')
        if outcome[0] in ('crash', 'hang', 'deadlock', 'dead'):
            self.fatal(name, outcome, step, worlds, clipper, fault_kind)
        changed = info.get('changed')
        if changed:
            ctx.check(False, name, 'with', fault_kind, 'changed',
                      ', '.join(changed))
        aborted = outcome[0] == 'aborted'
        if aborted:
            if 'interrupted' in outcome[2]:
                requested = fired and fault_kind.startswith('request')
                ctx.check(requested or pending, name,
                          'was interrupted although it was not requested')
                if not requested:
                    ctx.fault('request-delivered-later')
                ctx.check(not self.pending, name, 'was interrupted '
                          'but the request is still pending')
            else:
                ctx.check(fired, name, 'failed with', short(outcome),
                          'although nothing has been injected')
            ctx.stats['aborted operations'] += 1
        elif fired and fault_kind.startswith('exc'):
            ctx.check(False, name, fault_kind, 'injected at',
                      info.get('site'), 'was swallowed, outcome',
                      short(outcome))
        self.update(name, step, entry, outcome, aborted, clipper, worlds)

    def budget(self, step, worlds, clipper, entry):
        if self.impl == 'port' and not entry.get('final'):
            return None
        _, info = self.ask_oracle(clipper.reverse, worlds[0],
                                  self.question(step), measure='lines')
        events = info.get('events')
        return None if events is None else 20 * events + 20000

    def fatal(self, name, outcome, step, worlds, clipper, fault_kind):
        if fault_kind is None and clipper is not None and step['k'] != 'new':
            expected, _ = self.ask_oracle(clipper.reverse, worlds[0],
                                          self.question(step))
            if expected[0] == outcome[0]:
                raise Inconclusive('a fresh clipper also ends with %s'
                                   % short(expected))
        self.ctx.check(False, name, 'with fault', fault_kind,
                       'ended the process:', short(outcome))

    def update(self, name, step, entry, outcome, aborted, clipper, worlds):
        ctx, k = self.ctx, step['k']
        if k == 'ring':
            if outcome[0] == 'ok':
                self.rings[step['r']] = step['pts']
            return
        if k == 'new':
            if outcome[0] == 'ok':
                self.clippers[step['c']] = Clipper(step['rev'], [()])
            else:
                self.clippers.pop(step['c'], None)
            return
        if k in ('mutate', 'dropres'):
            self.results.pop(step['res'], None)
            return
        if k == 'gc':
            return
        if k == 'churn':
            answer, _ = self.ask_oracle(
                step['rev'], ((self.rings[step['r']], step['kind']),),
                {'k': 'exec', 'op': step['op'], 'f1': step['f1'],
                 'f2': step['f2']})
            ctx.check(outcome == answer or answer[0] == 'unbuildable', name,
                      'gives', short(outcome), 'once it is', short(answer))
            return
        if k == 'exec' and 'keep' in step:
            self.results.pop(step['keep'], None)
            if outcome[0] == 'ok':
                self.results[step['keep']] = integers(outcome[1])
        if k == 'drop':
            del self.clippers[step['c']]
            return
        if k == 'clear':
            if aborted:
                self.set_worlds(clipper, worlds + [()])
            else:
                ctx.check(outcome[0] == 'ok', name, 'failed:', short(outcome))
                clipper.worlds = [()]
            return
        if k == 'deepcopy':
            if outcome[0] == 'ok':
                self.clippers[step['d']] = Clipper(clipper.reverse,
                                                   list(worlds))
            else:
                ctx.check(aborted, name, 'failed:', short(outcome))
            return
        if k in ('add', 'addp', 'feed'):
            self.added(name, step, outcome, aborted, clipper, worlds)
            return
        if aborted:
            return
        if k in ('repr', 'eq', 'touch'):
            if k != 'touch':
                ctx.check(outcome[0] == 'ok', name, 'failed:', short(outcome))
            return
        question = self.question(step)
        answers = [self.ask_oracle(clipper.reverse, world, question)[0]
                   for world in (worlds if k != 'add_bad' else [()])]
        if any(answer[0] in ('crash', 'hang', 'deadlock', 'unbuildable')
               for answer in answers):
            raise Inconclusive(short(answers))
        if k == 'add_bad' and answers[0] == ['ok', True]:
            raise Inconclusive('bad input has been accepted')
        ctx.check(outcome in answers, name, 'gives', short(outcome),
                  'fresh clipper gives', short(answers[0]),
                  *(['or', short(answers[1:])] if answers[1:] else []))
        if k == 'add_bad':
            return
        clipper.worlds = [world for world, answer in zip(worlds, answers)
                          if answer == outcome]
        if self.prof['region'] and k == 'exec' and outcome[0] == 'ok':
            self.check_region(name, step, outcome[1], clipper)

    def set_worlds(self, clipper, worlds):
        unique = []
        for world in worlds:
            if world not in unique:
                unique.append(world)
        if len(unique) > MAX_WORLDS:
            raise Inconclusive('too many operations in doubt')
        clipper.worlds = unique

    def added(self, name, step, outcome, aborted, clipper, worlds):
        if step['k'] == 'add':
            new = [(self.points_of(step), step['kind'])]
        elif step['k'] == 'feed':
            new = [(points, step['kind']) for points in self.fed(step)]
            self.given.add(step['res'])
        else:
            new = [(self.rings[r], step['kind']) for r in step['rs']]
        expected, _ = self.ask_oracle(False, (), self.question(step))
        if expected[0] in ('crash', 'hang', 'deadlock'):
            raise Inconclusive(short(expected))
        if expected[0] == 'ok':
            # rings which do not contribute are not a part of the state
            new = tuple((points, kind) for points, kind in new
                        if self.contributes(points, kind))
        if aborted:
            if expected[0] == 'ok':
                self.set_worlds(clipper, worlds + [world + new
                                                   for world in worlds])
            return
        self.ctx.check(outcome == expected, name, 'gives', short(outcome),
                       'fresh clipper gives', short(expected))
        if outcome[0] == 'ok':
            clipper.worlds = [world + new for world in worlds]

    def contributes(self, points, kind):
        expected, _ = self.ask_oracle(False, (), {'k': 'add', 'pts': points,
                                                  'kind': kind})
        return expected == ['ok', True]

    def check_region(self, name, step, result, clipper):
        tolerance = 1. if self.plan['m'] <= 20 else 1.5
        for world in clipper.worlds:
            seed = self.random.random()
            point, decided = geom.region_mismatch(
                random.Random(seed), world, step['op'], step['f1'],
                step['f2'], result, clipper.reverse, 30, tolerance)
            self.ctx.stats['points compared with the model'] += decided
            if point is None:
                return
        self.ctx.check(False, name, 'disagrees with acknowledged rings at',
                       point)


def integers(result):
    """Coordinates of results are whole, the port gives them as ints."""
    return [[[[int(x) if x == int(x) else x, int(y) if y == int(y) else y]
              for x, y in ring] for ring in polygon] for polygon in result]


def execute(plan_, prof, ctx):
    Execution(plan_, prof, ctx).run()


def shrinks(plan_):
    """Simpler plans, the most promising ones are first."""
    steps = plan_['steps']
    size = len(steps) // 2
    while size:
        for start in range(0, len(steps), size):
            yield dict(plan_, steps=steps[:start] + steps[start + size:])
        size //= 2
    for index, entry in enumerate(steps):
        if 'fault' in entry:
            yield dict(plan_, steps=steps[:index]
                       + [{key: value for key, value in entry.items()
                           if key != 'fault'}] + steps[index + 1:])
    for index, entry in enumerate(steps):
        points = entry['step'].get('pts')
        for at in range(len(points or ())):
            yield dict(plan_, steps=steps[:index] + [
                dict(entry, step=dict(entry['step'],
                                      pts=points[:at] + points[at + 1:]))]
                       + steps[index + 1:])
        rs = entry['step'].get('rs')
        for at in range(len(rs or ())):
            yield dict(plan_, steps=steps[:index] + [
                dict(entry, step=dict(entry['step'],
                                      rs=rs[:at] + rs[at + 1:]))]
                       + steps[index + 1:])
