"""The list of local minimums of the port as a mutable sequence, its model is
the built-in list."""
import json
import random

from . import geom, history, impls
from .core import Inconclusive, short
from .faults import measuring, positioned
from .oracle import Oracle
from .proc import Ended, Proc, isolated
from .machine import Machine

# states allowed after a failure: the one before and the one after,
# plus everything in between for the ones which add many elements
ATOMIC = {'insert', 'append', 'pop', 'remove', 'del', 'set', 'clear', 'add'}
READING = {'index', 'count', 'contains', 'get', 'len', 'iter', 'reversed',
           'scanbeams', 'eq', 'repr', 'copy', 'exec'}


class Lists:
    """Runs in the simulated process."""

    def __init__(self, impl, rings, count, reverse):
        self.impl = impl
        self.machine = Machine(impl)
        self.rings = rings
        self.clippers = [impl.clipper(reverse) for _ in range(count)]
        self.elements = []

    def number(self, element):
        for number, other in enumerate(self.elements):
            if other is element:
                return number
        self.elements.append(element)
        return len(self.elements) - 1

    def contents(self):
        # the list itself, if it is there, does not depend on the interface
        return [[self.number(element) for element in getattr(
            clipper.minimums, 'values', clipper.minimums)]
                for clipper in self.clippers]

    def __call__(self, message):
        if message == 'contents':
            return self.contents()
        if message == 'equality':
            return [[bool(a == b) for b in self.elements]
                    for a in self.elements], [float(a.y)
                                              for a in self.elements]
        if message.get('measure'):
            # in a copy of the process
            return isolated(self.measure, message)
        self.machine.op_list = self.step
        self.message = message
        try:
            outcome, info = self.machine({'step': {'k': 'list'},
                                          'fault': message.get('fault')})
        finally:
            self.machine.identities.forget()
        return outcome, info, self.contents()

    def measure(self, message):
        self.machine.op_list = self.step
        self.message = message
        return self.machine({'step': {'k': 'list'},
                             'measure': message['measure'],
                             'record': message['record']})[1]

    def step(self, step):
        message = self.message
        k = message['k']
        clipper = self.clippers[message['c']]
        values = clipper.minimums
        element = (self.elements[message['e']] if message.get('e') is not None
                   else None)
        at = message.get('at')
        if k == 'insert':
            return values.insert(at, element)
        if k == 'append':
            return values.append(element)
        if k in ('extend', 'iadd'):
            form = message.get('form')
            if form == 'own':
                elements = values
            else:
                elements = [self.elements[e] for e in message['es']]
                if form == 'lazy':
                    elements = (element for element in elements)
            if k == 'extend':
                return values.extend(elements)
            values += elements
            return values is clipper.minimums
        if k == 'slice':
            return [self.number(value) for value in values[slice(*at)]]
        if k == 'delslice':
            del values[slice(*at)]
            return None
        if k == 'setslice':
            values[slice(*at)] = [self.elements[e] for e in message['es']]
            return None
        if k == 'find':
            return values.index(element, *at)
        if k == 'walk':
            # the list is changed while it is iterated over
            result = []
            for value in values:
                result.append(self.number(value))
                if len(result) == message['after']:
                    if message['drop']:
                        del values[0]
                    else:
                        values.append(element)
            return result
        if k == 'pop':
            return self.number(values.pop() if at is None else values.pop(at))
        if k == 'remove':
            return values.remove(element)
        if k == 'del':
            del values[at]
            return None
        if k == 'set':
            values[at] = element
            return None
        if k == 'clear':
            return values.clear()
        if k == 'reverse':
            return values.reverse()
        if k == 'index':
            return values.index(element)
        if k == 'count':
            return values.count(element)
        if k == 'contains':
            return element in values
        if k == 'get':
            return self.number(values[at])
        if k == 'len':
            return [len(values), bool(values)]
        if k == 'iter':
            return [self.number(value) for value in values]
        if k == 'reversed':
            return [self.number(value) for value in reversed(values)]
        if k == 'scanbeams':
            return [float(value) for value in values.scanbeams]
        if k == 'eq':
            other = self.clippers[message['d']].minimums
            return [values == other, values != other]
        if k == 'repr':
            return bool(repr(values))
        if k == 'copy':
            twin = type(values)(*values)
            twin.clear()
            return len(twin)
        if k == 'add':
            return values.add_linear_ring(
                self.impl.ring(self.rings[message['r']]),
                self.impl.kinds[message['kind']])
        return impls.canonical(self.impl.call(clipper, message['op'],
                                              message['f1'], message['f2']))


def plan(rnd, prof):
    m, rings = geom.scene(rnd, *prof['rings'], prof['grids'])
    count = rnd.randint(1, 2)
    calm = rnd.random() < .35
    steps = []
    weights = {'add': 5, 'insert': 2, 'append': 2, 'extend': 1, 'iadd': 1,
               'pop': 1, 'remove': 1, 'del': 1, 'set': 1, 'clear': .3,
               'reverse': 1, 'index': 1, 'count': .6, 'contains': .6,
               'get': 1, 'len': .5, 'iter': 1, 'reversed': .5,
               'scanbeams': 1, 'eq': .6, 'repr': .3, 'copy': .3, 'exec': 2,
               'permute': 1, 'slice': .7, 'delslice': .4, 'setslice': .6,
               'find': .7, 'walk': .7}
    names = sorted(weights)
    values = [weights[name] * rnd.choice((.3, 1, 2)) for name in names]
    steps.append({'k': 'add', 'c': 0, 'r': rnd.randrange(len(rings)),
                  'kind': rnd.randrange(2)})
    for _ in range(rnd.randint(*prof['steps'])):
        k = rnd.choices(names, values)[0]
        step = {'k': k, 'c': rnd.randrange(count)}
        if k == 'add':
            step.update(r=rnd.randrange(len(rings)), kind=rnd.randrange(2))
        elif k == 'exec':
            found = history.random_exec(rnd, 0)
            step.update({key: found[key] for key in ('op', 'f1', 'f2')})
        elif k == 'eq':
            step['d'] = rnd.randrange(count)
        elif k == 'permute':
            step['seed'] = rnd.randrange(1 << 30)
        # numbers of elements and positions are taken modulo
        step['n'] = [rnd.randrange(1 << 20) for _ in range(3)]
        if not calm and k not in ('reverse', 'permute') \
                and rnd.random() < prof['fault']:
            step['fault'] = history.fault(rnd, {'exc': 1}, 'port')
        steps.append(step)
    return {'impl': 'port', 'm': m, 'rings': rings, 'count': count,
            'rev': rnd.random() < .35, 'steps': steps}


class Model:
    def __init__(self, count):
        self.lists = [[] for _ in range(count)]

    def perform(self, k, step, equal, ys):
        """Returns the outcome, changes the list."""
        values = self.lists[step['c']]
        e, at = step.get('e'), step.get('at')

        def find(start=0, stop=None):
            for index in range(*slice(start, stop).indices(len(values))):
                if equal[values[index]][e]:
                    return index
            raise ValueError
        try:
            if k == 'insert':
                result = values.insert(at, e)
            elif k == 'append':
                result = values.append(e)
            elif k in ('extend', 'iadd'):
                values.extend(list(values) if step['form'] == 'own'
                              else step['es'])
                result = True if k == 'iadd' else None
            elif k == 'slice':
                result = values[slice(*at)]
            elif k == 'delslice':
                del values[slice(*at)]
                result = None
            elif k == 'setslice':
                values[slice(*at)] = step['es']
                result = None
            elif k == 'find':
                result = find(*at)
            elif k == 'walk':
                result = []
                for value in values:
                    result.append(value)
                    if len(result) == step['after']:
                        if step['drop']:
                            del values[0]
                        else:
                            values.append(e)
            elif k == 'pop':
                result = values.pop() if at is None else values.pop(at)
            elif k == 'remove':
                del values[find()]
                result = None
            elif k == 'del':
                del values[at]
                result = None
            elif k == 'set':
                values[at] = e
                result = None
            elif k == 'clear':
                result = values.clear()
            elif k == 'reverse':
                result = values.reverse()
            elif k == 'index':
                result = find()
            elif k == 'count':
                result = sum(equal[value][e] for value in values)
            elif k == 'contains':
                result = any(equal[value][e] for value in values)
            elif k == 'get':
                result = values[at]
            elif k == 'len':
                result = [len(values), bool(values)]
            elif k == 'iter':
                result = list(values)
            elif k == 'reversed':
                result = values[::-1]
            elif k == 'scanbeams':
                result = sorted(ys[value] for value in values)
            elif k == 'eq':
                other = self.lists[step['d']]
                same = (len(values) == len(other)
                        and all(equal[a][b] for a, b in zip(values, other)))
                result = [same, not same]
            elif k == 'repr':
                result = True
            else:
                result = 0
        except (IndexError, ValueError) as error:
            return ['error', type(error).__name__]
        return ['ok', result]


def execute(plan_, ctx):
    impl = impls.get('port')
    oracle = Oracle()
    rings, count = plan_['rings'], plan_['count']
    proc = Proc(lambda: Lists(impl, rings, count, plan_['rev']))
    model = Model(count)
    whole = {}  # number of the element -> number of addition
    additions = []  # pairs of points and kinds, numbers of elements
    rnd = random.Random(json.dumps(plan_['rings']))

    def ask(message):
        try:
            return proc.ask(message)
        except Ended as error:
            return [error.kind, error.detail], {}, None

    def measure(step, found):
        try:
            return proc.ask(dict(step, **measuring('port', found)))
        except Ended:
            return {}

    previous = '-'
    try:
        for index, step in enumerate(plan_['steps']):
            k, c = step['k'], step['c']
            elements = len(whole)
            values = model.lists[c]
            step = dict(step)
            n = step.pop('n', [0, 0, 0])
            if k in ('insert', 'append', 'remove', 'set', 'index', 'count',
                     'contains', 'find', 'walk'):
                if not elements:
                    continue
                # the ones in the list are more interesting
                step['e'] = (values[n[0] % len(values)]
                             if values and n[1] % 3 else n[0] % elements)
            if k in ('extend', 'iadd', 'setslice'):
                if not elements:
                    continue
                step['es'] = [number % elements for number in n[:1 + n[0] % 3]]
                step['form'] = ('list', 'lazy', 'list', 'own')[n[0] // 3 % 4]
                if step['form'] == 'own' and k != 'setslice':
                    if len(values) > 8:
                        continue
                    step['es'] = list(values)
            if k == 'walk':
                step.update(after=1 + n[1] % 3, drop=bool(n[2] % 2))
            if k in ('slice', 'delslice', 'setslice', 'find'):
                size = 2 * len(values) + 4
                step['at'] = [number % size - len(values) - 2
                              for number in n[1:]]
                if k == 'find':
                    step['at'] = step['at'][:n[0] // 7 % 3]
                else:
                    if n[0] // 5 % 3 == 0:
                        step['at'][n[0] // 11 % 2] = None
                    if n[0] // 13 % 3 == 0:
                        step['at'].append((1, 2, -1, -2, 3)[n[0] // 17 % 5])
            if k in ('insert', 'del', 'set', 'get', 'pop'):
                # sometimes outside of the list
                step['at'] = n[2] % (2 * len(values) + 4) - len(values) - 2
                if k == 'pop' and n[1] % 3 == 0:
                    step['at'] = None
            if k == 'permute':
                permuted(ctx, index, step, proc, model)
                continue
            if k == 'exec':
                executed(ctx, plan_, index, step, ask, values, whole,
                         additions, oracle, rnd)
                continue
            found = step.pop('fault', None)
            message = dict(step)
            if found:
                found = positioned(found, measure(step, found))
                if found:
                    message['fault'] = found
            outcome, info, contents = ask(message)
            ctx.stats['steps'] += 1
            ctx.stats['simulated time (events)'] += info.get('events', 0)
            fired = bool(info.get('fired'))
            if fired:
                ctx.fault('exc:' + found['name'])
            ctx.event(index, json.dumps(step), info.get('site'),
                      json.dumps(outcome), json.dumps(contents))
            name = 'step %d (%s)' % (index, short(step))
            ctx.check(contents is not None, name, 'ended the process:',
                      short(outcome))
            before = [list(other) for other in model.lists]
            aborted = outcome[0] == 'aborted'
            if aborted:
                ctx.check(fired, name, 'failed with', short(outcome),
                          'although nothing has been injected')
            elif fired:
                ctx.check(False, name, 'exception injected at',
                          info.get('site'), 'was swallowed')
            if k == 'add':
                # the elements are new
                new = contents[c][len(values):]
                expected = [list(other) for other in before]
                points, kind = rings[step['r']], step['kind']
                answer, _ = oracle.ask('port', False, (), {
                    'k': 'add', 'pts': points, 'kind': kind})
                if answer[0] != 'ok':
                    raise Inconclusive(short(answer))
                expected[c] = values + new
                ctx.check(contents == expected, name, 'changed', before,
                          'to', contents)
                size = minimums_count(oracle, points, kind)
                ctx.check(len(new) in ((0, size) if aborted else (size,)),
                          name, 'added', len(new), 'elements instead of',
                          size)
                ctx.check(not any(number in whole for number in new),
                          name, 'added known elements')
                ctx.check(aborted or outcome == ['ok', bool(size)], name,
                          'gives', short(outcome))
                for number in new:
                    whole[number] = len(additions)
                additions.append(((points, kind), list(new)))
                model.lists[c] = values + new
            else:
                if k in ('remove', 'index', 'count', 'contains', 'eq',
                         'scanbeams', 'find'):
                    equal, ys = proc.ask('equality')
                else:
                    equal = ys = None
                expected = model.perform(k, step, equal, ys)
                after = model.lists
                if aborted:
                    allowed = [before, after]
                    if k in ('extend', 'iadd') and expected[0] == 'ok':
                        start = before[c]
                        for length in range(len(step['es'])):
                            allowed.append([
                                start + step['es'][:length] if other == c
                                else values_
                                for other, values_ in enumerate(before)])
                    ctx.check(contents in allowed, name, 'interrupted at',
                              info.get('site'), 'changed', before, 'to',
                              contents)
                    model.lists = [list(other) for other in contents]
                else:
                    ctx.check(outcome[:2] == expected, name, 'gives',
                              short(outcome), 'instead of', short(expected))
                    ctx.check(contents == after, name, 'changed', before,
                              'to', contents, 'instead of', after)
            ctx.state(k, outcome[0], previous, min(len(values), 5),
                      outcome[1] if outcome[0] == 'error' else '')
            previous = k + ('!' if aborted else '')
    finally:
        proc.close()
        ctx.stats['oracle processes'] += oracle.asked


def minimums_count(oracle, points, kind):
    answer, _ = oracle.ask('port', False, ((points, kind),), {'k': 'dump'})
    if answer[0] != 'ok':
        raise Inconclusive(short(answer))
    return len(answer[1])


def permuted(ctx, index, step, proc, model):
    """The user reorders the list."""
    values = model.lists[step['c']]
    order = list(values)
    random.Random(step['seed']).shuffle(order)
    for message in ({'k': 'clear', 'c': step['c']},
                    {'k': 'extend', 'c': step['c'], 'es': order}):
        outcome, _, contents = proc.ask(message)
        ctx.check(outcome[0] == 'ok', message['k'], 'failed:',
                  short(outcome))
    model.lists[step['c']] = order
    ctx.check(contents == model.lists, 'contents', contents, 'instead of',
              model.lists)
    ctx.event(index, 'permute', order)


def executed(ctx, plan_, index, step, ask, values, whole, additions, oracle,
             rnd):
    """Order of elements does not matter if rings are whole."""
    adds = []
    for number in sorted({whole[value] for value in values}):
        ring, elements = additions[number]
        if sorted(value for value in values
                  if whole[value] == number) != sorted(elements):
            return
        adds.append(ring)
    found = step.pop('fault', None)
    outcome, info, contents = ask(step)
    ctx.event(index, json.dumps(step), json.dumps(outcome))
    ctx.stats['steps'] += 1
    ctx.check(contents is not None, 'execution ended the process:',
              short(outcome))
    if outcome[0] != 'ok':
        answer, _ = oracle.ask('port', plan_['rev'], adds, {
            'k': 'exec', 'op': step['op'], 'f1': step['f1'],
            'f2': step['f2']})
        if answer[0] != 'ok':
            raise Inconclusive(short(outcome))
        ctx.check(False, 'step', index, short(step), 'gives', short(outcome),
                  'but fresh clipper', short(answer))
    point, decided = geom.region_mismatch(
        rnd, adds, step['op'], step['f1'], step['f2'], outcome[1],
        plan_['rev'], 30,
        1. if plan_['m'] <= 20 else 1.5)
    ctx.stats['points compared with the model'] += decided
    ctx.check(point is None, 'step', index, short(step),
              'disagrees with rings at', point)
    ctx.state('exec', step['op'], min(len(adds), 5))


def shrinks(plan_):
    steps = plan_['steps']
    size = len(steps) // 2
    while size:
        for start in range(0, len(steps), size):
            yield dict(plan_, steps=steps[:start] + steps[start + size:])
        size //= 2
    for index, step in enumerate(steps):
        if 'fault' in step:
            yield dict(plan_, steps=steps[:index] + [
                {key: value for key, value in step.items()
                 if key != 'fault'}] + steps[index + 1:])
    for r, points in enumerate(plan_['rings']):
        for at in range(len(points)):
            rings = list(plan_['rings'])
            rings[r] = points[:at] + points[at + 1:]
            yield dict(plan_, rings=rings)
