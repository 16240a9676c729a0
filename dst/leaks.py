"""The same history is repeated in one process, whatever it has allocated has
to be released afterwards, operations aborted by faults included."""
import gc
import json
import sys
from collections import deque
from types import FunctionType

from . import geom, history, impls
from .core import short
from .faults import measuring, needs_place, positioned
from .machine import Machine
from .proc import Ended, Proc

KEPT = 'clippers', 'results', 'result_values', 'polygons', 'saved'


KEPT_BY_MODULES = 'kept by modules'
PACKAGE = 'wagyu'


def of_package(name):
    return name == PACKAGE or (name or '').startswith(PACKAGE + '.')


def kept_by_modules():
    """Number of objects modules, classes and functions of the port hold,
    elements of containers are counted as often as they occur."""
    result, seen = 0, set()
    rest = [{key: value for key, value in vars(module).items()
             if key != '__builtins__'}
            for name, module in sorted(sys.modules.items())
            if module is not None and of_package(name)]
    alive = list(rest)
    while rest:
        value = rest.pop()
        if id(value) in seen:
            continue
        seen.add(id(value))
        if isinstance(value, dict):
            found = [*value.keys(), *value.values()]
        elif isinstance(value, (list, tuple, set, frozenset, deque)):
            found = list(value)
        elif isinstance(value, type):
            found = (list(vars(value).values())
                     if of_package(value.__module__) else [])
        elif isinstance(value, FunctionType):
            found = ([value.__dict__, value.__defaults__,
                      value.__kwdefaults__]
                     + [cell.cell_contents for cell in value.__closure__ or ()
                        if cell != type(cell)()]
                     if of_package(value.__module__) else [])
        elif isinstance(value, (property, staticmethod, classmethod)):
            found = ([value.fget, value.fset, value.fdel]
                     if isinstance(value, property) else [value.__func__])
        elif hasattr(type(value), 'cache_info'):
            result += value.cache_info().currsize
            found = [getattr(value, '__wrapped__', None)]
        elif of_package(type(value).__module__):
            found = gc.get_referents(value)
        else:
            continue
        alive.append(found)
        result += len(found)
        rest.extend(found)
    return result


class Repeater:
    def __init__(self, impl, env):
        self.impl = impl
        self.machine = Machine(impl, env)
        self.types = None

    def reset(self):
        machine = self.machine
        for name in KEPT + ('rings', 'ring_values', 'ring_points'):
            getattr(machine, name).clear()
        if machine.identities is not None:
            machine.identities.forget()

    def __call__(self, message):
        if message == 'reset':
            self.reset()
            return None
        if message == 'measure':
            gc.collect()
            if self.impl.name == 'binding':
                counters = self.impl.native.counters()
                return {'blocks': counters['live'],
                        'bytes': counters['live_bytes']}
            found = {}
            for value in gc.get_objects():
                class_ = type(value)
                if (class_.__module__ or '').startswith('wagyu.'):
                    found[class_.__name__] = found.get(class_.__name__, 0) + 1
            return {**dict(sorted(found.items())),
                    KEPT_BY_MODULES: kept_by_modules()}
        return self.machine(message)


def plan(rnd, impl, prof):
    prof = dict(prof)
    result = history.plan(rnd, impl, prof)
    # rings and clippers are made by the first steps
    keep = rnd.random() < .5
    result.update(keep=keep, rounds=rnd.choice((3, 3, 3, 4, 4, 12)),
                  heap=[rnd.randrange(1 << 30), 1, 0])
    if keep:
        # the same clippers are used in every round, so additions have to be
        # followed by clearing
        for entry in result['steps']:
            if entry['step']['k'] in ('new', 'drop', 'deepcopy'):
                continue
        count = max(entry['step'].get('c', 0) for entry in result['steps'])
        for c in range(count + 1):
            result['steps'].append({'step': {'k': 'clear', 'c': c}})
    return result


def applicable(step, rings, clippers):
    if step['k'] == 'new':
        return True
    if 'c' in step and step['c'] not in clippers:
        return False
    if step['k'] == 'eq' and step['d'] not in clippers:
        return False
    return all(r in rings for r in step.get('rs', ())) and (
        step['k'] == 'ring' or 'r' not in step or step['r'] in rings)


def execute(plan_, ctx):
    impl = impls.get(plan_['impl'])
    env = {'heap': plan_['heap']} if plan_['impl'] == 'binding' else {}
    proc = Proc(lambda: Repeater(impl, env))
    totals = {}
    measured = []
    try:
        # the first round is calm: it warms caches up and counts places where
        # faults can be injected
        for turn in range(plan_['rounds'] + 1):
            if not plan_['keep'] or turn <= 1:
                proc.ask('reset')
            rings, clippers = set(), set()
            for index, entry in enumerate(plan_['steps']):
                step, k = entry['step'], entry['step']['k']
                if not applicable(step, rings, clippers):
                    continue
                if plan_['keep'] and k in ('new', 'ring') and turn > 1:
                    (clippers if k == 'new' else rings).add(
                        step['c' if k == 'new' else 'r'])
                    continue
                message = {'step': step}
                found = entry.get('fault')
                if found and turn:
                    found = positioned(found, totals.get(index, {}))
                    if found:
                        message['fault'] = found
                elif found and needs_place(found):
                    message.update(measuring(impl.name, found))
                outcome, info = proc.ask(message)
                if not turn:
                    totals[index] = info
                fired = bool(info.get('fired'))
                if fired:
                    ctx.fault('%s:%s' % (impl.name, found['type']))
                if info.get('pending'):
                    # to be consumed within the same round
                    proc.ask({'step': {'k': 'new', 'c': 99, 'rev': False}})
                    proc.ask({'step': {'k': 'add', 'c': 99, 'kind': 0,
                                       'pts': [[0, 0], [4, 0], [0, 4]]}})
                    proc.ask({'step': {'k': 'exec', 'c': 99, 'op': 'unite',
                                       'f1': 0, 'f2': 0}})
                    proc.ask({'step': {'k': 'drop', 'c': 99}})
                ctx.stats['steps'] += 1
                ctx.stats['simulated time (events)'] += info.get('events',
                                                                 0) or 0
                ctx.event(turn, index, json.dumps(step), info.get('site'),
                          json.dumps(outcome))
                ctx.state(k, outcome[0], fired and found['type'],
                          info.get('site') if fired else None)
                if k == 'new' and outcome[0] == 'ok':
                    clippers.add(step['c'])
                elif k == 'deepcopy' and outcome[0] == 'ok':
                    clippers.add(step['d'])
                elif k == 'ring' and outcome[0] == 'ok':
                    rings.add(step['r'])
                elif k == 'drop':
                    clippers.discard(step['c'])
            if not plan_['keep']:
                proc.ask('reset')
            measured.append(proc.ask('measure'))
            ctx.event('after round', turn, json.dumps(measured[-1]))
        ctx.check(all(value == measured[2] for value in measured[3:]),
                  'what is left after every round of the history grows:',
                  short(measured))
        if not plan_['keep'] and impl.name == 'port':
            left, first = [{key: count for key, count in value.items()
                            if key != KEPT_BY_MODULES}
                           for value in (measured[-1], measured[0])]
            ctx.check(not left or left == first,
                      'objects are left:', short(left))
    except Ended as error:
        ctx.check(False, 'process has ended:', error.kind, error.detail)
    finally:
        proc.close()


shrinks = history.shrinks
