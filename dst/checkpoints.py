"""A server keeping a clipper of the port: log of additions and snapshots in a
simulated storage, crashes at any instruction, restarts in new processes."""
import copy
import gc
import json
import os
import pickle

from . import geom, history, impls
from .core import Inconclusive, short
from .machine import Machine
from .oracle import Oracle
from .proc import Ended, Proc

CRASH = 99
SCALES = (1, .1, 1 / 3, 1e-9, 16777217, 2 ** 40 + 1, 1e15)
UNUSUAL = (float('inf'), -float('inf'), -0., 5e-324, 1.7e308)
SHIFTS = (0, 0, .5, 1e-12, 16777216, 2 ** 31, 2 ** 52)


class Server:
    """Runs in the simulated process."""

    def __init__(self, impl):
        self.machine = Machine(impl)
        self.impl = impl
        self.values = {}

    def __call__(self, message):
        step = message['step']
        crash = message.get('crash')
        if crash is not None:
            from .tracing import Tracer
            tracer = Tracer({crash: lambda: os._exit(CRASH)}, opcodes=False)
            with tracer:
                return self.perform(step)
        if message.get('fault'):
            return self.machine({'step': step, 'fault': message['fault']})[0]
        return self.perform(step)

    def perform(self, step):
        k, machine = step['k'], self.machine
        if k == 'snapshot':
            clipper = machine.clippers[0]
            if step['how'] == 'deepcopy':
                twin = copy.deepcopy(clipper)
                equal = twin == clipper
                if step.get('switch'):
                    machine.clippers[0], twin = twin, clipper
                self.change(step.get('change'), twin)
                clipper = machine.clippers[0]
            else:
                equal = True
            data = pickle.dumps(clipper, step['protocol'])
            equal = equal and pickle.loads(data) == clipper
            return ['ok', [equal, data]]
        if k == 'restore':
            try:
                machine.clippers[0] = pickle.loads(step['data'])
            except Exception as error:
                return ['broken', type(error).__name__]
            return ['ok', machine.clippers[0].reverse_output]
        if k == 'export':
            impl = self.impl
            try:
                result = impl.call(machine.clippers[0], step['op'],
                                   step['f1'], step['f2'])
            except RuntimeError as error:
                return ['error', str(error)]
            again = pickle.loads(pickle.dumps(result, step['protocol']))
            return ['ok', [again == result, impls.canonical(result),
                           pickle.dumps(result, step['protocol'])]]
        if k == 'import':
            value = pickle.loads(step['data'])
            gc.collect()
            return ['ok', [impls.canonical(value), copy.deepcopy(value)
                           == value]]
        return machine({'step': step})[0]


    def change(self, how, twin):
        """Changes of a copy should not be seen by the original."""
        impl = self.impl
        if how == 'add':
            twin.add_linear_ring(impl.ring([[-9, -9], [99, -7], [5, 98]]),
                                 impl.kinds[0])
        elif how == 'execute':
            try:
                twin.unite()
            except RuntimeError:
                pass
        elif how == 'clear':
            twin.clear()
        elif how == 'reverse':
            twin.minimums.reverse()
            for minimum in twin.minimums:
                minimum.left_bound.edges.clear()


class Values:
    """Value types of any implementation."""

    def __init__(self, impl):
        self.impl = impl
        self.machine = Machine(impl)

    def build(self, kind, rings):
        impl = self.impl
        if kind == 'point':
            return impl.point(*rings[0][0])
        if kind == 'ring':
            return impl.ring(rings[0])
        if kind == 'minimums':
            clipper = impl.clipper(False)
            for index, ring in enumerate(rings):
                clipper.add_linear_ring(impl.ring(ring),
                                        impl.kinds[index % 2])
            return clipper.minimums
        if kind == 'edges':
            return list(impl.ring(rings[0]).edges)
        if kind == 'enums':
            return impl.kinds + impl.fills + [
                value for _, value in sorted(impl.operations.items())]
        if kind == 'polygon':
            return impl.polygon([impl.ring(ring) for ring in rings])
        if kind == 'box':
            return impl.box(impl.point(*rings[0][0]), impl.point(*rings[0][1]))
        return impl.multipolygon([impl.polygon([impl.ring(ring)])
                                  for ring in rings])

    def view(self, kind, value):
        if kind == 'point':
            return [float(value.x), float(value.y)]
        if kind == 'minimums':
            return [[float(y) for y in value.scanbeams], [
                [self.view('edges', bound.edges), int(bound.polygon_kind),
                 self.view('edges', bound.maximum_bound.edges)]
                for minimum in value
                for bound in (minimum.left_bound, minimum.right_bound)]]
        if kind == 'ring':
            return impls.canonical_ring(value)
        if kind == 'enums':
            return [[member.name, int(member)] for member in value]
        if kind == 'edges':
            return [[float(edge.bottom.x), float(edge.bottom.y),
                     float(edge.top.x), float(edge.top.y),
                     repr(float(edge.slope))] for edge in value]
        if kind == 'polygon':
            return [impls.canonical_ring(ring) for ring in value]
        if kind == 'box':
            return impls.canonical_box(value)
        return impls.canonical(value)

    def copied(self, kind, value, expected):
        """Copies are equal and do not share anything which can change."""
        for copied in copy.copy(value), copy.deepcopy(value):
            if not (copied == value == expected) \
                    or self.view(kind, copied) != self.view(kind, value):
                return False
        depth = {'ring': 0, 'polygon': 1, 'multi': 2}.get(kind)
        if self.impl.name == 'port' and depth is not None:
            twin = copy.deepcopy(value)
            for _ in range(depth):
                twin = twin[0] if len(twin) else twin
            if len(twin):
                try:
                    twin[0].x += 1
                except AttributeError:
                    pass  # nothing to share
        return value == expected

    def __call__(self, message):
        kind = message['kind']
        if 'data' in message:
            value = pickle.loads(message['data'])
            expected = self.build(kind, message['rings'])
            result = [self.view(kind, value), value == expected]
            result[1] = result[1] and self.copied(kind, value, expected)
            if kind == 'ring' and not message.get('scaled'):
                clipper = self.impl.clipper(False)
                clipper.add_linear_ring(value, self.impl.kinds[0])
                result.append(impls.canonical(clipper.unite()))
            return result
        value = self.build(kind, message['rings'])
        return [self.view(kind, value),
                pickle.dumps(value, message['protocol'])]


def plan(rnd, impl, prof):
    m, rings = geom.scene(rnd, *prof['rings'], prof['grids'])
    if rnd.random() < .02:
        teeth = rnd.choice((30, 60))
        rings.append([[2 * x, 9 * (x % 2)] for x in range(2 * teeth + 1)]
                     + [[teeth, -99]])
    if impl == 'binding' or rnd.random() < .1:
        values = []
        for _ in range(6):
            kind = rnd.choice(('point', 'ring', 'edges', 'polygon', 'box',
                               'multi', 'enums') + ('minimums',)
                              * (impl == 'port'))
            chosen = [rnd.choice(rings) for _ in range(rnd.randint(1, 3))]
            if kind in ('point', 'box', 'edges') and len(chosen[0]) < 2:
                chosen = [[[0, 0], [4, 1], [2, 7]]]
            value = {'kind': kind, 'rings': chosen,
                     'protocol': rnd.randint(2, 5)}
            if kind != 'minimums' and rnd.random() < .4:
                scale, shift = rnd.choice(SCALES), rnd.choice(SHIFTS)
                value.update(scaled=True, rings=[
                    [[x * scale + shift, y * scale - shift]
                     for x, y in ring] for ring in chosen])
            if kind in ('polygon', 'multi') and rnd.random() < .1:
                value['rings'] = []
            elif kind in ('point', 'box', 'ring') and rnd.random() < .15:
                value.update(scaled=True, rings=[
                    [[rnd.choice(UNUSUAL) if rnd.random() < .4 else float(c)
                      for c in point] for point in ring] for ring in chosen])
            values.append(value)
        return {'impl': impl, 'values': values, 'm': m}
    steps = []
    names = ('add', 'addp', 'exec', 'clear', 'snapshot', 'restart', 'export',
             'bounds')
    for _ in range(rnd.randint(*prof['steps'])):
        k = rnd.choices(names, (8, 2, 3, .4, 3, 1.5, 1, .5))[0]
        entry = {'step': {'k': k, 'c': 0}}
        step = entry['step']
        if k == 'add':
            step.update(pts=rnd.choice(rings), kind=rnd.randrange(2))
        elif k == 'addp':
            step.update(rs=[rnd.randrange(len(rings))
                            for _ in range(rnd.randint(1, 3))],
                        kind=rnd.randrange(2))
        elif k == 'exec':
            entry['step'] = history.random_exec(rnd, 0)
        elif k == 'export':
            entry['step'] = dict(history.random_exec(rnd, 0), k='export',
                                 protocol=rnd.randint(2, 5))
        elif k == 'snapshot':
            step.update(how=rnd.choice(('pickle', 'pickle', 'deepcopy')),
                        protocol=rnd.randint(2, 5),
                        switch=rnd.random() < .5, change=rnd.choice(
                            (None, 'add', 'execute', 'clear', 'reverse')))
            if rnd.random() < .25:
                entry['storage'] = rnd.choice(('torn', 'lost'))
                entry['ppm'] = rnd.randrange(1000000)
        if k in ('add', 'addp', 'exec', 'clear') \
                and rnd.random() < prof['crash']:
            entry['crash'] = int(10 ** rnd.uniform(0, 3.7))
        elif k == 'exec' and rnd.random() < prof['crash']:
            entry['fault'] = {'type': 'exc', 'name': rnd.choice(
                ('KeyboardInterrupt', 'MemoryError', 'Alarm')),
                'at': int(10 ** rnd.uniform(0, 3.7)), 'opcodes': False}
        if k in ('add', 'addp', 'clear') and rnd.random() < .1:
            entry['log'] = 'lost'  # has not reached the storage
        steps.append(entry)
    steps.append({'step': {'k': 'snapshot', 'c': 0, 'how': 'pickle',
                           'protocol': 2}})
    steps.append({'step': {'k': 'restart', 'c': 0}})
    for _ in range(3):
        steps.append({'step': history.random_exec(rnd, 0)})
    return {'impl': 'port', 'm': m, 'rings': rings, 'steps': steps,
            'rev': rnd.random() < .35}


class Storage:
    """What survives a crash."""

    def __init__(self):
        self.log = []  # steps
        self.snapshots = []  # pairs of positions in the log and data


def execute(plan_, ctx):
    if 'values' in plan_:
        return execute_values(plan_, ctx)
    impl = impls.get('port')
    oracle = Oracle()
    storage = Storage()
    reverse = plan_['rev']
    rings = plan_['rings']
    server = None

    def step_of(step):
        return step if step['k'] != 'addp' else {
            'k': 'addp', 'c': 0, 'rs': step['rs'], 'kind': step['kind']}

    def start():
        nonlocal server
        if server is not None:
            server.close()
        server = Proc(lambda: Server(impl))
        for r, points in enumerate(rings):
            server.ask({'step': {'k': 'ring', 'r': r, 'pts': points}})
        at = 0
        for position, data in reversed(storage.snapshots):
            outcome = server.ask({'step': {'k': 'restore', 'data': data}})
            if outcome[0] == 'ok':
                ctx.check(outcome[1] == reverse,
                          'restored clipper has different orientation')
                ctx.stats['restored from snapshots'] += 1
                at = position
                break
            ctx.fault('broken snapshot is detected')
        else:
            server.ask({'step': {'k': 'new', 'c': 0, 'rev': reverse}})
        for step in storage.log[at:]:
            server.ask({'step': step_of(step)})
        ctx.stats['replayed log entries'] += len(storage.log) - at

    def adds_of(log):
        result = []
        for step in log:
            if step['k'] == 'clear':
                result = []
            elif step['k'] == 'add':
                result.append((step['pts'], step['kind']))
            else:
                result.extend((rings[r], step['kind'])
                              for r in step['rs'])
        return result

    try:
        start()
        for index, entry in enumerate(plan_['steps']):
            step, k = entry['step'], entry['step']['k']
            name = 'step %d (%s)' % (index, k)
            ctx.stats['steps'] += 1
            if k == 'restart':
                ctx.fault('restart')
                start()
                ctx.event(index, 'restart', len(storage.log))
                continue
            if k in ('add', 'addp', 'clear'):
                # write-ahead log
                if entry.get('log') == 'lost' and entry.get('crash'):
                    ctx.fault('lost write of the log')
                else:
                    storage.log.append(step)
            try:
                outcome = server.ask({'step': step,
                                      'crash': entry.get('crash'),
                                      'fault': entry.get('fault')})
            except Ended as error:
                if error.detail == 'exit %d' % CRASH:
                    ctx.fault('crash at an instruction')
                    ctx.event(index, json.dumps(step), 'crash')
                    ctx.state('crash', k, entry['crash'] // 50,
                              len(storage.snapshots))
                    start()
                    continue
                ctx.check(False, name, 'ended the process:', error.kind,
                          error.detail)
            if k in ('add', 'addp', 'clear') and entry.get('log') == 'lost' \
                    and entry.get('crash'):
                storage.log.append(step)  # no crash, so it has been flushed
            if k == 'snapshot':
                equal, data = outcome[1]
                ctx.event(index, 'snapshot', equal)
                ctx.check(equal, name,
                          'copy is not equal to the original clipper')
                if entry.get('storage') == 'torn':
                    ctx.fault('torn write of a snapshot')
                    data = data[:len(data) * entry['ppm'] // 1000000]
                elif entry.get('storage') == 'lost':
                    ctx.fault('lost write of a snapshot')
                    continue
                storage.snapshots.append((len(storage.log), data))
                ctx.state('snapshot', step['how'], step['protocol'],
                          len(storage.log))
                continue
            adds = adds_of(storage.log)
            ctx.event(index, json.dumps(step), json.dumps(
                outcome[1][:2] if k == 'export' and outcome[0] == 'ok'
                else outcome))
            if k in ('add', 'addp', 'clear'):
                ctx.check(outcome[0] == 'ok', name, 'failed:',
                          short(outcome))
                continue
            if entry.get('fault') and outcome[0] == 'aborted':
                ctx.fault('exception at an instruction')
                ctx.state('exception', entry['fault']['at'] // 50,
                          len(storage.snapshots))
                continue
            expected, _ = oracle.ask('port', reverse, adds, {
                key: value for key, value in step.items()
                if key in ('op', 'f1', 'f2')} | {
                    'k': 'exec' if k == 'export' else k})
            if expected[0] not in ('ok', 'error'):
                raise Inconclusive(short(expected))
            if k == 'export':
                if expected[0] == outcome[0] == 'error':
                    continue
                if 'error' in (expected[0], outcome[0]):
                    ctx.check(False, name, 'gives', short(outcome[1:]),
                              'fresh clipper gives', short(expected))
                equal, value, data = outcome[1]
                ctx.check(equal, name, 'restored result is not equal')
                ctx.check(value == expected[1], name, 'gives', short(value),
                          'fresh clipper gives', short(expected))
                proc = Proc(lambda: Server(impl))
                try:
                    loaded = proc.ask({'step': {'k': 'import',
                                                'data': data}})[1]
                finally:
                    proc.close()
                ctx.check(loaded == [value, True], name,
                          'result restored in another process is',
                          short(loaded))
                continue
            ctx.check(outcome == expected, name, 'gives', short(outcome),
                      'after restarts, fresh clipper gives', short(expected))
            ctx.state(k, len(adds), len(storage.snapshots))
    finally:
        if server is not None:
            server.close()
        ctx.stats['oracle processes'] += oracle.asked


def execute_values(plan_, ctx):
    impl = impls.get(plan_['impl'])
    for index, message in enumerate(plan_['values']):
        results = []
        data = None
        for turn in range(2):
            proc = Proc(lambda: Values(impl))
            try:
                if turn:
                    ctx.fault('restart')
                    message = dict(message, data=data)
                results.append(proc.ask(message))
            except Ended as error:
                ctx.check(False, 'value', index, 'ended the process:',
                          error.kind, error.detail)
            finally:
                proc.close()
            if not turn:
                data = results[0][1]
        ctx.event(json.dumps(message, default=repr), json.dumps(results[1]))
        ctx.stats['steps'] += 1
        # signs of zeros count
        ctx.check(json.dumps(results[1][0]) == json.dumps(results[0][0])
                  and results[1][1],
                  message['kind'], short(message['rings']),
                  'restored in another process is', short(results[1]))
        ctx.state(plan_['impl'], message['kind'], message['protocol'])


def shrinks(plan_):
    key = 'values' if 'values' in plan_ else 'steps'
    items = plan_[key]
    size = len(items) // 2
    while size:
        for start in range(0, len(items), size):
            yield dict(plan_, **{key: items[:start] + items[start + size:]})
        size //= 2
    if key == 'steps':
        for index, entry in enumerate(items):
            for name in ('crash', 'fault', 'storage', 'log'):
                if name in entry:
                    yield dict(plan_, steps=items[:index] + [
                        {key: value for key, value in entry.items()
                         if key != name}] + items[index + 1:])
