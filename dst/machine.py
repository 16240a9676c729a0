"""The simulated process: objects of one implementation and operations on
them, each possibly with an injected fault."""
import copy
import decimal
import gc
import locale
import os
import pickle
import random
import sys
import time
import warnings

from . import impls
from .ids import Identities
from .tracing import EXCEPTIONS, Budget, Tracer, collector, raiser


def message_of(error):
    return str(error).rstrip('.')[:120]


DECIMALS = {
    'default': {},
    'low': {'prec': 4},
    'strict': {'traps': [decimal.Inexact, decimal.Rounded,
                         decimal.FloatOperation]},
    'floor': {'rounding': decimal.ROUND_FLOOR, 'prec': 9},
    'tiny': {'prec': 1, 'rounding': decimal.ROUND_UP, 'Emin': -2, 'Emax': 2},
}


class Clock:
    """Simulated clock of the process: can stand still, run fast, jump."""

    def __init__(self, start, step, jumps):
        self.now, self.step, self.jumps = float(start), step, jumps
        self.calls = 0

    def __call__(self):
        self.calls += 1
        self.now += self.step
        if self.jumps and self.calls % 3 == 0:
            self.now += self.jumps * (-1) ** self.calls
        return self.now

    def nanoseconds(self):
        return int(self() * 10 ** 9)

    def install(self):
        for name in ('time', 'monotonic', 'perf_counter', 'process_time',
                     'thread_time'):
            setattr(time, name, self)
            setattr(time, name + '_ns', self.nanoseconds)


def litter(seed):
    """Memory of the interpreter with holes of many sizes in random order."""
    rnd = random.Random(seed)
    blocks = [bytearray(rnd.choice((1, 20, 60, 100, 180, 260, 400)))
              for _ in range(6000)]
    objects = [[None] * rnd.randrange(1, 12) for _ in range(3000)]
    rnd.shuffle(blocks)
    rnd.shuffle(objects)
    return blocks[:rnd.randrange(1, 5000)], objects[:rnd.randrange(1, 2500)]


def settle(env):
    """What the caller has done to the process, see environments.py"""
    if env.get('clock'):
        Clock(*env['clock']).install()
    if 'random' in env:
        random.seed(env['random'])
    if env.get('variables'):
        os.environ.update(env['variables'])
    if env.get('switch'):
        sys.setswitchinterval(env['switch'])
    if env.get('warnings'):
        warnings.simplefilter(env['warnings'])
    if env.get('recursion'):
        sys.setrecursionlimit(env['recursion'])
    if env.get('locale'):
        os.environ['LC_ALL'] = env['locale']
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    return litter(env['litter']) if 'litter' in env else None


class Failing:
    """Polygon of the user, fails in the middle of iteration."""

    def __init__(self, rings):
        self.rings = rings

    def __len__(self):
        return len(self.rings)

    def __iter__(self):
        for ring in self.rings:
            if ring is None:
                raise LookupError('not available')
            yield ring


class Machine:
    def __init__(self, impl, env=None):
        self.impl = impl
        env = env or {}
        gc.disable()
        if env.get('gc'):
            gc.enable()
            gc.set_threshold(env['gc'], 2, 2)
        if env.get('decimal'):
            decimal.setcontext(decimal.Context(**DECIMALS[env['decimal']]))
        self.frames = env.get('frames', 0)
        self.litter = settle(env)
        if impl.name == 'port':
            options = env.get('ids', {})
            self.identities = Identities(options.get('seed', 0),
                                         options.get('order', 'rising'),
                                         options.get('reuse', False))
            self.identities.install()
        else:
            self.identities = None
            impl.native.environment(*env.get('heap', [0, 1, 0]))
            # pybind11 registers types of iterators at the first use of them,
            # this is not a part of the system under test
            impl.warm_up()
        self.rings = {}
        self.ring_values = {}
        self.ring_points = {}
        self.polygons = {}
        self.clippers = {}
        self.results = {}
        self.result_values = {}
        self.saved = {}

    # --- single operations, return JSON-able values ---

    def op_ring(self, step):
        ring = self.impl.ring(step['pts'])
        self.rings[step['r']] = ring
        self.ring_values[step['r']] = impls.canonical_ring(ring)
        self.ring_points[step['r']] = list(ring)
        return None

    def op_new(self, step):
        self.clippers[step['c']] = self.impl.clipper(step['rev'])
        return None

    def op_add(self, step):
        ring = (self.impl.ring(step['pts']) if 'pts' in step
                else self.rings[step['r']])
        return bool(self.clippers[step['c']].add_linear_ring(
            ring, self.impl.kinds[step['kind']]))

    def op_addp(self, step):
        key = tuple(step['rs'])
        polygon = self.polygons.get(key)
        if polygon is None:
            polygon = self.impl.polygon([self.rings[r] for r in step['rs']])
            if step.get('hold'):
                self.polygons[key] = polygon
        return bool(self.clippers[step['c']].add_polygon(
            polygon, self.impl.kinds[step['kind']]))

    def op_feed(self, step):
        """Adds a part of a result obtained before."""
        result = self.results[step['res']]
        return bool(self.clippers[step['c']].add_polygon(
            result[step['i'] % len(result)], self.impl.kinds[step['kind']]))

    def op_addpts(self, step):
        return bool(self.clippers[step['c']].add_polygon(
            self.impl.polygon([self.impl.ring(points)
                               for points in step['rings']]),
            self.impl.kinds[step['kind']]))

    def op_exec(self, step):
        result = self.impl.call(self.clippers[step['c']], step['op'],
                                step['f1'], step['f2'],
                                step.get('via', 'named'))
        value = impls.canonical(result)
        for number in range(1, step.get('times', 1)):
            again = impls.canonical(self.impl.call(
                self.clippers[step['c']], step['op'], step['f1'],
                step['f2']))
            if again != value:
                return ['repetition', number, again]
        if 'keep' in step:
            self.results[step['keep']] = result
            self.result_values[step['keep']] = value
        return value

    def op_churn(self, step):
        """A lot of short-living clippers."""
        values = []
        for _ in range(step['times']):
            clipper = self.impl.clipper(step['rev'])
            clipper.add_linear_ring(self.rings[step['r']],
                                    self.impl.kinds[step['kind']])
            values.append(impls.canonical(self.impl.call(
                clipper, step['op'], step['f1'], step['f2'])))
            if values[-1] != values[0]:
                return ['repetition', len(values), values[-1]]
        return values[0]

    def op_bounds(self, step):
        box = self.clippers[step['c']].bounds
        value = impls.canonical_box(box)
        if step.get('spoil') and self.impl.name == 'port':
            for point in box.minimum, box.maximum:
                point.x += 1000
                point.y -= 1000
        return value

    def op_repr(self, step):
        repr(self.clippers[step['c']])
        return None

    def op_eq(self, step):
        self.clippers[step['c']] == self.clippers[step['d']]
        return None

    def op_touch(self, step):
        """Reads whatever can be read."""
        clipper = self.clippers[step['c']]
        for minimum in clipper.minimums:
            for bound in (minimum.left_bound, minimum.right_bound):
                for edge in bound.edges:
                    edge.bottom.x, edge.top.y, edge.slope
                bound.ring, bound.current_x, bound.maximum_bound
        return len(clipper.minimums)

    def op_dump(self, step):
        """What has been made of the rings."""
        result = []
        for minimum in self.clippers[step['c']].minimums:
            sides = []
            for bound in (minimum.left_bound, minimum.right_bound):
                sides.append([
                    [[float(edge.bottom.x), float(edge.bottom.y),
                      float(edge.top.x), float(edge.top.y),
                      repr(float(edge.slope))] for edge in bound.edges],
                    int(bound.winding_delta),
                    self.impl.kinds.index(bound.polygon_kind)])
            result.append([float(minimum.y),
                           bool(minimum.minimum_has_horizontal), sides])
        return result

    def op_scanbeams(self, step):
        found = self.clippers[step['c']].minimums.scanbeams
        values = sorted(map(float, found))
        if step.get('spoil') and self.impl.name == 'port':
            del found[:]
        return values

    def op_clear(self, step):
        self.clippers[step['c']].clear()
        return None

    def op_drop(self, step):
        self.clippers.pop(step['c'], None)
        return None

    def op_dropres(self, step):
        self.results.pop(step['res'], None)
        self.result_values.pop(step['res'], None)
        return None

    def op_gc(self, step):
        gc.collect()
        return None

    def op_deepcopy(self, step):
        self.clippers[step['d']] = copy.deepcopy(self.clippers[step['c']])
        return None

    def op_save(self, step):
        data = pickle.dumps(self.clippers[step['c']], step.get('protocol', 2))
        self.saved[step['c']] = data
        return data

    def op_load(self, step):
        self.clippers[step['c']] = pickle.loads(step['data'])
        return None

    def op_mutate(self, step):
        """The user changes a result obtained before."""
        result = self.results.pop(step['res'], None)
        self.result_values.pop(step['res'], None)
        if result is None or self.impl.name != 'port':
            return None
        for polygon in result:
            for ring in polygon:
                for point in ring:
                    point.x += 1000
                    point.y = -point.y
            del polygon.linear_rings[:]
        del result.polygons[:]
        result.polygons.append(self.impl.polygon([self.impl.ring(
            [[7, 7], [9, 7], [7, 9], [7, 7]])]))
        return None

    def op_add_bad(self, step):
        """Is rejected by the library."""
        impl, clipper = self.impl, self.clippers[step['c']]
        what = step['what']
        kind = impl.kinds[step['kind']]
        if what == 'none':
            result = clipper.add_linear_ring(None, kind)
        elif what in ('polygon', 'iterable'):
            rings = [self.rings[r] for r in step['rs']]
            rings.insert(step['at'] % (len(rings) + 1), None)
            result = clipper.add_polygon(
                impl.polygon(rings) if what == 'polygon' else Failing(rings),
                kind)
        else:
            points = [[x, y] for x, y in step['pts']]
            points[step['at'] % len(points)][step['at'] // 3 % 2] = None
            result = clipper.add_linear_ring(impl.ring(points), kind)
        return bool(result)

    # --- faults ---

    def run(self, step, frames=None):
        if frames is None:
            frames = self.frames
        if frames:
            return self.run(step, frames - 1)
        return getattr(self, 'op_' + step['k'])(step)

    def _outcome(self, function):
        try:
            return ['ok', function()]
        except Budget:
            raise
        except BaseException as error:
            aborted = (isinstance(error, tuple(EXCEPTIONS.values()))
                       and not isinstance(error, RuntimeError)
                       or isinstance(error, RecursionError))
            return ['aborted' if aborted else 'error', type(error).__name__,
                    message_of(error)]

    def __call__(self, message):
        """Performs the step, returns the outcome and what has happened."""
        step, fault = message['step'], message.get('fault')
        info = {}
        if self.impl.name == 'port':
            outcome = self._port(step, fault, message, info)
        else:
            outcome = self._binding(step, fault, message, info)
        if message.get('inputs'):
            try:
                info['changed'] = self.changed()
            except Exception as error:  # they were readable before
                info['changed'] = ['unreadable: %s: %s' % (
                    type(error).__name__, message_of(error))]
        if self.identities is not None:
            self.identities.forget()
        return outcome, info

    def _port(self, step, fault, message, info):
        kind = fault and fault['type']
        if kind == 'recursion':
            depth, frame = 0, sys._getframe()
            while frame is not None:
                depth, frame = depth + 1, frame.f_back
            limit = sys.getrecursionlimit()

            def function():
                sys.setrecursionlimit(depth + 4 + fault['k'])
                try:
                    return self.run(step)
                finally:
                    sys.setrecursionlimit(limit)
            outcome = self._outcome(function)
            info['fired'] = outcome[0] == 'aborted'
            info['site'] = 'depth+%d' % fault['k']
            return outcome
        if kind is None and not message.get('measure'):
            return self._outcome(lambda: self.run(step))
        actions = {}
        if kind == 'exc':
            actions[fault['at']] = raiser(fault['name'])
        elif kind == 'gc':
            actions = {at: collector for at in fault['at']}
        tracer = Tracer(actions, budget=message.get('budget'),
                        opcodes=bool(fault['opcodes'] if fault
                                     else message['measure'] == 'opcodes'),
                        recording=bool(message.get('record')))

        def function():
            with tracer:
                return self.run(step)
        try:
            outcome = self._outcome(function)
        except Budget:
            outcome = ['hang', tracer.count]
        finally:
            sys.settrace(None)
        info['events'] = tracer.count
        if message.get('record'):
            info['places'] = tracer.places()
            info['call_places'] = tracer.call_places()
        info['fired'] = bool(tracer.fired)
        if tracer.fired:
            info['site'] = tracer.fired[0]
            info['fires'] = len(tracer.fired)
        return outcome

    def _binding(self, step, fault, message, info):
        native = self.impl.native
        before = native.counters()
        kind = fault and fault['type']
        if kind == 'request-now':
            native.request()
        native.arm(fault['at'] if kind == 'alloc' else 0,
                   fault['at'] if kind == 'request' else 0,
                   message.get('budget') or 0)
        if message.get('record'):
            native.record(True)
        try:
            outcome = self._outcome(lambda: self.run(step))
        finally:
            native.disarm()
            native.record(False)
        after = native.counters()
        if message.get('record'):
            info['places'] = native.places(0)
            info['allocation_places'] = native.places(1)
        info['allocations'] = after['allocations'] - before['allocations']
        info['events'] = after['entries'] - before['entries']
        info['fired'] = (after['failed'] > before['failed']
                         or after['requested'] > before['requested'])
        info['pending'] = native.pending()
        if info['fired']:
            info['site'] = '%s@%s' % (kind, fault.get('at', 'call'))
        if (outcome[0] == 'error' and 'interrupted' in outcome[2]):
            outcome[0] = 'aborted'
        return outcome

    def changed(self):
        """Names of inputs and results which have been changed."""
        result = []
        for key, ring in self.rings.items():
            points = self.ring_points[key]
            if (impls.canonical_ring(ring) != self.ring_values[key]
                    or len(ring) != len(points)
                    or self.impl.name == 'port'
                    and any(a is not b for a, b in zip(ring, points))):
                result.append('ring %s' % key)
        for key, polygon in self.polygons.items():
            if (len(polygon) != len(key)
                    or [impls.canonical_ring(ring) for ring in polygon]
                    != [self.ring_values[r] for r in key]):
                result.append('polygon %s' % (key,))
        for key, value in self.result_values.items():
            if impls.canonical(self.results[key]) != value:
                result.append('result %s' % key)
        return result
