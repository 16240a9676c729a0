"""A simulated cluster: nodes replicate two growing sets of regions, what has
been added and what has been removed, by sending results of their clippers to
each other over an unreliable network and merging what they have received.

Merging is a union, so it should not matter how often, in which order and
grouped in which way regions are merged, as soon as everything has arrived
all the nodes should have the same regions."""

import json
import random

from . import geom, history, impls
from .core import Inconclusive, short
from .faults import measuring, needs_place, positioned
from .machine import Machine, message_of
from .oracle import Oracle
from .proc import Ended, Proc

SETS = 'AR'
EVEN_ODD = 0


class Node:
    """Runs in the simulated process."""

    def __init__(self, impl, style, reverse):
        self.machine = Machine(impl)
        self.impl = impl
        self.style = style
        self.reverse = reverse
        self.state = {name: impl.multipolygon([]) for name in SETS}
        self.clippers = {}

    def __call__(self, message):
        """The step is performed by the machine, so faults can be injected."""
        self.message = message
        self.machine.op_node = self.step
        outcome, info = self.machine({'step': {'k': 'node'},
                                      'fault': message.get('fault'),
                                      'measure': message.get('measure'),
                                      'record': message.get('record')})
        if message['k'] in ('merge', 'load') and outcome[0] == 'ok':
            self.state[message['set']] = self.result
            outcome = ['ok', impls.canonical(self.result)]
        return outcome, info

    def step(self, step):
        return getattr(self, 'do_' + self.message['k'])(**{
            key: value for key, value in self.message.items()
            if key not in ('k', 'fault', 'measure', 'record')})

    def build(self, polygons):
        impl = self.impl
        return impl.multipolygon([
            impl.polygon([impl.ring(ring) for ring in rings])
            for rings in polygons])

    def do_load(self, set, polygons):
        self.result = self.build(polygons)
        self.clippers.pop(set, None)

    def do_merge(self, set, polygons, fills, kinds):
        """Adds results obtained before (or received) to the clipper."""
        impl = self.impl
        incoming = self.build(polygons)
        clipper = self.clippers.get(set)
        accumulated = clipper is not None and self.style == 'accumulate'
        if clipper is None or self.style == 'fresh':
            clipper = impl.clipper(self.reverse)
            if self.style == 'clear':
                self.clippers[set] = clipper
        if self.style == 'clear':
            clipper.clear()
        if not accumulated:
            for polygon in self.state[set]:
                clipper.add_polygon(polygon, impl.kinds[kinds[0]])
        for polygon in incoming:
            clipper.add_polygon(polygon, impl.kinds[kinds[1]])
        if self.style == 'accumulate':
            # will not be used again if execution fails
            self.clippers.pop(set, None)
        self.result = impl.call(clipper, 'unite', *fills)
        if self.style == 'accumulate':
            self.clippers[set] = clipper

    def do_query(self, op, fills, others=()):
        """Over regions of the node and ones other nodes have answered
        with."""
        impl = self.impl
        clipper = impl.clipper(self.reverse)
        for name, kind in zip(SETS, impl.kinds):
            for polygon in self.state[name]:
                clipper.add_polygon(polygon, kind)
        for index, polygons in others:
            for polygon in self.build(polygons):
                clipper.add_polygon(polygon, impl.kinds[index])
        return impls.canonical(impl.call(clipper, op, *fills))


# --- plan ---

def rectilinear(rnd, m):
    kind = rnd.choice(('rect', 'rect', 'staircase', 'frame'))
    if kind == 'rect':
        return [geom.rect(rnd, m)]
    if kind == 'staircase':
        points = geom.staircase(rnd, m)
        if rnd.random() < .5:
            points = [[m - x, y] for x, y in points]
        return [points]
    x0, y0 = rnd.randint(0, m - 3), rnd.randint(0, m - 3)
    x1, y1 = rnd.randint(x0 + 3, m), rnd.randint(y0 + 3, m)
    inner = [[x0 + 1, y0 + 1], [x1 - 1, y0 + 1], [x1 - 1, y1 - 1],
             [x0 + 1, y1 - 1]]
    outer = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    return [outer, inner if rnd.random() < .5 else inner[::-1]]


def plan(rnd, prof):
    exact = rnd.random() < prof['exact']
    m = rnd.choice(prof['grids' if not exact else 'exact grids'])
    count = rnd.randint(*prof['nodes'])
    reverse = rnd.random() < .4
    nodes = [{'impl': rnd.choice(('port', 'binding')),
              'style': rnd.choice(('fresh', 'clear', 'accumulate'))}
             for _ in range(count)]
    steps = []
    calm = rnd.random() < prof['calm']
    weights = {'update': 6, 'gossip': 8, 'deliver': 10, 'query': 4}
    if not calm:
        weights.update({'duplicate': 1.5, 'drop': 1.5, 'crash': 1,
                        'partition': .5, 'heal': .5, 'redeliver': .7})
    names = sorted(weights)
    values = [weights[name] * rnd.choice((.5, 1, 2)) for name in names]
    for _ in range(rnd.randint(*prof['steps'])):
        k = rnd.choices(names, values)[0]
        step = {'k': k}
        if k == 'update':
            if exact:
                rings = rectilinear(rnd, m)
            else:
                name = rnd.choice(('polygon', 'triangle', 'star', 'comb',
                                   'rect', 'dirty'))
                size = rnd.choice((m, m // 2, m // 3))
                dx, dy = (rnd.randint(0, m - size), rnd.randint(0, m - size))
                rings = [[[x + dx, y + dy]
                          for x, y in geom.KINDS[name](rnd, size)]]
            step.update(node=rnd.randrange(count), rings=rings,
                        set=rnd.choices(SETS, (3, 2))[0])
        elif k in ('gossip', 'crash'):
            step.update(node=rnd.randrange(count))
            if k == 'gossip':
                step.update(to=rnd.randrange(count),
                            set=rnd.choices(SETS, (3, 2))[0])
            else:
                step['lost'] = rnd.random() < .3  # the last write
        elif k in ('deliver', 'duplicate', 'drop', 'redeliver'):
            # oldest ones are more probable, but any can be chosen
            step['at'] = 0 if rnd.random() < .4 else rnd.randrange(20)
        elif k == 'partition':
            step['mask'] = rnd.randrange(1 << count)
        elif k == 'query':
            step.update(node=rnd.randrange(count), op=rnd.choice(geom.OPS),
                        fills=[rnd.randrange(3), rnd.randrange(3)])
            if rnd.random() < .5:
                # nodes asked for their regions
                step['ask'] = rnd.randrange(1 << count)
        if k in ('update', 'deliver', 'query', 'redeliver') and not calm \
                and rnd.random() < prof['fault']:
            step['faults'] = {name: history.fault(rnd, prof['kinds'], name)
                              for name in ('port', 'binding')}
        if k in ('update', 'deliver', 'redeliver'):
            step['kinds'] = [rnd.randrange(2), rnd.randrange(2)]
            step['fills'] = [rnd.randrange(3), rnd.randrange(3)]
        steps.append(step)
    return {'impl': 'both', 'm': m, 'exact': exact, 'rev': reverse,
            'fill': rnd.choice((1, 2)), 'nodes': nodes, 'steps': steps,
            'final': [rnd.randrange(1 << 30), calm]}


# --- simulation ---

class Server:
    """The simulated node with its durable storage and what the simulator
    knows about it."""

    def __init__(self, simulation, number):
        self.simulation = simulation
        self.number = number
        self.name = simulation.plan['nodes'][number]['impl']
        # set -> ids of the updates merged, polygons, how many times their
        # coordinates could be rounded
        self.stored = [{name: (frozenset(), [], 0) for name in SETS}]
        self.memory = dict(self.stored[-1])
        self.proc = None
        self.start()

    def start(self):
        plan = self.simulation.plan
        impl = impls.get(self.name)
        style = plan['nodes'][self.number]['style']
        if self.proc is not None:
            self.proc.kill()
        self.proc = Proc(lambda: Node(impl, style, plan['rev']))
        self.memory = dict(self.stored[-1])
        for name in SETS:
            if self.memory[name][1]:
                self.ask({'k': 'load', 'set': name,
                          'polygons': self.memory[name][1]})

    def ask(self, message):
        try:
            return self.proc.ask(message)
        except Ended as error:
            return [error.kind, error.detail], {}


class Simulation:
    def __init__(self, plan_, prof, ctx):
        self.plan, self.prof, self.ctx = plan_, prof, ctx
        self.fill = (1 if plan_['fill'] == 1
                     else 3 if plan_['rev'] else 2)
        self.rnd = random.Random(json.dumps(plan_['nodes']))
        self.oracle = Oracle()
        self.updates = {}  # id -> set, rings
        self.unacknowledged = []  # numbers of nodes, sets, ids, polygons
        self.network = []  # in flight
        self.delivered = []
        self.mask = None
        self.previous = '-'
        self.servers = []
        self.sanitised = {}
        self.index = -1

    def run(self):
        try:
            for number in range(len(self.plan['nodes'])):
                self.servers.append(Server(self, number))
            for self.index, step in enumerate(self.plan['steps']):
                self.ctx.stats['steps'] += 1
                getattr(self, 'on_' + step['k'])(step)
            self.finish()
        finally:
            for server in self.servers:
                server.proc.close()

    def on_update(self, step):
        """Client makes a region of its rings and sends it to the node."""
        if step['node'] >= len(self.servers):
            return
        polygons = self.region_of(step['rings'])
        if polygons is None:
            return
        number = len(self.updates)
        self.updates[number] = step['set'], step['rings']
        update = (frozenset([number]), polygons, 1)
        if not self.merge(step['node'], step['set'], update, step):
            self.unacknowledged.append((step['node'], step['set'], update))

    def region_of(self, rings):
        key = json.dumps(rings)
        if key not in self.sanitised:
            name = self.rnd.choice(('port', 'binding'))
            answer, _ = self.oracle.ask(
                name, self.plan['rev'],
                tuple((ring, 0) for ring in rings),
                {'k': 'exec', 'op': 'unite', 'f1': EVEN_ODD, 'f2': EVEN_ODD})
            if answer[0] != 'ok':
                raise Inconclusive(short(answer))
            self.sanitised[key] = answer[1]
        return self.sanitised[key]

    def on_gossip(self, step):
        count = len(self.servers)
        source, target = step['node'] % count, step['to'] % count
        if source == target:
            return
        state = self.servers[source].memory[step['set']]
        self.network.append((source, target, step['set'], state))

    def take(self, step):
        if not self.network:
            return None
        at = step['at'] % len(self.network)
        if at:
            self.ctx.fault('reordering of messages')
        return self.network.pop(at)

    def connected(self, source, target):
        return self.mask is None or (self.mask >> source & 1) == (
            self.mask >> target & 1)

    def on_deliver(self, step):
        message = self.take(step)
        if message is not None:
            self.deliver(message, step)

    def deliver(self, message, step):
        source, target, name, state = message
        if not self.connected(source, target):
            self.ctx.fault('loss of a message because of partition')
            return
        self.delivered.append(message)
        self.merge(target, name, state, step)

    def on_duplicate(self, step):
        if self.network:
            self.ctx.fault('duplication of a message')
            self.network.append(self.network[step['at']
                                             % len(self.network)])

    def on_redeliver(self, step):
        """Comes once again, long after it has been delivered."""
        if self.delivered:
            self.ctx.fault('late duplicate of a message')
            self.deliver(self.delivered[step['at'] % len(self.delivered)],
                         step)

    def on_drop(self, step):
        if self.network:
            self.network.pop(step['at'] % len(self.network))
            self.ctx.fault('loss of a message')

    def on_partition(self, step):
        self.mask = step['mask']
        self.ctx.fault('partition')

    def on_heal(self, step):
        self.mask = None
        self.ctx.stats['heals'] += 1

    def on_crash(self, step):
        server = self.servers[step['node'] % len(self.servers)]
        self.ctx.fault('crash of %s node' % server.name)
        if step.get('lost') and len(server.stored) > 1:
            # so nothing merged by it has been acknowledged
            self.ctx.fault('lost write')
            last, previous = server.stored.pop(), server.stored[-1]
            for name in SETS:
                for number in sorted(last[name][0] - previous[name][0]):
                    self.unacknowledged.append((
                        server.number, name,
                        (frozenset([number]),
                         self.region_of(self.updates[number][1]), 1)))
        server.start()
        self.ctx.event(self.index, 'crash', step['node'])
        self.previous = 'crash'

    def merge(self, number, name, incoming, step):
        """Returns whether it has been done and made durable."""
        server = self.servers[number]
        ids, polygons, depth = server.memory[name]
        kinds = step.get('kinds', [0, 0])
        # regions of one kind overlap, regions of different kinds do not,
        # so any of the kinds of filling is right for them
        fills = (self.fills_of(step) if kinds[0] != kinds[1]
                 and self.plan['nodes'][number]['style'] != 'accumulate'
                 else [self.fill] * 2)
        message = {'k': 'merge', 'set': name, 'polygons': incoming[1],
                   'fills': fills, 'kinds': kinds}
        outcome = self.perform(server, message, step)
        if outcome[0] == 'aborted':
            return False
        self.ctx.check(outcome[0] != 'error', 'step', self.index,
                       'results of the library are not accepted by it:',
                       short(outcome))
        state = (ids | incoming[0], outcome[1],
                 max(depth, incoming[2]) + 1)
        self.check_region('node %d has merged %s' % (number, name),
                          outcome[1], self.rings_of(state[0]), None, None,
                          state[2])
        server.memory[name] = state
        # written before it is acknowledged
        server.stored.append(dict(server.memory))
        self.ctx.state('merge', server.name, self.prof_of(server),
                       min(len(ids), 6), min(len(incoming[0]), 6),
                       len(ids & incoming[0]) > 0, self.previous,
                       len(outcome[1]) > 1,
                       any(len(rings) > 1 for rings in outcome[1]))
        self.previous = 'merge'
        return True

    def prof_of(self, server):
        return self.plan['nodes'][server.number]['style']

    def perform(self, server, message, step):
        ctx = self.ctx
        found = (step.get('faults') or {}).get(server.name)
        if found:
            if needs_place(found):
                # positions are relative to what the same step takes
                found = positioned(found,
                                   self.measure(server, message, found))
        if found:
            message = dict(message, fault=found)
        outcome, info = server.ask(message)
        ctx.stats['simulated time (events)'] += info.get('events', 0) or 0
        fired = bool(info.get('fired'))
        if fired:
            ctx.fault('%s:%s' % (server.name, found['type']))
        ctx.event(self.index, server.number, message['k'],
                  message.get('set'), message.get('op'), info.get('site'),
                  json.dumps(outcome))
        if outcome[0] == 'aborted':
            ctx.check(fired or info.get('pending') is not None, server.name,
                      short(outcome), 'without a reason')
            self.previous = 'aborted'
        if outcome[0] in ('crash', 'hang', 'deadlock', 'dead'):
            ctx.check(False, 'step', self.index, message['k'], 'on a node by',
                      server.name, 'ended the process:', short(outcome))
        return outcome

    def measure(self, server, message, found):
        """In a copy of the node."""
        plan = self.plan
        impl = impls.get(server.name)
        style = plan['nodes'][server.number]['style']
        proc = Proc(lambda: Node(impl, style, plan['rev']))
        try:
            for name in SETS:
                proc.ask({'k': 'load', 'set': name,
                          'polygons': server.memory[name][1]})
            _, info = proc.ask(dict(message,
                                    **measuring(server.name, found)))
        except Ended:
            return {}
        finally:
            proc.close()
        return info

    def on_query(self, step):
        number = step['node'] % len(self.servers)
        server = self.servers[number]
        fills = self.fills_of(step)
        known = {name: server.memory[name] for name in SETS}
        others = []
        for other in self.servers:
            if (other is server or not step.get('ask', 0) >> other.number & 1
                    or not self.connected(number, other.number)):
                continue
            for index, name in enumerate(SETS):
                ids, polygons, depth = other.memory[name]
                others.append([index, polygons])
                known[name] = (known[name][0] | ids, None,
                               max(known[name][2], depth))
        if others:
            # regions of different nodes overlap
            fills = [fill or 1 for fill in fills]
        message = {'k': 'query', 'op': step['op'], 'fills': fills}
        if others:
            message['others'] = others
        outcome = self.perform(server, message, step)
        if outcome[0] == 'aborted':
            # nothing has been changed by it, the client asks again
            outcome = self.perform(server, message, {})
            self.ctx.check(outcome[0] != 'aborted', 'query', short(outcome),
                           'without a reason')
        self.ctx.check(outcome[0] != 'error', 'step', self.index,
                       'results of the library are not accepted by it:',
                       short(outcome))
        added, removed = known['A'], known['R']
        self.check_region(
            'node %d answers %s' % (number, step['op']), outcome[1],
            self.rings_of(added[0]), self.rings_of(removed[0]), step['op'],
            max(added[2], removed[2]) + 1)
        self.ctx.state('query', server.name, step['op'], len(others) // 2,
                       min(len(added[0]), 6), min(len(removed[0]), 6),
                       self.previous)
        self.previous = 'query'

    def fills_of(self, step):
        oriented = 3 if self.plan['rev'] else 2
        return [(EVEN_ODD, 1, oriented)[number]
                for number in step.get('fills', (1, 1))]

    def rings_of(self, ids):
        return [self.updates[number][1] for number in sorted(ids)]

    def check_region(self, what, result, first, second, op, depth):
        """Results are regions: nothing is covered twice and orientation is
        the one asked for."""
        ctx = self.ctx
        sign = -1 if self.plan['rev'] else 1
        everything = [(ring, 0) for rings in first + (second or [])
                      for ring in rings]
        if self.plan['exact']:
            m = self.plan['m'] + 2
            points = [(x + .5, y + .5) for x in range(-1, m)
                      for y in range(-1, m)]
        else:
            points = geom.sample_points(self.rnd, everything, 40,
                                        1.5 * depth)
        ctx.stats['points compared with the model'] += len(points)
        for point in points:
            expected = self.covered(point, first)
            if op is not None:
                expected = geom.combine(op, expected,
                                        self.covered(point, second))
            got = geom.result_winding(point, result)
            ctx.check(got == (sign if expected else 0), 'step', self.index,
                      what, 'winding number of', point, 'is', got,
                      'instead of', sign if expected else 0)

    def covered(self, point, regions):
        return any(sum(geom.winding(point, ring) for ring in rings) % 2
                   for rings in regions)

    def finish(self):
        """Faults stop, progress is expected in a bounded number of steps."""
        ctx = self.ctx
        self.mask = None
        seed, calm = self.plan['final']
        rnd = random.Random(seed)
        for number, name, update in self.unacknowledged:
            self.index += 1
            done = self.merge(number, name, update, {})
            if not done:  # a request could be left pending by faults
                done = self.merge(number, name, update, {})
            ctx.check(done, 'update is not accepted after faults have '
                      'stopped')
        # messages in flight arrive in any order
        rnd.shuffle(self.network)
        for message in self.network:
            self.index += 1
            self.settle(message[1], message[2], message[3])
        if not calm:
            for server in self.servers:
                if rnd.random() < .3:
                    ctx.fault('crash of %s node' % server.name)
                    server.start()
        count = len(self.servers)
        ring = list(range(count))
        rnd.shuffle(ring)
        for _ in range(2):
            for at in range(count):
                for name in SETS:
                    self.index += 1
                    self.settle(ring[(at + 1) % count], name,
                                self.servers[ring[at]].memory[name])
        for name in SETS:
            everything = frozenset(number for number, (other, _)
                                   in self.updates.items() if other == name)
            for server in self.servers:
                ctx.check(server.memory[name][0] == everything,
                          'node', server.number, 'has not converged')
        for server in self.servers:
            for op in geom.OPS:
                self.index += 1
                self.on_query({'node': server.number, 'op': op,
                               'fills': [rnd.randrange(3),
                                         rnd.randrange(3)]})

    def settle(self, number, name, state):
        if not self.merge(number, name, state, {}):
            self.ctx.check(self.merge(number, name, state, {}),
                           'no progress after faults have stopped')


def execute(plan_, prof, ctx):
    Simulation(plan_, prof, ctx).run()


def shrinks(plan_):
    steps = plan_['steps']
    size = len(steps) // 2
    while size:
        for start in range(0, len(steps), size):
            yield dict(plan_, steps=steps[:start] + steps[start + size:])
        size //= 2
    for index, step in enumerate(steps):
        if 'faults' in step:
            yield dict(plan_, steps=steps[:index] + [
                {key: value for key, value in step.items()
                 if key != 'faults'}] + steps[index + 1:])
        for at, points in enumerate(step.get('rings', ())):
            if plan_['exact']:
                break
            for drop in range(len(points)):
                rings = list(step['rings'])
                rings[at] = points[:drop] + points[drop + 1:]
                yield dict(plan_, steps=steps[:index]
                           + [dict(step, rings=rings)] + steps[index + 1:])
    if len(plan_['nodes']) > 2:
        yield dict(plan_, nodes=plan_['nodes'][:-1])
