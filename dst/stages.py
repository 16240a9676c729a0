"""Operations performed stage by stage by ring managers of both
implementations: replicas of one state machine whose every intermediate state
is compared, an aborted replica restarts and repeats what it has done."""
import json

from . import geom, history, impls
from .core import short
from .faults import measuring, needs_place, positioned
from .machine import Machine
from .proc import Ended, Proc, isolated

NAMES = 'port', 'binding'


def pair(point):
    return [float(point.x), float(point.y)]


def pairs(points):
    return [pair(point) for point in points]


class Stager:
    """Runs in the simulated process."""

    def __init__(self, impl):
        self.impl = impl
        self.machine = Machine(impl)
        self.machine.op_stage = self.step
        if impl.name == 'port':
            from wagyu.local_minimum import LocalMinimumList
            from wagyu.ring_manager import RingManager
            self.list_class, self.manager_class = LocalMinimumList, RingManager
        else:
            self.list_class = impl.module.LocalMinimumList
            self.manager_class = impl.module.RingManager

    def __call__(self, message):
        if message.get('rehearsal'):
            try:
                return isolated(self.perform, dict(message, rehearsal=None))
            except Ended as error:
                return [error.kind, error.detail], {}
        return self.perform(message)

    def perform(self, message):
        self.message = message
        try:
            outcome, info = self.machine({
                'step': {'k': 'stage'}, 'fault': message.get('fault'),
                'measure': message.get('measure'),
                'record': message.get('record')})
        finally:
            if self.machine.identities is not None:
                self.machine.identities.forget()
        if outcome[0] == 'ok' and message.get('dump'):
            outcome = ['ok', outcome[1], self.dump(message.get('stats'))]
        return outcome, info

    def step(self, step):
        return getattr(self, 'do_' + self.message['k'])(self.message)

    # --- stages ---

    def do_start(self, message):
        impl = self.impl
        clipper = impl.clipper(message['rev'])
        for points, kind in message['adds']:
            clipper.add_linear_ring(impl.ring(points), impl.kinds[kind])
        self.clipper = clipper  # the binding's list refers to its bounds
        minimums = sorted(clipper.minimums, reverse=True)
        self.minimums = (self.list_class(*minimums) if impl.name == 'port'
                         else self.list_class(minimums))
        self.manager = self.manager_class()
        self.active = []
        self.scanbeams = []
        self.index = 0
        self.y = None
        self.kinds = (impl.operations[message['op']],
                      impl.fills[message['f1']], impl.fills[message['f2']])
        return len(self.minimums)

    def do_hot(self, message):
        self.manager.build_hot_pixels(self.minimums)

    def do_vatti(self, message):
        self.manager.execute_vatti(self.minimums, *self.kinds)
        self.active = []

    def do_begin(self, message):
        self.scanbeams = list(self.minimums.scanbeams)
        self.active = []
        self.index = 0
        self.manager.current_hot_pixel_index = 0
        return list(map(float, self.scanbeams))

    def do_scanline(self, message):
        """Is there anything to do?"""
        if not self.scanbeams and self.index >= len(self.minimums):
            return False
        if self.scanbeams:
            self.y = self.scanbeams.pop()
        return float(self.y)

    def do_intersections(self, message):
        if self.impl.name == 'port':
            self.manager.process_intersections(self.y, *self.kinds,
                                               self.active)
        else:
            self.active = self.manager.process_intersections(
                self.y, *self.kinds, self.active)

    def do_pixels(self, message):
        pixels = self.manager.hot_pixels
        index = self.manager.current_hot_pixel_index
        while index < len(pixels) and pixels[index].y > self.y:
            index += 1
        self.manager.current_hot_pixel_index = index
        return index

    def do_tops(self, message):
        if self.impl.name == 'port':
            self.active, self.index = (
                self.manager.process_edges_at_top_of_scanbeam(
                    *self.kinds, self.y, self.scanbeams, self.active,
                    self.index, self.minimums))
        else:
            self.active, self.scanbeams, self.index = (
                self.manager.process_edges_at_top_of_scanbeam(
                    self.y, self.scanbeams, *self.kinds, self.active,
                    self.minimums, self.index))
        return self.index

    def do_insert(self, message):
        if self.impl.name == 'port':
            self.index = self.manager.insert_local_minima_into_abl(
                *self.kinds, self.y, self.scanbeams, self.minimums,
                self.index, self.active)
        else:
            self.active, self.scanbeams, self.index = (
                self.manager.insert_local_minima_into_abl(
                    *self.kinds, self.y, self.scanbeams, self.minimums,
                    self.index, self.active))
        return self.index

    def do_orient(self, message):
        self.manager.correct_orientations()

    def do_collinear(self, message):
        self.manager.correct_collinear_edges()

    def do_selves(self, message):
        return bool(self.manager.correct_self_intersections(message['tree']))

    def do_tree(self, message):
        self.manager.correct_tree()

    def do_chains(self, message):
        self.manager.correct_chained_rings()

    def do_topology(self, message):
        self.manager.correct_topology()

    def do_result(self, message):
        return impls.canonical(self.manager.build_result(message['rev']))

    def do_whole(self, message):
        """The same in one go."""
        return impls.canonical(self.impl.call(
            self.clipper, message['op'], message['f1'], message['f2']))

    # --- what can be seen of the state ---

    def ring(self, ring, stats):
        result = [ring.index, pairs(ring.points), pairs(ring.bottom_points),
                  bool(ring.corrected),
                  None if ring.parent is None else ring.parent.index,
                  [None if child is None else child.index
                   for child in ring.children]]
        if stats and ring.points:
            result += [ring.size, float(ring.area), bool(ring.is_hole),
                       pair(ring.box.minimum), pair(ring.box.maximum)]
        return result

    def bound(self, bound):
        if bound is None:
            return None
        return [len(bound.edges), bound.current_edge_index,
                bound.next_edge_index, pair(bound.last_point),
                None if bound.ring is None else bound.ring.index,
                float(bound.current_x), bound.position,
                bound.winding_count, bound.opposite_winding_count,
                bound.winding_delta,
                self.impl.kinds.index(bound.polygon_kind),
                bound.side.name]

    def dump(self, stats):
        manager = self.manager
        return {'rings': [self.ring(ring, stats) for ring in manager.rings],
                'children': [None if child is None else child.index
                             for child in manager.children],
                'index': manager.index,
                'hot pixels': pairs(manager.hot_pixels),
                'current hot pixel': manager.current_hot_pixel_index,
                'active': [self.bound(bound) for bound in self.active],
                'scanbeams': list(map(float, self.scanbeams)),
                'minimum': self.index}


# --- plans ---

def plan(rnd, index):
    choice = rnd.random()
    op = rnd.choice(geom.OPS)
    f1, f2 = rnd.randrange(4), rnd.randrange(4)
    if rnd.random() < .35:
        f1 = f2 = 0
    if index % 5 < 2:  # so every scene of the corpus is met
        m, rings, kinds, op, f1, f2 = geom.rare_scene(
            rnd, index // 5 * 2 + index % 5)
    else:
        m, rings = (geom.hard_scene(rnd) if choice < .6
                    else geom.scene(rnd, 2, 8))
        kinds = [rnd.randrange(2) for _ in rings]
        if rnd.random() < .4:
            op = rnd.choice(('unite', 'symmetric_subtract'))
    adds, limit = [], 120
    for points, kind in zip(rings, kinds):
        limit -= len(points)
        if limit < 0 and adds:
            break
        adds.append([points, kind])
    sweep, whole = rnd.random() < .6, rnd.random() < .5
    faults = []
    if rnd.random() < .7:
        for _ in range(rnd.randint(1, 3)):
            name = rnd.choice(NAMES)
            found = history.fault(rnd, {'exc': 3, 'recursion': 1, 'gc': 1,
                                        'alloc': 4, 'request': 2}, name)
            faults.append([name, place(rnd, sweep, whole), found])
    return {'adds': adds, 'op': op, 'f1': f1, 'f2': f2,
            'rev': rnd.random() < .35, 'sweep': sweep, 'whole': whole,
            'stats': rnd.random() < .5,
            'every': rnd.choice((1, 1, 2, 5)), 'faults': faults,
            'crashes': [[rnd.choice(NAMES), place(rnd, sweep, whole)]
                        for _ in range(rnd.choice((0, 0, 1, 2)))]}


def place(rnd, sweep, whole):
    """Which stage, how many times it has been performed before."""
    if sweep and rnd.random() < .5:
        return [rnd.choice(('begin', 'scanline', 'intersections',
                            'intersections', 'tops', 'tops', 'insert')),
                min(int(rnd.expovariate(.2)), 30)]
    k = rnd.choice((['start', 'hot', 'result'] + ['vatti'] * 3 * (not sweep)
                    + (['topology'] * 4 if whole
                       else ['orient', 'collinear', 'selves', 'tree', 'chains',
                             'chains'])))
    return [k, rnd.choice((0, 0, 1)) if k in ('selves', 'chains') else 0]


class Replica:
    def __init__(self, name, ctx):
        self.name, self.ctx = name, ctx
        self.start()

    def start(self):
        impl = impls.get(self.name)
        self.proc = Proc(lambda: Stager(impl))

    def ask(self, message):
        try:
            return self.proc.ask(message)
        except Ended as error:
            return [error.kind, error.detail], {}

    def restart(self, log):
        self.proc.kill()
        self.start()
        self.ctx.fault('restart of ' + self.name)
        for message, expected in log:
            outcome, _ = self.ask(message)
            self.ctx.check(outcome == expected, self.name,
                           'after a restart gives', short(outcome),
                           'for stage', message['k'], 'it was',
                           short(expected))


class Execution:
    def __init__(self, plan_, ctx):
        self.plan, self.ctx = plan_, ctx
        self.replicas = [Replica(name, ctx) for name in NAMES]
        self.logs = {name: [] for name in NAMES}
        self.count = 0
        self.performed = {}

    def stage(self, k, dump=True, **options):
        """Returns what both of them answer, None after an error."""
        plan_, ctx, number = self.plan, self.ctx, self.count
        self.count += 1
        at = [k, self.performed.get(k, 0)]
        self.performed[k] = at[1] + 1
        message = dict(options, k=k, dump=dump, stats=plan_['stats'])
        outcomes = []
        for replica in self.replicas:
            name, log = replica.name, self.logs[replica.name]
            if [name, at] in plan_['crashes']:
                replica.restart(log)
            outcome, info = self.perform(replica, message, number, at)
            if outcome[0] == 'aborted':
                replica.restart(log)
                outcome, info = replica.ask(message)
            ctx.stats['steps'] += 1
            log.append((message, outcome))
            outcomes.append(outcome[:2] if outcome[0] == 'error' else outcome)
            ctx.event(number, k, name, json.dumps(outcome))
            ctx.check(outcome[0] in ('ok', 'error'), 'stage', number, k, name,
                      'gives', short(outcome))
        port, binding = outcomes
        if port != binding and port[0] == binding[0] == 'ok' and dump:
            ctx.check(port[1] == binding[1], 'stage', number, k, 'port:',
                      short(port[1]), 'binding:', short(binding[1]))
            keys = [key for key in port[2] if port[2][key] != binding[2][key]]
            ctx.check(False, 'after stage', number, k, keys[0], 'of port:',
                      short(port[2][keys[0]]), 'of binding:',
                      short(binding[2][keys[0]]))
        ctx.check(port == binding, 'stage', number, k, 'port:', short(port),
                  'binding:', short(binding))
        state = port[2] if port[0] == 'ok' and dump else {}
        ctx.state(k, port[0], min(len(state.get('rings', ())), 8),
                  min(len(state.get('active', ())), 8),
                  sum(1 for ring in state.get('rings', ()) if ring[3]) > 0,
                  self.previous)
        self.previous = k
        return port[1] if port[0] == 'ok' else None

    previous = '-'

    def perform(self, replica, message, number, at):
        ctx = self.ctx
        for name, place_, found in self.plan['faults']:
            if name != replica.name or place_ != at:
                continue
            if needs_place(found):
                _, info = replica.ask(dict(message, rehearsal=True,
                                           dump=False,
                                           **measuring(name, found)))
                found = positioned(found, info)
            if found is None:
                ctx.stats['faults without a place'] += 1
                break
            outcome, info = replica.ask(dict(message, fault=found))
            ctx.stats['simulated time (events)'] += info.get('events', 0) or 0
            fired = bool(info.get('fired'))
            if fired:
                ctx.fault('%s:%s' % (name, found['type']))
            if outcome[0] == 'aborted':
                ctx.check(fired, 'stage', number, message['k'], name,
                          short(outcome), 'without a reason')
            elif info.get('pending'):
                # would be delivered to one of later stages
                outcome = ['aborted']
            return outcome, info
        return replica.ask(message)

    def pipeline(self):
        plan_ = self.plan
        kinds = {key: plan_[key] for key in ('op', 'f1', 'f2')}
        found = self.stage('start', adds=plan_['adds'], rev=plan_['rev'],
                           **kinds)
        if not found:
            return None
        self.stage('hot')
        if self.failed():
            return None
        if plan_['sweep']:
            self.stage('begin')
            turn = 0
            while (not self.failed()
                   and self.stage('scanline', dump=False) is not False):
                turn += 1
                for k in 'intersections', 'pixels', 'tops', 'insert':
                    self.stage(k, dump=turn % plan_['every'] == 0)
                    if self.failed():
                        return None
                if turn > 2000:
                    self.ctx.check(False, 'sweep does not end')
        else:
            self.stage('vatti')
        if self.failed():
            return None
        if plan_['whole']:
            self.stage('topology')
        else:
            # repetition of stages until nothing changes
            for k, options in (('orient', {}), ('collinear', {}),
                               ('selves', {'tree': False}), ('tree', {})):
                self.stage(k, **options)
                if self.failed():
                    return None
            for _ in range(50):
                self.stage('chains')
                if self.failed() or not self.stage('selves', tree=True):
                    break
        if self.failed():
            return None
        result = self.stage('result', rev=plan_['rev'])
        if plan_['whole'] and not self.failed():
            whole = self.stage('whole', dump=False, **kinds)
            if not self.failed():
                self.ctx.check(result == whole, 'stages give', short(result),
                               'the whole operation gives', short(whole))
        return result

    def failed(self):
        return self.logs['port'][-1][1][0] != 'ok'

    def close(self):
        for replica in self.replicas:
            replica.proc.close()


def execute(plan_, ctx):
    execution = Execution(plan_, ctx)
    try:
        result = execution.pipeline()
    finally:
        execution.close()
    if not result:
        ctx.stats['empty results'] += 1


def shrinks(plan_):
    for key in 'faults', 'crashes', 'adds':
        for at in range(len(plan_[key])):
            yield dict(plan_, **{key: plan_[key][:at] + plan_[key][at + 1:]})
    for index, (points, kind) in enumerate(plan_['adds']):
        for at in range(len(points)):
            adds = list(plan_['adds'])
            adds[index] = [points[:at] + points[at + 1:], kind]
            yield dict(plan_, adds=adds)
