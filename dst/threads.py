"""Threads of one simulated process: real threads, only the one holding the
baton runs, the plan decides after which number of events it is handed over.

Events are instructions (or lines) of the port, entries of functions of the
binding executed without the interpreter lock and ends of operations."""
import json
import os
import sys
import threading
import time

from . import geom, history, impls
from .core import Inconclusive, short
from .machine import Machine
from .oracle import Oracle
from .proc import Ended, Proc
from .tracing import PREFIX, prime


class Baton:
    def __init__(self, schedule, count):
        self.schedule = iter(schedule)
        self.count = count
        self.alive = set(range(count))
        self.gates = [threading.Semaphore(0) for _ in range(count)]
        self.current = None
        self.remaining = 0
        self.over = False
        self.events = 0
        self.switches = []
        self.forced = 0
        self.finished = threading.Event()

    def start(self):
        self.pick(None)
        self.gates[self.current].release()

    def pick(self, previous):
        """Chooses who runs next and for how long."""
        for tid, length in self.schedule:
            if tid in self.alive:
                self.current, self.remaining = tid, length
                return
        # the plan is over: one after another
        self.over = True
        self.current = (previous if previous in self.alive
                        else min(self.alive))
        self.remaining = 1 << 60

    def event(self, tid, site):
        """The thread passes a point where it can be stopped."""
        if self.current != tid:  # has been blocked by something else
            self.gates[tid].acquire()
        self.events += 1
        self.remaining -= 1
        if self.remaining > 0:
            return
        self.pick(tid)
        if self.current != tid:
            self.switches.append((tid, self.current, site()))
            self.gates[self.current].release()
            self.gates[tid].acquire()

    def wait(self, tid):
        self.gates[tid].acquire()

    def end(self, tid):
        if self.current != tid:
            self.gates[tid].acquire()
        self.alive.discard(tid)
        if not self.alive:
            self.finished.set()
            return
        self.pick(tid)
        self.gates[self.current].release()

    def supervise(self):
        """Real locks of the system under test may block who has the baton."""
        last, since, cpu = -1, time.monotonic(), 0.
        while not self.finished.wait(.25):
            now = time.process_time()
            if self.events != last or now - cpu > .02:
                last, since, cpu = self.events, time.monotonic(), now
            elif time.monotonic() - since > 2.:
                others = sorted(self.alive - {self.current})
                if not others or self.forced > 50:
                    return False
                self.forced += 1
                at = others[self.forced % len(others)]
                self.current, self.remaining = at, 1 << 60
                self.gates[at].release()
                since = time.monotonic()
        return True


class ThreadTracer:
    """``novel`` leaves only first passages of places by an operation, so ones
    passed rarely are stopped at as often as ones of the deepest loops."""

    def __init__(self, baton, tid, opcodes, novel=False):
        self.baton, self.tid, self.opcodes = baton, tid, opcodes
        self.frame = None
        self.passed = set() if novel else None

    def site(self):
        return '%s:%d' % (os.path.basename(self.frame.f_code.co_filename),
                          self.frame.f_lineno or 0)

    def on_call(self, frame, event, arg):
        if (self.baton.over
                or not frame.f_code.co_filename.startswith(PREFIX)):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.on_event

    def on_event(self, frame, event, arg):
        if event == 'opcode' or event == 'line':
            if self.baton.over and self.baton.current == self.tid:
                return None
            if self.passed is not None:
                place = frame.f_code, (frame.f_lasti if self.opcodes
                                       else frame.f_lineno)
                if place in self.passed:
                    return self.on_event
                self.passed.add(place)
            self.frame = frame
            self.baton.event(self.tid, self.site)
        return self.on_event


class Simulation:
    """Runs in the simulated process."""

    def __init__(self, impl):
        self.impl = impl

    def __call__(self, plan):
        impl = self.impl
        shared = Machine(impl)
        for r, points in enumerate(plan['rings']):
            shared({'step': {'k': 'ring', 'r': r, 'pts': points}})
        for polygon in plan.get('polygons', ()):
            shared.polygons[tuple(polygon)] = impl.polygon(
                [shared.rings[r] for r in polygon])
        common = plan.get('common')
        if common:
            for step in common:
                shared({'step': step})
        if plan['opcodes']:
            prime()
        baton = Baton(plan['schedule'], len(plan['threads']))
        records = []
        clock = [0]

        def tick():
            clock[0] += 1
            return clock[0]

        def body(tid):
            script = plan['threads'][tid]
            machine = shared
            if not common:
                machine = Machine.__new__(Machine)
                machine.__dict__.update(shared.__dict__)
                machine.clippers, machine.results = {}, {}
                machine.result_values = {}
            tracer = ThreadTracer(baton, tid, plan['opcodes'],
                                  plan.get('novel'))
            if impl.name == 'port':
                # switching tracing on and off while others are running
                # is not reliable in CPython, so it is done once
                sys.settrace(tracer.on_call)
            ready.release()
            baton.wait(tid)
            try:
                for number, step in enumerate(script):
                    begin = tick()
                    outcome = machine._outcome(lambda: machine.run(step))
                    records.append([tid, number, begin, tick(), outcome])
                    if tracer.passed:
                        tracer.passed.clear()
                    baton.event(tid, lambda: 'end of %s' % step['k'])
            finally:
                baton.end(tid)
            baton.finished.wait()

        def on_yield():
            baton.event(baton.current, lambda: 'inside of the binding')

        threads = [threading.Thread(target=body, args=(tid,), daemon=True)
                   for tid in range(len(plan['threads']))]
        if impl.name == 'binding':
            impl.native.set_yield(on_yield)
        ready = threading.Semaphore(0)
        for thread in threads:
            thread.start()
        for _ in threads:
            ready.acquire()
        baton.start()
        finished = baton.supervise()
        if finished:
            for thread in threads:
                thread.join(20)
        if impl.name == 'binding' and finished:
            impl.native.set_yield(None)
        return {'records': records, 'finished': finished,
                'switches': baton.switches, 'events': baton.events,
                'forced': baton.forced,
                'changed': shared.changed() if finished else []}


def schedule(rnd, count, total):
    """Who runs and for how many events."""
    style = rnd.randrange(3)
    result = []
    if style == 0:  # few preemptions at random places
        for _ in range(rnd.randint(2, 8)):
            result.append([rnd.randrange(count), rnd.randint(1, total)])
    elif style == 1:  # many
        top = rnd.choice((5, 30, 200, 1000))
        for _ in range(rnd.randint(20, 300)):
            result.append([rnd.randrange(count), rnd.randint(1, top)])
    else:
        import math
        for _ in range(rnd.randint(10, 100)):
            result.append([rnd.randrange(count), int(math.exp(
                rnd.random() * math.log(total)))])
    return result


def script(rnd, rings, polygons, length):
    steps = [{'k': 'new', 'c': 0, 'rev': rnd.random() < .35}]
    for _ in range(rnd.randint(2, 4)):
        if polygons and rnd.random() < .3:
            steps.append({'k': 'addp', 'c': 0, 'rs': rnd.choice(polygons),
                          'kind': rnd.randrange(2)})
        else:
            steps.append({'k': 'add', 'c': 0, 'kind': rnd.randrange(2),
                          'r': rnd.randrange(len(rings))})
    for _ in range(rnd.randint(*length)):
        k = rnd.choices(('exec', 'add', 'bounds', 'clear', 'scanbeams',
                         'dump'), (8, 3, 1, .3, .5, .5))[0]
        step = {'k': k, 'c': 0}
        if k == 'exec':
            step = history.random_exec(rnd, 0)
        elif k == 'add':
            step.update(r=rnd.randrange(len(rings)), kind=rnd.randrange(2))
        steps.append(step)
    steps.append(history.random_exec(rnd, 0))
    return steps


def plan_own(rnd, impl, prof):
    """Every thread has its own clipper, rings and polygons are shared."""
    m, rings = geom.scene(rnd, *prof['rings'], prof['grids'])
    polygons = [[rnd.randrange(len(rings)) for _ in range(rnd.randint(1, 3))]
                for _ in range(rnd.randint(0, 2))]
    count = rnd.randint(2, 4)
    opcodes = rnd.random() < .5
    threads = [script(rnd, rings, polygons, prof['steps'])
               for _ in range(count)]
    if rnd.random() < .3:
        # all threads do the same
        threads = [threads[0]] * count
    result = {'impl': impl, 'rings': rings, 'polygons': polygons,
              'threads': threads, 'opcodes': opcodes,
              'schedule': schedule(rnd, count, 20000 if opcodes else 5000)}
    if impl == 'port' and rnd.random() < .35:
        result.update(novel=True,
                      schedule=schedule(rnd, count, 2500 if opcodes else 600))
    return result


def run_simulation(plan_, ctx):
    impl = impls.get(plan_['impl'])
    proc = Proc(lambda: Simulation(impl))
    try:
        result = proc.ask(plan_, cpu_limit=60.)
    except Ended as error:
        ctx.check(False, 'threads ended the process:', error.kind,
                  error.detail)
    finally:
        proc.close()
    ctx.check(result['finished'], 'threads block each other forever')
    ctx.stats['steps'] += len(result['records'])
    ctx.stats['simulated time (events)'] += result['events']
    ctx.fault('switch of threads', len(result['switches']))
    inside = [switch for switch in result['switches']
              if not switch[2].startswith('end')]
    if inside:
        ctx.fault('switch of threads inside of an operation', len(inside))
    ctx.stats['forced switches'] += result['forced']
    for before, after, site in result['switches']:
        ctx.state(site)
    ctx.event(json.dumps(result['switches'][:2000]))
    for record in result['records']:
        ctx.event(json.dumps(record))
    ctx.check(not result['changed'], 'threads changed',
              ', '.join(result['changed']))
    return result


def question_of(step, rings):
    k = step['k']
    if k == 'exec':
        return {'k': 'exec', 'op': step['op'], 'f1': step['f1'],
                'f2': step['f2']}
    if k == 'add':
        return {'k': 'add', 'pts': rings[step['r']], 'kind': step['kind']}
    if k == 'addp':
        return {'k': 'addp', 'rs': step['rs'], 'kind': step['kind'],
                'pool': [[r, rings[r]] for r in sorted(set(step['rs']))]}
    return {'k': k}


def after(adds, step, rings):
    """Rings of the clipper after the successful step."""
    k = step['k']
    if k == 'add':
        return adds + ((rings[step['r']], step['kind']),)
    if k == 'addp':
        return adds + tuple((rings[r], step['kind']) for r in step['rs'])
    if k in ('clear', 'new'):
        return ()
    return adds


def execute_own(plan_, ctx):
    result = run_simulation(plan_, ctx)
    oracle = Oracle()
    rings = plan_['rings']
    states = {}
    for tid, number, _, _, outcome in sorted(result['records']):
        step = plan_['threads'][tid][number]
        if step['k'] == 'new':
            ctx.check(outcome[0] == 'ok', 'clipper has not been created')
            states[tid] = step['rev'], ()
            continue
        if tid not in states:
            continue
        reverse, adds = states[tid]
        name = 'step %d of thread %d (%s)' % (number, tid, step['k'])
        if step['k'] == 'clear':
            expected = ['ok', None]
        else:
            expected, _ = oracle.ask(
                plan_['impl'], reverse,
                adds if step['k'] not in ('add', 'addp') else (),
                question_of(step, rings))
        if expected[0] not in ('ok', 'error'):
            raise Inconclusive(short(expected))
        ctx.check(outcome == expected, name, 'gives', short(outcome),
                  'alone it gives', short(expected))
        if outcome[0] == 'ok':
            adds = after(adds, step, rings)
        states[tid] = reverse, adds
    ctx.stats['oracle processes'] += oracle.asked


# --- one clipper for all the threads ---

def plan_shared(rnd, prof):
    m, rings = geom.scene(rnd, *prof['rings'], prof['grids'])
    polygons = [[rnd.randrange(len(rings)) for _ in range(rnd.randint(1, 3))]
                for _ in range(rnd.randint(0, 2))]
    count = rnd.randint(2, 4)
    common = [{'k': 'new', 'c': 0, 'rev': rnd.random() < .35}]
    for _ in range(rnd.randint(0, 3)):
        common.append({'k': 'add', 'c': 0, 'kind': rnd.randrange(2),
                       'r': rnd.randrange(len(rings))})
    threads = []
    for _ in range(count):
        steps = script(rnd, rings, polygons, prof['steps'])[1:]
        rnd.shuffle(steps)
        threads.append(steps[:rnd.randint(2, 6)])
    if rnd.random() < .4:
        # one of the operations is of interest, everyone performs it
        k = rnd.choice(('bounds', 'clear', 'dump', 'scanbeams', 'add'))
        for steps in threads:
            for _ in range(rnd.randint(1, 2)):
                step = {'k': k, 'c': 0}
                if k == 'add':
                    step.update(r=rnd.randrange(len(rings)),
                                kind=rnd.randrange(2))
                steps.insert(rnd.randrange(len(steps) + 1), step)
    length = sum(map(len, threads))
    style = rnd.randrange(2)
    if style:
        order = schedule(rnd, count, 3000)
    else:
        order = [[rnd.randrange(count), 1] for _ in range(3 * length)]
    return {'impl': 'binding', 'rings': rings, 'polygons': polygons,
            'common': common, 'threads': threads, 'opcodes': False,
            'schedule': order}


def execute_shared(plan_, ctx):
    result = run_simulation(plan_, ctx)
    oracle = Oracle()
    rings = plan_['rings']
    reverse = plan_['common'][0]['rev']
    adds = ()
    for step in plan_['common'][1:]:
        adds = after(adds, step, rings)
    records = sorted(result['records'], key=lambda record: record[2])
    count = sum(map(len, plan_['threads']))
    ctx.check(len(records) == count, 'only', len(records), 'of', count,
              'operations have returned')
    overlaps = sum(1 for index, record in enumerate(records[1:])
                   if record[2] < max(other[3] for other
                                      in records[:index + 1]))
    ctx.stats['overlapping operations'] += overlaps

    def answer(state, step):
        if step['k'] == 'clear':
            return ['ok', None]
        return oracle.ask('binding', reverse,
                          state if step['k'] not in ('add', 'addp') else (),
                          question_of(step, rings))[0]

    best = [0, None]
    seen = set()

    def search(done, state):
        """Is there a sequential order explaining everything?"""
        if len(done) == len(records):
            return True
        key = frozenset(done), repr(state)
        if key in seen:
            return False
        seen.add(key)
        left = [index for index in range(len(records)) if index not in done]
        deadline = min(records[index][3] for index in left)
        for index in left:
            tid, number, begin, _, outcome = records[index]
            if begin > deadline:
                break
            step = plan_['threads'][tid][number]
            expected = answer(state, step)
            if expected[0] not in ('ok', 'error'):
                raise Inconclusive(short(expected))
            if outcome != expected:
                if len(done) >= best[0]:
                    best[:] = len(done), (tid, number, step, outcome,
                                          expected)
                continue
            if search(done | {index},
                      after(state, step, rings) if outcome[0] == 'ok'
                      else state):
                return True
        return False

    found = search(frozenset(), adds)
    ctx.stats['oracle processes'] += oracle.asked
    if not found:
        tid, number, step, outcome, expected = best[1]
        ctx.check(False, 'operations are not linearizable, the first not '
                         'explained is %d (%s) of thread %d: it gives'
                  % (number, step['k'], tid), short(outcome),
                  'sequentially it gives', short(expected))
    ctx.stats['checks'] += len(records)


def shrinks(plan_):
    threads = plan_['threads']
    for tid, steps in enumerate(threads):
        if len(steps) > 1:
            changed = list(threads)
            changed[tid] = steps[:1] if steps[0]['k'] == 'new' else []
            yield dict(plan_, threads=changed)
    items = plan_['schedule']
    size = len(items) // 2
    while size:
        for start in range(0, len(items), size):
            yield dict(plan_, schedule=items[:start] + items[start + size:])
        size //= 2
    for tid, steps in enumerate(threads):
        for at in range(len(steps)):
            if steps[at]['k'] == 'new':
                continue
            changed = list(threads)
            changed[tid] = steps[:at] + steps[at + 1:]
            yield dict(plan_, threads=changed)
    for r, points in enumerate(plan_['rings']):
        for at in range(len(points)):
            rings = list(plan_['rings'])
            rings[r] = points[:at] + points[at + 1:]
            yield dict(plan_, rings=rings)
