"""One history of a clipper continued in many copies of its process: in each
of them the same call is performed with a fault at another place, what the
copy answers later has to be explained by the call having been performed or
not performed at all."""
import json

from . import geom, history, impls
from .core import Inconclusive, short
from .faults import measuring, positioned
from .history import EXCEPTIONS
from .machine import Machine
from .oracle import Oracle
from .proc import Ended, Proc, isolated
from .threads import after, question_of
from .tracing import rarity

FOLLOW = ('dump', 'scanbeams', 'bounds')


class Original:
    """The process which is copied."""

    def __init__(self, impl):
        self.machine = Machine(impl)

    def __call__(self, message):
        if 'copy' in message:
            try:
                return isolated(self.continued, message, cpu_limit=60.)
            except Ended as error:
                return [error.kind, error.detail]
        return self.machine(message)

    def continued(self, message):
        result = [self.machine(message['copy'])]
        for step in message['later']:
            result.append(self.machine({'step': step}))
        return result


def plan(rnd, impl, prof, index):
    rare = pair = None
    choice = rnd.random()
    if choice < prof.get('pairs', 0):
        # so there are faults inside of every call
        pairs = sorted(pair for pair, (part, numbers) in rarity().items()
                       if part < .5 and numbers)
        pair = pairs[index % len(pairs)]
        m, rings, *rare = geom.rare_scene(rnd, rnd.choice(rarity()[pair][1]))
    elif choice < .4:
        m, rings, *rare = geom.rare_scene(rnd)
    elif choice < .6 or 'pairs' in prof:
        m, rings = geom.hard_scene(rnd)
    else:
        m, rings = geom.scene(rnd, 2, 8)
    polygons = [[rnd.randrange(len(rings)) for _ in range(rnd.randint(1, 4))]
                for _ in range(2)]
    rev = rnd.random() < .35
    before = []
    limit = 160 if rare or impl == 'binding' else 60
    order = list(range(len(rings)))
    if not rare:
        rnd.shuffle(order)
    for r in order:
        limit -= len(rings[r])
        if limit < 0:
            break
        before.append({'k': 'add', 'c': 0, 'r': r,
                       'kind': rare[0][r] if rare else rnd.randrange(2)})
    for _ in range(0 if pair else rnd.choice((0, 0, 1, 2))):
        before.insert(rnd.randint(0, len(before)),
                      history.random_exec(rnd, 0))
    names = sorted(prof['faulty'])
    k = 'exec' if pair else rnd.choices(
        names, [prof['faulty'][name] for name in names])[0]
    step = {'k': k, 'c': 0}
    if k == 'exec':
        step = history.random_exec(rnd, 0)
        if rnd.random() < .6:
            step['op'] = rnd.choice(('unite', 'symmetric_subtract'))
        if rare:
            step.update(op=rare[1], f1=rare[2], f2=rare[3])
            if step['via'] == 'default':
                step['via'] = 'named'
    elif k == 'add':
        step.update(r=rnd.randrange(len(rings)), kind=rnd.randrange(2))
    elif k == 'addp':
        step.update(rs=rnd.choice(polygons), kind=rnd.randrange(2))
    faults = [history.fault(rnd, prof['kinds'], impl)]
    if pair:
        base = history.fault(rnd, {'exc': 1}, impl)
        faults = [dict(base, name=name, ppm=rnd.randrange(1000000),
                       rare='call', pair=pair) for name in EXCEPTIONS]
    for _ in range(rnd.randint(*prof['copies'][impl]) - len(faults)):
        # of one kind, so one rehearsal is enough
        faults.append(dict(faults[0], ppm=rnd.randrange(1000000),
                           rare=rnd.choice((False, True, 'call', 'call'))))
        if faults[0]['type'] == 'exc':
            faults[-1]['name'] = rnd.choice(EXCEPTIONS)
    faults[0]['rare'] = faults[0].get('rare') or True
    return {'sweep': impl, 'rings': rings, 'rev': rev, 'before': before,
            'step': step, 'faults': faults,
            'exec': history.random_exec(rnd, 0)}


def execute(plan_, ctx):
    name, rings, step = plan_['sweep'], plan_['rings'], plan_['step']
    impl = impls.get(name)
    oracle = Oracle()
    proc = Proc(lambda: Original(impl))

    def expected(adds, what):
        answer = ['ok', None] if what['k'] == 'clear' else oracle.ask(
            name, plan_['rev'],
            adds if what['k'] not in ('add', 'addp') else (),
            question_of(what, rings))[0]
        if answer[0] not in ('ok', 'error'):
            raise Inconclusive(short(answer))
        return answer

    try:
        for r, points in enumerate(rings):
            proc.ask({'step': {'k': 'ring', 'r': r, 'pts': points}})
        proc.ask({'step': {'k': 'new', 'c': 0, 'rev': plan_['rev']}})
        adds = ()
        for number, other in enumerate(plan_['before']):
            outcome, _ = proc.ask({'step': other})
            answer = expected(adds, other)
            ctx.check(outcome == answer, 'step', number, 'gives',
                      short(outcome), 'instead of', short(answer))
            if outcome[0] == 'ok':
                adds = after(adds, other, rings)
        answer = expected(adds, step)
        again = after(adds, step, rings) if answer[0] == 'ok' else adds
        later = [{'k': k, 'c': 0} for k in FOLLOW] + [
            step if step['k'] == 'exec' else plan_['exec']]
        worlds = [adds] + ([again] if again != adds else [])
        answers = [[expected(world, what) for what in later]
                   for world in worlds]
        info = proc.ask({'copy': dict(measuring(name, plan_['faults'][0]),
                                      step=step), 'later': []},
                        stall_limit=200.)
        if isinstance(info[0], str):
            raise Inconclusive(short(info))
        info = info[0][1]
        for number, found in enumerate(plan_['faults']):
            found = positioned(found, info)
            if found is None:
                ctx.stats['faults without a place'] += 1
                continue
            text = 'with %s in copy %d' % (found['type'], number)
            # this process waits while its copy works
            result = proc.ask({'copy': {'step': step, 'fault': found},
                               'later': later}, stall_limit=200.)
            ctx.check(not isinstance(result[0], str), step['k'], text,
                      'or a later call ended the process:', short(result))
            outcome, happened = result[0]
            fired = bool(happened.get('fired'))
            if happened.get('pending'):
                # is delivered to one of later calls
                ctx.stats['requests left'] += 1
                continue
            ctx.stats['steps'] += len(result)
            ctx.stats['simulated time (events)'] += happened.get('events',
                                                                 0) or 0
            if fired:
                ctx.fault('exc:' + found['name'] if found['type'] == 'exc'
                          else found['type'])
                ctx.state('sweep', step['k'], found['type'],
                          happened.get('site') if name == 'port' else
                          outcome[0])
            ctx.event(number, json.dumps(found), happened.get('site'),
                      json.dumps(result))
            if outcome[0] == 'aborted':
                ctx.check(fired, step['k'], text, 'failed with',
                          short(outcome), 'although nothing was injected')
                ctx.stats['aborted operations'] += 1
                possible = answers
            else:
                ctx.check(outcome == answer, step['k'], text, 'gives',
                          short(outcome), 'instead of', short(answer))
                possible = answers[-1:]
            found = [value for value, _ in result[1:]]
            ctx.check(found in possible, 'after', step['k'], text,
                      'the clipper gives', short(found), 'instead of',
                      short(possible))
    except Ended as error:
        ctx.check(False, 'process has ended:', error.kind,
                  short(error.detail))
    finally:
        proc.close()
    ctx.stats['oracle processes'] += oracle.asked


def shrinks(plan_):
    faults, before = plan_['faults'], plan_['before']
    size = len(faults) // 2
    while size:
        for start in range(0, len(faults), size):
            rest = faults[:start] + faults[start + size:]
            if rest:
                yield dict(plan_, faults=rest)
        size //= 2
    for at in range(len(before)):
        yield dict(plan_, before=before[:at] + before[at + 1:])
    for r, points in enumerate(plan_['rings']):
        for at in range(len(points)):
            rings = list(plan_['rings'])
            rings[r] = points[:at] + points[at + 1:]
            yield dict(plan_, rings=rings)
