"""The same script in different environments of the process."""
import json
import os
import subprocess
import sys
import threading

from . import build, geom, history, impls
from .core import Inconclusive, short
from .machine import DECIMALS, Machine
from .proc import Ended, Proc


def script(rnd, prof):
    if rnd.random() < .15:
        rings = (geom.hard_scene(rnd)[1] if rnd.random() < .5
                 else geom.rare_scene(rnd)[1])
    else:
        rings = geom.scene(rnd, *prof['rings'], prof['grids'])[1]
    steps = [{'k': 'ring', 'r': r, 'pts': points}
             for r, points in enumerate(rings)]
    steps.append({'k': 'new', 'c': 0, 'rev': rnd.random() < .35})
    for r in range(len(rings)):
        steps.append({'k': 'add', 'c': 0, 'r': r, 'kind': rnd.randrange(2)})
    for _ in range(rnd.randint(2, 5)):
        k = rnd.choices(('exec', 'bounds', 'scanbeams', 'dump', 'add'),
                        (9, 1, 1, 1, 2))[0]
        step = {'k': k, 'c': 0}
        if k == 'exec':
            step = history.random_exec(rnd, 0)
        elif k == 'add':
            step.update(r=rnd.randrange(len(rings)), kind=rnd.randrange(2))
        steps.append(step)
    return steps


def environment(rnd, impl):
    """Everything the caller can have done to the process."""
    result = {}
    if rnd.random() < .4:
        result['gc'] = rnd.choice((1, 2, 7, 50))
    if rnd.random() < .3:
        result['frames'] = rnd.choice((1, 30, 300, 700))
    if rnd.random() < .3:
        result['clock'] = [rnd.choice((0, 1e9, 4e9, -1e9)),
                           rnd.choice((0, 1e-9, .5, 3600., -1e-3)),
                           rnd.choice((0, 0, 5, 1e6))]
    if rnd.random() < .3:
        result['random'] = rnd.randrange(1 << 30)
    if rnd.random() < .5:
        result['litter'] = rnd.randrange(1 << 30)
    if rnd.random() < .15:
        result['variables'] = {
            name: rnd.choice(('', '0', '1', 'C', '/nonexistent'))
            for name in rnd.sample(('HOME', 'TMPDIR', 'LANG', 'TZ', 'DEBUG',
                                    'PYTHONOPTIMIZE', 'USER', 'CI',
                                    'OMP_NUM_THREADS', 'WAGYU_DEBUG'), 3)}
    if rnd.random() < .2:
        result['thread'] = True
    if rnd.random() < .15:
        result['switch'] = rnd.choice((1e-6, 10.))
    if rnd.random() < .15:
        result['warnings'] = 'error'
    if rnd.random() < .15:
        result['recursion'] = rnd.choice((5000, 20000))
    if rnd.random() < .1:
        result['locale'] = rnd.choice(('C', 'POSIX', 'C.UTF-8', 'de_DE'))
    if impl == 'port':
        if rnd.random() < .8:
            result['ids'] = {'seed': rnd.randrange(1 << 30),
                             'order': rnd.choice(('rising', 'falling',
                                                  'random', 'random')),
                             'reuse': rnd.random() < .5}
        if rnd.random() < .4:
            result['decimal'] = rnd.choice(sorted(DECIMALS))
    else:
        result['heap'] = [rnd.randrange(1 << 30), rnd.randrange(2),
                          rnd.randrange(2)]
        if rnd.random() < .3:
            result['decimal'] = rnd.choice(sorted(DECIMALS))
    return result


def plan(rnd, impl, prof):
    result = {'impl': impl, 'steps': script(rnd, prof),
              'envs': [environment(rnd, impl)
                       for _ in range(prof['variants'])]}
    if rnd.random() < prof['fresh']:
        result['envs'][-1]['interpreter'] = {
            'hash': rnd.randrange(1, 1 << 31),
            'optimize': rnd.randrange(3)}
    return result


def perform(impl, env, steps):
    result = []

    def work():
        machine = Machine(impl, env)
        result.extend(machine({'step': step})[0] for step in steps)
    if env.get('thread'):
        # not the main one: other stack, other thread-local storages
        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
    else:
        work()
    return result


def _in_fresh_interpreter(impl, env, steps):
    options = env['interpreter']
    variables = dict(os.environ, PYTHONHASHSEED=str(options['hash']))
    command = [sys.executable, '-B'] + ['-O'] * options['optimize'] + [
        '-m', 'dst.environments']
    process = subprocess.run(command, cwd=build.ROOT, env=variables,
                             input=json.dumps([impl, env, steps]).encode(),
                             stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
    if process.returncode < 0:
        raise Ended('crash', 'signal %d' % -process.returncode)
    if process.returncode:
        raise Ended('crash', 'exit %d' % process.returncode)
    return json.loads(process.stdout)


def outcomes(name, env, steps):
    if env.get('interpreter'):
        return _in_fresh_interpreter(name, env, steps)
    impl = impls.get(name)

    def handler(message):
        return perform(impl, env, message)
    proc = Proc(lambda: handler)
    try:
        return proc.ask(steps)
    finally:
        proc.close()


def execute(plan_, ctx):
    name, steps = plan_['impl'], plan_['steps']
    try:
        expected = outcomes(name, {}, steps)
    except Ended as error:
        raise Inconclusive('the plain environment: %s' % error)
    ctx.event(json.dumps(steps))
    ctx.event(json.dumps(expected))
    for env in plan_['envs']:
        try:
            found = outcomes(name, env, steps)
        except Ended as error:
            ctx.event(json.dumps(env), error)
            ctx.check(False, 'environment', short(env),
                      'ended the process:', error.kind, error.detail)
        ctx.event(json.dumps(env), json.dumps(found))
        ctx.stats['steps'] += len(steps)
        for key, value in env.items():
            ctx.fault('environment: ' + key)
            if key not in ('heap', 'random', 'litter', 'variables'):
                ctx.state(key, {'ids': lambda: '%s %s' % (value['order'],
                                                          value['reuse']),
                                'interpreter': lambda: value['optimize']}
                          .get(key, lambda: value)(), name,
                          len(steps))
        for index, step in enumerate(steps):
            ctx.check(found[index] == expected[index],
                      'step %d (%s)' % (index, step['k']), 'gives',
                      short(found[index]), 'in environment', short(env),
                      'and', short(expected[index]), 'in the plain one')


def shrinks(plan_):
    envs = plan_['envs']
    if len(envs) > 1:
        for env in envs:
            yield dict(plan_, envs=[env])
    for index, env in enumerate(envs):
        for key in env:
            yield dict(plan_, envs=envs[:index] + [
                {name: value for name, value in env.items()
                 if name != key}] + envs[index + 1:])
    steps = plan_['steps']
    needed = {step.get('r') for step in steps if step['k'] == 'add'}
    for index, step in enumerate(steps):
        if step['k'] == 'new' or step['k'] == 'ring' and step['r'] in needed:
            continue
        yield dict(plan_, steps=steps[:index] + steps[index + 1:])
    for index, step in enumerate(steps):
        for at in range(len(step.get('pts', ()))):
            points = step['pts'][:at] + step['pts'][at + 1:]
            yield dict(plan_, steps=steps[:index] + [dict(step, pts=points)]
                       + steps[index + 1:])


def _main():
    name, env, steps = json.load(sys.stdin)
    impl, = impls.load([name])
    json.dump(perform(impl, env, steps), sys.stdout)


if __name__ == '__main__':
    _main()
