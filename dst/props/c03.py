"""Additions are all-or-nothing, acknowledged ones are never lost."""
from dst import history, sweeps

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = history.profile(
    weights={'add': 6, 'addp': 6, 'exec': 4, 'bounds': .7, 'scanbeams': 1,
             'dump': .5, 'touch': .2, 'repr': .1, 'eq': .1, 'clear': .8, 'drop': .1,
             'new': .1, 'gc': .1, 'deepcopy': .3, 'add_bad': 2.5,
             'feed': 1, 'mutate': 0},
    faulty={'add': .4, 'addp': .5, 'feed': .4, 'clear': .3, 'add_bad': .15},
    kinds={'exc': 5, 'recursion': 1.5, 'alloc': 5}, calm=.25, steps=(6, 16),
    region=True, clippers=(1, 2))
RULE = ('seeded histories in which additions are rejected or fail at chosen '
        'instructions or allocations, results have to agree with the rings '
        'acknowledged so far: with a clipper given them in a fresh process '
        'and with winding numbers of sampled points')


SWEEP = dict(faulty={'add': 4, 'addp': 6, 'exec': 1, 'clear': .5},
             kinds={'exc': 1, 'alloc': 1}, copies={'port': (4, 12), 'binding': (5, 40)})


def plan(rnd, index):
    if rnd.random() < .2:
        return sweeps.plan(rnd, IMPLS[index % 2], SWEEP,
                           index // 2)
    return history.plan(rnd, IMPLS[index % 2], PROFILE)


def execute(plan_, ctx):
    if 'sweep' in plan_:
        sweeps.execute(plan_, ctx)
    else:
        history.execute(plan_, PROFILE, ctx)


def shrinks(plan_):
    return (sweeps if 'sweep' in plan_ else history).shrinks(plan_)
