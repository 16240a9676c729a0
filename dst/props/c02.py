"""Asynchronous exceptions in operations of the port."""
from dst import history, sweeps

IMPLS = 'port',
RUNS = {'quick': 1100, 'thorough': 60000}
REAL = ('whole pure Python port (wagyu/*.py)',)
STUBS = ('identities of objects (id) in the port',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = history.profile(
    weights={'add': 6, 'addp': 2, 'exec': 9, 'bounds': 2, 'scanbeams': 1,
             'dump': .5, 'touch': .4, 'repr': .7, 'eq': .7, 'clear': .6, 'drop': .1,
             'new': .1, 'gc': .5, 'deepcopy': .5, 'add_bad': 0, 'feed': 0.6, 'mutate': 0},
    faulty={'exec': .5, 'bounds': .6, 'scanbeams': .5, 'repr': .6, 'eq': .6,
            'touch': .3},
    kinds={'exc': 6, 'recursion': 2, 'gc': .5}, calm=.15, steps=(6, 14),
    grids=(5, 8, 12, 20, 50, 100), rings=(2, 5), progress=True)
RULE = ('seeded histories in which exceptions are raised at chosen '
        'instructions of executing operations, every later answer is '
        'compared with the one of a clipper never used before')


SWEEP = dict(faulty={'exec': 8, 'bounds': 1}, kinds={'exc': 1}, pairs=.7,
             copies={'port': (6, 16)})


def plan(rnd, index):
    if index % 4 == 0:
        return sweeps.plan(rnd, 'port', SWEEP, index // 4)
    return history.plan(rnd, 'port', PROFILE)


def execute(plan_, ctx):
    if 'sweep' in plan_:
        sweeps.execute(plan_, ctx)
    else:
        history.execute(plan_, PROFILE, ctx)


def shrinks(plan_):
    return (sweeps if 'sweep' in plan_ else history).shrinks(plan_)
