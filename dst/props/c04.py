"""Failing allocations and requests of interruption in the binding."""
from dst import history, lifetimes, sweeps

IMPLS = 'binding',
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole binding (src/main.cpp, include/**) in a simulation build',)
STUBS = ('operator new/delete of the binding',
         'source of interruption requests')
PROFILE = history.profile(
    weights={'add': 6, 'addp': 2, 'exec': 9, 'bounds': 1, 'scanbeams': 1,
             'dump': .5, 'touch': 1.5, 'repr': 1, 'eq': 1, 'clear': .6, 'drop': .3,
             'new': .3, 'gc': .3, 'add_bad': .2, 'feed': 0.7, 'mutate': 0},
    faulty={'exec': .6, 'add': .15, 'addp': .15, 'feed': .15, 'repr': .3, 'eq': .3,
            'touch': .3, 'bounds': .2, 'clear': .2, 'scanbeams': .3,
            'add_bad': .2},
    kinds={'alloc': 6, 'request': 4, 'request-now': 1}, calm=.12,
    steps=(6, 18), rings=(2, 8), progress=True)
RULE = ('seeded histories in which allocations fail at chosen places and '
        'requests of interruption arrive at chosen entries of functions, '
        'the process has to survive and later answers have to be the ones of '
        'a clipper never used before')


OBJECTS = dict(rings=(1, 4), steps=(8, 25), grids=(5, 8, 12, 20), fault=.3,
               make=6)
SWEEP = dict(faulty={'exec': 8, 'add': 1.5, 'addp': 1.5, 'bounds': .5,
                     'clear': .3, 'scanbeams': .5},
             kinds={'alloc': 3, 'request': 1}, copies={'binding': (10, 60)})


def plan(rnd, index):
    if rnd.random() < .2:
        return lifetimes.plan(rnd, OBJECTS)
    if rnd.random() < .3:
        return sweeps.plan(rnd, 'binding', SWEEP,
                           index // 2)
    return history.plan(rnd, 'binding', PROFILE)


def engine(plan_):
    return (lifetimes if 'heap' in plan_ else
            sweeps if 'sweep' in plan_ else history)


def execute(plan_, ctx):
    if engine(plan_) is history:
        history.execute(plan_, PROFILE, ctx)
    else:
        engine(plan_).execute(plan_, ctx)


def shrinks(plan_):
    return engine(plan_).shrinks(plan_)
