"""Inputs and results obtained before are never modified."""
from dst import history
from dst.history import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = history.profile(
    weights={'add': 5, 'addp': 5, 'exec': 8, 'bounds': 2, 'scanbeams': .5,
             'dump': .5, 'touch': .7, 'repr': .3, 'eq': .3, 'clear': 1, 'drop': .4,
             'new': .4, 'gc': .3, 'deepcopy': .4, 'feed': 1.5, 'mutate': 2, 'dropres': .4,
             'add_bad': .7},
    faulty={'add': .15, 'addp': .15, 'exec': .25, 'bounds': .3, 'clear': .2},
    kinds={'exc': 4, 'recursion': 1, 'gc': 1, 'alloc': 4, 'request': 1},
    calm=.4, steps=(6, 18), keep=.7, inputs=True, rings=(2, 5))
RULE = ('seeded histories, after every step rings, polygons and all the '
        'results obtained before are compared with their copies; results are '
        'changed by the user as well and this should have no effect')


def plan(rnd, index):
    return history.plan(rnd, IMPLS[index % 3 % 2], PROFILE)


def execute(plan_, ctx):
    history.execute(plan_, PROFILE, ctx)
