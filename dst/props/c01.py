"""History independence."""
from dst import history
from dst.history import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding')
PROFILE = history.profile(
    weights={'add': 6, 'addp': 3, 'exec': 9, 'bounds': 2, 'scanbeams': 1.5,
             'dump': .5, 'touch': .7, 'repr': .4, 'eq': .4, 'clear': 1, 'drop': .3,
             'new': .4, 'gc': .4, 'deepcopy': .6, 'feed': 1, 'mutate': .3,
             'dropres': .3, 'add_bad': 1},
    faulty={'add': .1, 'addp': .1, 'exec': .12, 'bounds': .1, 'clear': .1,
            'add_bad': .1},
    kinds={'gc': 1}, calm=.5, steps=(5, 18), marathon=.06)
RULE = ('seeded histories of calls on up to 3 clippers of one process, '
        'rejected calls, copies and garbage collections included, every '
        'answer is compared with the one of a clipper never used before in a '
        'process never used before')


def plan(rnd, index):
    return history.plan(rnd, IMPLS[index % 3 % 2], PROFILE)


def execute(plan_, ctx):
    history.execute(plan_, PROFILE, ctx)
