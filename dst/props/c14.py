"""Nothing is left by operations, completed or aborted."""
from dst import history, leaks
from dst.leaks import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = history.profile(
    weights={'add': 6, 'addp': 4, 'exec': 8, 'bounds': 1.5, 'scanbeams': 1,
             'touch': .7, 'repr': .5, 'eq': .5, 'clear': 1, 'drop': .3,
             'new': .4, 'gc': .2, 'deepcopy': .4, 'add_bad': .7,
             'mutate': 0, 'dropres': .3},
    faulty={'add': .2, 'addp': .2, 'exec': .4, 'bounds': .3, 'clear': .2,
            'repr': .2, 'eq': .2, 'scanbeams': .2, 'add_bad': .1},
    kinds={'exc': 4, 'recursion': 1, 'gc': 1, 'alloc': 5, 'request': 3},
    calm=.3, steps=(5, 14), rings=(2, 6), clippers=(1, 2))
RULE = ('seeded histories repeated 3-12 times in one process with the same '
        'faults, blocks of memory and objects which are left after every '
        'repetition are counted and should not become more')


def plan(rnd, index):
    return leaks.plan(rnd, IMPLS[index % 2], PROFILE)


def execute(plan_, ctx):
    leaks.execute(plan_, ctx)
