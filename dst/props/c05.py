"""Clippers of different threads do not influence each other."""
from dst import threads
from dst.threads import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 800, 'thorough': 32000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('scheduler of threads', 'identities of objects (id) in the port',
         'operator new/delete of the binding')
PROFILE = dict(rings=(2, 4), steps=(2, 5), grids=(5, 8, 12, 20, 50, 100, 1000))
RULE = ('seeded schedules of 2-4 threads sharing rings and polygons but not '
        'clippers, switched inside of operations, every answer is compared '
        'with the one given without any other threads')
PROBES = {'switch of threads inside of an operation': 500}


def plan(rnd, index):
    return threads.plan_own(rnd, 'binding' if index % 4 == 3 else 'port',
                            PROFILE)


def execute(plan_, ctx):
    threads.execute_own(plan_, ctx)
