"""A clipper of the binding shared between threads."""
from dst import threads
from dst.threads import shrinks  # noqa

IMPLS = 'binding',
RUNS = {'quick': 3000, 'thorough': 120000}
REAL = ('whole binding (src/main.cpp, include/**) in a simulation build',)
STUBS = ('scheduler of threads', 'operator new/delete of the binding')
PROFILE = dict(rings=(2, 6), steps=(2, 5),
               grids=(5, 8, 12, 20, 50, 100, 1000))
RULE = ('seeded schedules of 2-4 threads calling the same clipper, switched '
        'between calls and at every entry of a function executed without the '
        'interpreter lock, histories have to be linearizable with regard to '
        'a clipper used by a single thread')


def plan(rnd, index):
    return threads.plan_shared(rnd, PROFILE)


def execute(plan_, ctx):
    threads.execute_shared(plan_, ctx)
