"""Answers do not depend on the environment."""
from dst import environments
from dst.environments import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding', 'seed of hashes')
PROFILE = dict(rings=(2, 9), variants=4, fresh=.1,
               grids=(3, 5, 8, 12, 20, 50, 100, 1000, 100000))
RULE = ('seeded scripts are performed in processes with different identities '
        'and addresses of objects, contents of uninitialised memory, moments '
        'of garbage collection, contexts of decimal arithmetics, depths of '
        'stack, threads, clocks, states of generators of random numbers, '
        'locales, variables, warnings, seeds of hashes; all the answers have to be the same')


def plan(rnd, index):
    return environments.plan(rnd, IMPLS[index % 3 % 2], PROFILE)


def execute(plan_, ctx):
    environments.execute(plan_, ctx)
