"""Objects of the binding outlive their owners."""
from dst import lifetimes
from dst.lifetimes import shrinks  # noqa

IMPLS = 'binding',
RUNS = {'quick': 8000, 'thorough': 320000}
REAL = ('whole binding (src/main.cpp, include/**) in a simulation build',)
STUBS = ('operator new/delete of the binding (freed memory is overwritten)',)
PROFILE = dict(rings=(1, 4), steps=(10, 40), grids=(5, 8, 12, 20, 50, 100))
RULE = ('seeded histories of obtaining objects from each other, dropping of '
        'any of them in any order and reusing of memory, the ones which are '
        'still held have to be the same')


def plan(rnd, index):
    return lifetimes.plan(rnd, PROFILE)


def execute(plan_, ctx):
    lifetimes.execute(plan_, ctx)
