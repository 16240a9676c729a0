"""The list of local minimums is a mutable sequence."""
from dst import sequences
from dst.sequences import shrinks  # noqa

IMPLS = 'port',
RUNS = {'quick': 4000, 'thorough': 160000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'mixin of the standard library (collections.abc.MutableSequence)')
STUBS = ('identities of objects (id) in the port',
         'delivery of signals and out of memory conditions')
PROFILE = dict(rings=(1, 5), steps=(6, 30), fault=.25,
               grids=(5, 8, 12, 20, 50, 100, 1000))
RULE = ('seeded histories of calls of the interface of mutable sequences, '
        'exceptions are raised inside of them; contents and answers have to '
        'be the ones of the built-in list, failed calls should do nothing or '
        'everything')


def plan(rnd, index):
    return sequences.plan(rnd, PROFILE)


def execute(plan_, ctx):
    sequences.execute(plan_, ctx)
