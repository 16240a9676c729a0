"""Snapshots and restarts."""
from dst import checkpoints
from dst.checkpoints import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2500, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)', 'pickle and copy modules',
        'value types of the binding (src/main.cpp) in a simulation build')
STUBS = ('storage (log and snapshots)', 'process supervisor',
         'identities of objects (id) in the port')
PROFILE = dict(rings=(1, 5), steps=(5, 18), crash=.25,
               grids=(5, 8, 12, 20, 50, 100, 1000))
ASSUMPTIONS = ('clippers with up to about 100 local minimums',)
RULE = ('seeded histories of a server which logs additions, saves snapshots '
        'of its clipper, crashes at chosen lines, loses or tears writes and '
        'restarts in a new process; answers have to be the ones of a clipper '
        'which never crashed')


def plan(rnd, index):
    return checkpoints.plan(rnd, 'binding' if index % 5 == 4 else 'port',
                            PROFILE)


def execute(plan_, ctx):
    checkpoints.execute(plan_, ctx)
