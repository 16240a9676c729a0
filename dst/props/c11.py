"""Replicas of different implementations agree."""
from dst import replicas
from dst.replicas import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2000, 'thorough': 100000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding',
         'durable log of replicas (kept by the simulator)',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = dict(rings=(2, 14), steps=(6, 20), calm=.4, fault=.15, region=True,
               hard=.4,
               grids=(3, 5, 8, 12, 20, 50, 100, 400, 1000, 30000, 1000000),
               kinds={'exc': 4, 'recursion': 1, 'gc': 1, 'alloc': 4,
                      'request': 1})
ASSUMPTIONS = ('coordinates are integers of magnitude up to 4 * 10 ** 6',)
RULE = ('two replicas of a clipper (one by the port, another by the binding) '
        'apply the same log while faults abort operations of one of them '
        'and make it restart from its log; everything they answer has to be '
        'the same and to agree with winding numbers of sampled points')


def plan(rnd, index):
    return replicas.plan(rnd, PROFILE, index)


def execute(plan_, ctx):
    replicas.execute(plan_, PROFILE, ctx)
