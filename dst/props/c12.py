"""Results can be merged by an unreliable cluster."""
from dst import cluster
from dst.cluster import shrinks  # noqa

IMPLS = 'port', 'binding'
RUNS = {'quick': 2000, 'thorough': 80000}
REAL = ('whole pure Python port (wagyu/*.py)',
        'whole binding (src/main.cpp, include/**) in a simulation build')
STUBS = ('network and durable storage of the cluster',
         'identities of objects (id) in the port',
         'operator new/delete of the binding',
         'delivery of signals, out of memory conditions and the limit of '
         'recursion')
PROFILE = {'exact': .6, 'exact grids': (5, 7, 10, 14),
           'grids': (200, 500, 2000), 'nodes': (2, 4), 'steps': (10, 35),
           'calm': .2, 'fault': .12,
           'kinds': {'exc': 4, 'recursion': 1, 'gc': 1, 'alloc': 4,
                     'request': 1, 'request-now': .5}}
ASSUMPTIONS = ('each execution moves boundaries by at most 1.5 units, not at '
               'all if edges are horizontal and vertical only',)
RULE = ('seeded clusters of 2-4 nodes (each run by the port or the binding) '
        'merge regions received from clients and from each other while '
        'messages are lost, duplicated, reordered and delayed, nodes crash, '
        'restart, abort merges; regions have to be the union of updates '
        'merged so far, after faults stop all nodes have to converge')
PROBES = {'crash of port node': 20, 'crash of binding node': 20,
          'loss of a message': 50, 'duplication of a message': 50}


def plan(rnd, index):
    return cluster.plan(rnd, PROFILE)


def execute(plan_, ctx):
    cluster.execute(plan_, PROFILE, ctx)
