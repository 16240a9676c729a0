"""Stages of operations are interchangeable."""
from dst import stages
from dst.stages import execute, plan, shrinks  # noqa

IMPLS = stages.NAMES
RUNS = {'quick': 2000, 'thorough': 60000}
REAL = ('ring managers and everything they use of the port (wagyu/*.py)',
        'ring managers and everything they use of the binding (src/main.cpp, '
        'include/**) in a simulation build')
STUBS = ('identities of objects (id) in the port',
         'operator new/delete of the binding',
         'the loop over scanbeams, performed by the simulator step by step')
RULE = ('seeded scenes taken through stages of an operation by ring managers '
        'of both implementations in lockstep, replicas crash and are '
        'aborted by failures inside of stages, restart and repeat their '
        'stages; rings, points, hot pixels and active bounds after each '
        'stage are compared')
