"""What a never used clipper answers in a never used process."""
from . import impls
from .machine import Machine
from .proc import Ended, isolated


def _answer(name, reverse, adds, step, measure, env, record=False):
    machine = Machine(impls.get(name), env)
    machine({'step': {'k': 'new', 'c': 0, 'rev': reverse}})
    for points, kind in adds:
        outcome, _ = machine({'step': {'k': 'add', 'c': 0, 'pts': points,
                                       'kind': kind}})
        if outcome[0] != 'ok':
            return ['unbuildable'] + outcome, {}
    for r, points in step.get('pool', ()):
        machine({'step': {'k': 'ring', 'r': r, 'pts': points}})
    return machine({'step': dict(step, c=0), 'measure': measure,
                    'record': record})


class Oracle:
    """Every question is answered by a process of its own, forked from the
    current one, which has never performed an operation of the library."""

    def __init__(self):
        self.memo = {}
        self.asked = 0

    def ask(self, name, reverse, adds, step, measure=None, env=None,
            record=False):
        key = repr((name, reverse, adds, sorted(step.items()), measure, env,
                    record))
        if key not in self.memo:
            self.asked += 1
            try:
                self.memo[key] = isolated(_answer, name, reverse, adds, step,
                                          measure, env, record)
            except Ended as error:
                self.memo[key] = [error.kind, error.detail], {}
        return self.memo[key]
