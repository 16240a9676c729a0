"""Simulated object identities of the port."""
import random
import sys

MASK = (1 << 40) - 1


class Identities:
    """Replaces ``id`` in the modules of the port, so numbers are decided by
    the simulator and do not depend on addresses.

    ``order`` is one of
      * ``rising`` (objects met later have greater numbers),
      * ``falling``,
      * ``random``;
    numbers of objects which are not alive any more are given to the new ones
    if ``reuse`` is set.
    """

    def __init__(self, seed=0, order='rising', reuse=False):
        self.random = random.Random(seed)
        self.order = order
        self.reuse = reuse
        self.known = {}
        self.free = []
        self.last = 0
        self.calls = self.reused = 0

    def __call__(self, value):
        self.calls += 1
        key = id(value)
        entry = self.known.get(key)
        if entry is not None:
            return entry[0]
        if self.reuse:
            # held by "known", the variable and the argument only
            for other, (number, object_) in list(self.known.items()):
                if sys.getrefcount(object_) <= 3:
                    del self.known[other]
                    self.free.append(number)
                object_ = None
        if self.free:
            self.reused += 1
            number = self.free.pop()
        else:
            self.last += 1
            number = (self.last if self.order == 'rising'
                      else MASK - self.last if self.order == 'falling'
                      else self.random.getrandbits(36) << 20 | self.last)
            number = number << 4 | 1 << 62
        self.known[key] = number, value
        return number

    def forget(self):
        self.known.clear()
        del self.free[:]

    def install(self):
        for name, module in list(sys.modules.items()):
            if name == 'wagyu' or name.startswith('wagyu.'):
                module.id = self
