"""Simulated time of the port: trace events of its own code, they are the
points at which asynchronous exceptions, collections of garbage and switches
of threads are injected."""
import gc
import json
import math
import os
import sys

from .build import REPO

PREFIX = os.path.join(REPO, 'wagyu') + os.sep


class Alarm(Exception):
    """Raised by a signal handler of the user."""


class Budget(BaseException):
    """No progress."""


EXCEPTIONS = {'KeyboardInterrupt': KeyboardInterrupt,
              'MemoryError': MemoryError,
              'RecursionError': RecursionError,
              'Alarm': Alarm}


class Tracer:
    """Counts events and acts at chosen ones.

    ``opcodes`` selects instruction granularity instead of line one,
    ``actions`` maps numbers of events to callables which may raise.
    """

    def __init__(self, actions=None, *, opcodes=True, budget=None,
                 recording=False):
        self.actions = actions or {}
        self.opcodes = opcodes
        self.budget = budget
        self.count = 0
        self.fired = []
        self.recording = recording
        # code -> place in it -> how many times it has been passed, number of
        # one of passages (hashes of codes are expensive, so identities of
        # them are used)
        self.passed = {}
        # (caller, place in it, callee) -> the same and names of both
        self.calls = {}

    def places(self):
        return sorted(number for places in self.passed.values()
                      for _, number in places.values())

    def call_places(self):
        """Ones inside of calls, with weights (calls which are made during
        few executions are the most interesting ones) and functions which
        call and are called."""
        result = []
        for _, number, pair in self.calls.values():
            if number:
                result.append((number, round(
                    1 / (rarity().get(pair, [0])[0] + .02), 1), pair))
        return sorted(result)

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._recorder(frame) if self.recording else self._local

    def _recorder(self, frame):
        code, caller = frame.f_code, frame.f_back
        passed = self.passed.setdefault(id(code), {})
        if (caller is not None
                and caller.f_code.co_filename.startswith(PREFIX)):
            call = self.calls.setdefault(
                (id(caller.f_code), caller.f_lasti, id(code)),
                [0, 0, pair_of(caller.f_code, code)])
        else:
            call = [0, 0, None]
        budget = math.inf if self.budget is None else self.budget

        def local(frame, event, arg):
            if event == 'opcode' or event == 'line':
                self.count = count = self.count + 1
                # one of passages with equal chances
                mixed = (count * 2654435761 & 0xffffffff) >> 8
                call[0] += 1
                if not mixed % call[0]:
                    call[1] = count
                place = frame.f_lasti
                if place in passed:
                    found = passed[place]
                    found[0] += 1
                    if not mixed % found[0]:
                        found[1] = count
                else:
                    passed[place] = [1, count]
                if count > budget:
                    raise Budget()
            return local
        return local

    def _local(self, frame, event, arg):
        if event == 'opcode' or event == 'line':
            self.count += 1
            count = self.count
            if count in self.actions:
                self.fired.append('%s:%d' % (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_lineno))
                self.actions[count]()
            if self.budget is not None and count > self.budget:
                raise Budget()
        return self._local

    def __enter__(self):
        if self.opcodes:
            prime()
        sys.settrace(self._global)
        return self

    def __exit__(self, *_):
        sys.settrace(None)


def pair_of(caller, callee):
    return caller.co_name + '>' + callee.co_name


def rarity():
    """How often executions make calls and in which scenes of the corpus."""
    if not _rarity:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                               'rarity.json')) as file:
            _rarity.update(json.load(file))
    return _rarity


_rarity = {}


def raiser(name):
    def act():
        raise EXCEPTIONS[name]('injected')
    return act


def collector():
    gc.collect()


_primed = []


def prime():
    """The interpreter (CPython 3.12) starts to report instructions only if tracing is set
    after the first frame has asked for them."""
    if _primed:
        return
    _primed.append(True)

    def traced(frame, event, arg):
        frame.f_trace_opcodes = True
        return traced

    def function():
        return None
    sys.settrace(traced)
    function()
    sys.settrace(None)
