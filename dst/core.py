"""What every simulated run shares."""
import collections
import hashlib
import json


class Violation(Exception):
    """The property does not hold, the text is the same in every replay."""


class Inconclusive(Exception):
    """Nothing can be said about the rest of the run."""


class Context:
    """Collects everything observable about one run."""

    def __init__(self):
        self.lines = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()

    def event(self, *parts):
        self.lines.append(' '.join(map(str, parts)))

    def state(self, *parts):
        self.states.add('|'.join(map(str, parts)))

    def fault(self, kind, count=1):
        self.faults[kind] += count

    def check(self, condition, *parts):
        self.stats['checks'] += 1
        if not condition:
            text = ' '.join(map(str, parts))
            self.event('VIOLATION', text)
            raise Violation(text)

    def digest(self):
        return hashlib.sha256('\n'.join(self.lines).encode()).hexdigest()


def short(value, limit=300):
    text = json.dumps(value, default=repr)
    return text if len(text) <= limit else text[:limit] + '...'


def seed_of(prop, seed, index):
    data = '%s/%s/%s' % (prop, seed, index)
    return int.from_bytes(hashlib.sha256(data.encode()).digest()[:8], 'big')
