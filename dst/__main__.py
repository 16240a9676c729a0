import json
import os
import subprocess
import sys

from . import build, props, runner
from .proc import HarnessError


def selftest(identifiers, runs):
    """Same seeds give same events: in another process, with another number of
    workers, with another seed of hashes."""
    failed = False
    for prop in identifiers:
        outputs = []
        for workers, hash_seed in ((8, '0'), (3, '0'), (5, '12345')):
            env = dict(os.environ, PYTHONHASHSEED=hash_seed)
            outputs.append(subprocess.run(
                [sys.executable, '-B', '-m', 'dst', 'digests', prop,
                 str(runs), str(workers)], stdout=subprocess.PIPE,
                env=env, check=True).stdout)
        same = len(set(outputs)) == 1
        failed |= not same
        print(prop, 'is deterministic' if same else 'IS NOT DETERMINISTIC',
              runs, 'runs', flush=True)
        if not same:
            lists = [json.loads(output) for output in outputs]
            print([index for index in range(runs)
                   if len({values[index] for values in lists}) > 1])
    return 2 if failed else 0


def main(args):
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if args[0] == 'setup':
        print(build.ensure())
        return 0
    if args[0] == 'replay':
        return runner.replay(args[1])
    if args[0] == 'digests':
        print(json.dumps(runner.digests(args[1], seed, int(args[2]),
                                        int(args[3]))))
        return 0
    if args[0] == 'selftest':
        return selftest(args[2:] or props.identifiers(),
                        int(args[1]) if len(args) > 1 else 24)
    tier = (args[1] if len(args) > 1
            else os.environ.get('VERIF_TIER') or 'quick')
    return runner.check(args[0], tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except (HarnessError, build.BuildError) as error:
        print('HARNESS ERROR:', error, file=sys.stderr)
        code = 2
    sys.stdout.flush()
    os._exit(code)
