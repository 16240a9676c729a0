"""
Mutation testing of the checks with small changes of the port:

    python3 tools/mutate.py list
    python3 tools/mutate.py run OUT.jsonl CHECK[:RUNS],... [FILE[:FROM-TO]...]
    python3 tools/mutate.py again IN.jsonl OUT.jsonl CHECK[:RUNS],...

Works in scratch copies of /repo under /tmp/m, several at a time; survivors
are the interesting part of what it writes.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SCRATCH = os.environ.get('MUTATE_SCRATCH') or '/tmp/m'
FILES = ('bound.py', 'box.py', 'bubble_sort.py', 'edge.py', 'enums.py',
         'intersect_node.py', 'linear_ring.py', 'local_minimum.py', 'point.py',
         'point_node.py', 'polygon.py', 'ring.py', 'ring_manager.py',
         'utils.py', 'wagyu.py')
FLIPS = {ast.Lt: ('<=', '>'), ast.LtE: ('<', '>='), ast.Gt: ('>=', '<'),
         ast.GtE: ('>', '<='), ast.Eq: ('!=',), ast.NotEq: ('==',),
         ast.Is: ('is not',), ast.IsNot: ('is',), ast.In: ('not in',),
         ast.NotIn: ('in',)}
ARITHMETIC = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*'}


def mutants(name):
    path = os.path.join(REPO, 'wagyu', name)
    with open(path) as file:
        text = file.read()
    starts = [0]
    for line in text.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def source(node):
        a, b = span(node)
        return text[a:b]

    def emit(node, new, what):
        a, b = span(node)
        return {'file': name, 'line': node.lineno, 'from': a, 'to': b,
                'old': text[a:b], 'new': new, 'what': what}

    for node in ast.walk(ast.parse(text)):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for flip in FLIPS.get(type(node.ops[0]), ()):
                yield emit(node, '(%s %s %s)' % (
                    source(node.left), flip, source(node.comparators[0])),
                    'compare')
        elif isinstance(node, ast.BoolOp):
            other = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield emit(node, '(%s)' % other.join(
                '(%s)' % source(value) for value in node.values), 'boolean')
            for index in range(len(node.values)):
                rest = node.values[:index] + node.values[index + 1:]
                own = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield emit(node, '(%s)' % own.join(
                    '(%s)' % source(value) for value in rest), 'term')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield emit(node, '(%s)' % source(node.operand), 'not')
        elif isinstance(node, (ast.If, ast.IfExp)):
            yield emit(node.test, 'True', 'condition')
            yield emit(node.test, 'False', 'condition')
        elif isinstance(node, ast.While):
            yield emit(node.test, 'False', 'condition')
        elif isinstance(node, ast.BinOp):
            if type(node.op) in ARITHMETIC:
                yield emit(node, '(%s %s %s)' % (
                    source(node.left), ARITHMETIC[type(node.op)],
                    source(node.right)), 'arithmetic')
        elif (isinstance(node, ast.Constant)
              and type(node.value) in (int, float, bool)):
            yield emit(node, repr(not node.value)
                       if isinstance(node.value, bool)
                       else repr(node.value + 1), 'constant')
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            yield emit(node, 'pass', 'statement')
        elif isinstance(node, (ast.Assign, ast.AugAssign)):
            yield emit(node, 'pass', 'statement')
        elif isinstance(node, ast.Break):
            yield emit(node, 'continue', 'jump')
        elif isinstance(node, ast.Continue):
            yield emit(node, 'pass', 'jump')
        elif isinstance(node, ast.Return) and node.value is not None:
            if isinstance(node.value, (ast.Compare, ast.BoolOp)):
                yield emit(node.value, 'True', 'return')
                yield emit(node.value, 'False', 'return')


def everything(filters):
    for name in FILES:
        for mutant in mutants(name):
            if not filters:
                yield mutant
            for text in filters:
                wanted, _, lines = text.partition(':')
                first, _, last = lines.partition('-')
                if wanted == name and (not lines or int(first)
                                       <= mutant['line']
                                       <= int(last or first)):
                    yield mutant


def attempt(mutant, checks, slot, workers, home='wagyu/'):
    copy = os.path.join(SCRATCH, 'copy%d' % slot)
    path = os.path.join(copy, home, mutant['file'])
    with open(os.path.join(REPO, home, mutant['file'])) as file:
        text = file.read()
    changed = text[:mutant['from']] + mutant['new'] + text[mutant['to']:]
    if mutant['file'].endswith('.py'):
        try:
            ast.parse(changed)
        except SyntaxError:
            return dict(mutant, results={}, killed='syntax')
    with open(path, 'w') as file:
        file.write(changed)
    results = {}
    killed = None
    for check in checks:
        name, _, runs = check.partition(':')
        env = {**os.environ, 'VERIF_REPO': copy, 'VERIF_RUNS': runs or '300',
               'VERIF_WORKERS': str(workers), 'VERIF_MINIMISATION': '0.01',
               'VERIF_DEADLINE': '700', 'PYTHONDONTWRITEBYTECODE': '1'}
        try:
            process = subprocess.run(
                [os.path.join(SCRATCH, 'verif', 'check'), name, 'quick'],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True, timeout=800)
            rc, out = process.returncode, process.stdout
        except subprocess.TimeoutExpired:
            rc, out = 124, 'timeout'
        results[name] = [rc, out[-300:] if rc == 1 else out[-1500:]
                         if rc else '']
        if rc == 1:
            killed = name
            break
        if rc == 2 and 'error:' in out:
            killed = 'build'
            break
    with open(path, 'w') as file:
        file.write(text)
    return dict(mutant, results=results, killed=killed)


def run(items, output, checks, home='wagyu/'):
    workers = int(os.environ.get('MUTATE_WORKERS') or 1)
    slots = list(range(int(os.environ.get('MUTATE_SLOTS') or 8)))
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    subprocess.run(['cp', '-a', VERIF, os.path.join(SCRATCH, 'verif')])
    for slot in slots:
        subprocess.run(['cp', '-a', REPO, os.path.join(SCRATCH,
                                                       'copy%d' % slot)])
    free = list(slots)

    def work(mutant):
        slot = free.pop()
        try:
            return attempt(mutant, checks, slot, workers, home)
        finally:
            free.append(slot)

    counts = {}
    with open(output, 'a') as file, \
            concurrent.futures.ThreadPoolExecutor(len(slots)) as executor:
        for result in executor.map(work, items):
            file.write(json.dumps(result) + '\n')
            file.flush()
            key = result['killed'] or 'survived'
            counts[key] = counts.get(key, 0) + 1
    print(counts)


def main(args):
    if args[0] == 'list':
        items = list(everything(args[1:]))
        print(len(items))
        return
    if args[0] == 'run':
        items = list(everything(args[3:]))
        count = int(os.environ.get('MUTATE_SAMPLE') or len(items))
        items = random.Random(1).sample(items, min(count, len(items)))
        items = items[int(os.environ.get('MUTATE_SKIP') or 0):]
        run(items, args[1], args[2].split(','))
    elif args[0] == 'again':
        with open(args[1]) as file:
            items = [json.loads(line) for line in file]
        run([item for item in items if not item['killed']], args[2],
            args[3].split(','))


if __name__ == '__main__':
    main(sys.argv[1:])
