"""
Mutation testing of the checks with small changes of the native code:

    python3 tools/mutate_native.py list [FILE...]
    python3 tools/mutate_native.py run OUT.jsonl CHECK[:RUNS],... [FILE...]

Changes are made in the text: comparisons are turned over, terms of conditions
are dropped, jumps, assignments and calls are removed.  MUTATE_SAMPLE,
MUTATE_SKIP, MUTATE_SEED, MUTATE_SLOTS, MUTATE_WORKERS as in mutate.py.
"""
import os
import random
import re
import sys

import mutate

HOME = 'include/mapbox/geometry/wagyu/'
FILES = ('topology_correction.hpp', 'ring_util.hpp', 'ring.hpp',
         'snap_rounding.hpp', 'active_bound_list.hpp', 'intersect_util.hpp',
         'process_horizontal.hpp', 'process_maxima.hpp',
         'local_minimum_util.hpp', 'local_minimum.hpp', 'build_edges.hpp',
         'build_result.hpp', 'bubble_sort.hpp', 'util.hpp', 'edge.hpp',
         'bound.hpp', 'vatti.hpp', 'build_local_minima_list.hpp', 'point.hpp',
         'intersect.hpp', 'scanbeam.hpp', 'wagyu.hpp')
FLIPS = {'<': ('<=', '>'), '<=': ('<', '>='), '>': ('>=', '<'),
         '>=': ('>', '<='), '==': ('!=',), '!=': ('==',)}


def mutants(name):
    with open(os.path.join(mutate.REPO, HOME, name)) as file:
        text = file.read()
    skip = [(match.start(), match.end()) for match in re.finditer(
        r'#ifdef DEBUG.*?#endif|//[^\n]*|/\*.*?\*/|#[^\n]*|template <[^\n]*'
        r'|"[^"\n]*"', text, re.S)]

    def emit(a, b, new, what):
        if any(start < b and a < end for start, end in skip):
            return
        yield {'file': name, 'line': text.count('\n', 0, a) + 1, 'from': a,
               'to': b, 'old': text[a:b], 'new': new, 'what': what}

    for match in re.finditer(r' (<=|>=|==|!=|<|>) ', text):
        for flip in FLIPS[match[1]]:
            yield from emit(match.start(1), match.end(1), flip, 'compare')
    for match in re.finditer(r' (&&|\|\|)\s', text):
        yield from emit(match.start(1), match.end(1),
                        '||' if match[1] == '&&' else '&&', 'boolean')
    for match in re.finditer(r'(&&|\|\|)\s+([^&|(){};]+(?:\([^()]*\)'
                             r'[^&|(){};]*)*)(?=\s*(?:&&|\|\||\)))', text):
        yield from emit(match.start(), match.end(), '', 'term')
    for match in re.finditer(r'\n +(continue|break);', text):
        yield from emit(match.start(1), match.end(1), '', 'jump')
    for match in re.finditer(r'\n +([\w>.*()\[\]-]+ \+?-?= [^;={}]+|\+\+\w+'
                             r'|[\w.>:-]+\([^;{}]*\));', text):
        if not match[1].startswith(('return', 'throw', 'using')):
            yield from emit(match.start(1), match.end(1), '', 'statement')
    for match in re.finditer(r'\bif \((.*?)\) \{', text):
        yield from emit(match.start(1), match.end(1), 'false', 'condition')
        yield from emit(match.start(1), match.end(1), 'true', 'condition')
    for match in re.finditer(r'\b(true|false)\b', text):
        yield from emit(match.start(1), match.end(1),
                        'false' if match[1] == 'true' else 'true', 'constant')
    for match in re.finditer(r'(?<=[ (])([+-]) (?=\w)', text):
        yield from emit(match.start(1), match.end(1),
                        '-' if match[1] == '+' else '+', 'arithmetic')


def everything(names):
    return [mutant for name in names or FILES for mutant in mutants(name)]


def main(args):
    if args[0] == 'list':
        print(len(everything(args[1:])))
        return
    items = everything(args[3:])
    count = int(os.environ.get('MUTATE_SAMPLE') or len(items))
    items = random.Random(int(os.environ.get('MUTATE_SEED') or 1)).sample(
        items, min(count, len(items)))
    mutate.run(items[int(os.environ.get('MUTATE_SKIP') or 0):], args[1],
               args[2].split(','), HOME)


if __name__ == '__main__':
    main(sys.argv[1:])
