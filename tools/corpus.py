#!/usr/bin/env python3
"""Extends dst/corpus.json with scenes found by searches and makes
dst/rarity.json: python3 tools/corpus.py FOUND.json...
A file of a search guided by branches of the port keeps ``corpus`` (branch to
pairs of size and scene) and ``freq`` (how often random scenes meet a branch),
one of a search guided by mutants of the port keeps ``m``: how often a mutant
has been told from the port, how often by random scenes and by which scenes.
"""
import collections
import json
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORPUS = os.path.join(ROOT, 'dst', 'corpus.json')
RARITY = os.path.join(ROOT, 'dst', 'rarity.json')
LIMIT = 300  # of scenes for branches
POINTS = 100  # in scenes for mutants
RANDOM = 1500
SCENES = 6  # for a pair of functions


def text_of(scene):
    return json.dumps(scene, sort_keys=True, separators=(',', ':'))


def of_branches(files):
    freq = collections.Counter()
    scenes = collections.defaultdict(list)
    for found in files:
        freq.update(found['freq'])
        for edge, pairs in found['corpus'].items():
            scenes[edge].extend(pairs)
    # the rarest branches are first, up to three scenes for each of them
    chosen = set()
    edges = sorted(scenes, key=lambda edge: (freq[edge], edge))
    for count in (3, 2, 1):
        for edge in edges:
            if freq[edge] > (30, 300, 3000)[3 - count]:
                continue
            for _, scene in sorted(
                    scenes[edge], key=lambda pair: pair[0])[:count]:
                if len(chosen) < LIMIT and scene['rings']:
                    chosen.add(text_of(scene))
    return chosen


def of_mutants(files):
    by_random = collections.Counter()
    left, told, sizes = set(), collections.defaultdict(set), {}
    for found in files:
        for mutant in found['m']:
            by_random[mutant['key']] += mutant['freshkills']
            for size, scene in mutant['wit']:
                if scene['rings'] and size <= POINTS:
                    left.add(mutant['key'])
                    told[text_of(scene)].add(mutant['key'])
                    sizes[text_of(scene)] = size
    left = {key for key in left if by_random[key] <= 3}
    chosen = set()
    while left:
        best = max(sorted(told), key=lambda text: (
            len(told[text] & left) / (10 + sizes[text]), -sizes[text]))
        chosen.add(best)
        left -= told[best]
    return chosen


def rarity():
    """Parts of scenes (of the corpus and of random ones) during executions
    of which a function calls another one, and numbers of the smallest ones
    in the corpus."""
    sys.path.insert(0, ROOT)
    from dst import geom, impls
    from dst.tracing import PREFIX, pair_of
    impl = impls.load_port()
    rnd = random.Random(1)
    scenes = [(scene['rings'], scene['kinds'], scene['op'], scene['f1'],
               scene['f2']) for scene in geom.corpus()]
    for _ in range(RANDOM):
        _, rings = (geom.hard_scene(rnd) if rnd.random() < .5
                    else geom.scene(rnd, 2, 8))
        scenes.append((rings, [rnd.randrange(2) for _ in rings],
                       rnd.choice(geom.OPS), rnd.randrange(4),
                       rnd.randrange(4)))
    counts = collections.Counter()
    numbers = collections.defaultdict(list)
    for number, (rings, kinds, op, f1, f2) in enumerate(scenes):
        found = set()

        def trace(frame, event, arg):
            if (frame.f_code.co_filename.startswith(PREFIX)
                    and frame.f_back is not None
                    and frame.f_back.f_code.co_filename.startswith(PREFIX)):
                found.add(pair_of(frame.f_back.f_code, frame.f_code))
        clipper = impl.wagyu()
        for points, kind in zip(rings, kinds):
            clipper.add_linear_ring(impl.ring(points), impl.kinds[kind])
        sys.settrace(trace)
        try:
            getattr(clipper, op)(impl.fills[f1], impl.fills[f2])
        except RuntimeError:  # an invalid result is possible
            pass
        finally:
            sys.settrace(None)
        counts.update(found)
        if number < len(geom.corpus()):
            for pair in found:
                # the corpus is sorted by sizes
                numbers[pair] = (numbers[pair] + [number])[:SCENES]
    return {pair: [round(count / len(scenes), 4), numbers[pair]]
            for pair, count in sorted(counts.items())}


def main(paths):
    files = []
    for path in paths:
        with open(path) as file:
            files.append(json.load(file))
    with open(CORPUS) as file:
        texts = set(map(text_of, json.load(file)))
    texts |= of_branches([found for found in files if 'corpus' in found])
    texts |= of_mutants([found for found in files if 'm' in found])
    with open(CORPUS, 'w') as file:
        file.write('[' + ',\n'.join(sorted(
            texts, key=lambda text: (len(text), text))) + ']\n')
    found = rarity()
    with open(RARITY, 'w') as file:
        file.write('{' + ',\n'.join(
            json.dumps(pair) + ':' + json.dumps(value, separators=(',', ':'))
            for pair, value in sorted(found.items())) + '}\n')
    print(len(texts), 'scenes,', len(found), 'pairs of functions')


main(sys.argv[1:])
