"""Seeded generation of rings and the reference model of their regions."""

import json
import math
import os

OPS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')


def rect(rnd, m):
    x0, x1 = sorted(rnd.sample(range(m + 1), 2))
    y0, y1 = sorted(rnd.sample(range(m + 1), 2))
    points = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    if rnd.random() < .5:
        points.reverse()
    return points


def polygon(rnd, m, low=3, high=8):
    return [[rnd.randint(0, m), rnd.randint(0, m)]
            for _ in range(rnd.randint(low, high))]


def triangle(rnd, m):
    return polygon(rnd, m, 3, 3)


def comb(rnd, m):
    """Many local minima."""
    teeth = rnd.randint(2, 6)
    step = max(1, m // (2 * teeth))
    high, low = rnd.randint(m // 2, m), rnd.randint(0, max(0, m // 2 - 1))
    points = []
    for index in range(teeth):
        points.append([2 * index * step, high - rnd.randint(0, 1)])
        points.append([(2 * index + 1) * step, low + rnd.randint(0, 1)])
    points.append([2 * teeth * step, high])
    points.append([teeth * step, m + 2])
    if rnd.random() < .5:
        points.reverse()
    return points


def staircase(rnd, m):
    """Horizontal and vertical edges only."""
    x = y = 0
    points = [[0, 0]]
    for _ in range(rnd.randint(2, 5)):
        x += rnd.randint(1, max(1, m // 4))
        points.append([x, y])
        y += rnd.randint(1, max(1, m // 4))
        points.append([x, y])
    points.append([0, y])
    if rnd.random() < .5:
        points.reverse()
    return points


def star(rnd, m):
    """Self-intersecting."""
    n = rnd.choice((5, 7))
    half = m / 2
    angle = rnd.random() * 6.28
    order = [(index * (n // 2)) % n for index in range(n)]
    return [[int(half + half * math.cos(angle + 6.283185 * i / n)),
             int(half + half * math.sin(angle + 6.283185 * i / n))]
            for i in order]


def dirty(rnd, m):
    """Duplicate and collinear points, spikes."""
    points = polygon(rnd, m, 3, 6)
    for _ in range(rnd.randint(1, 3)):
        index = rnd.randrange(len(points))
        choice = rnd.randrange(3)
        if choice == 0:
            points.insert(index, list(points[index]))
        elif choice == 1:
            a, b = points[index - 1], points[index]
            if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                points.insert(index, [(a[0] + b[0]) // 2,
                                      (a[1] + b[1]) // 2])
        else:
            points[index:index] = [list(points[index]),
                                   [rnd.randint(0, m), rnd.randint(0, m)]]
    return points


def degenerate(rnd, m):
    x, y = rnd.randint(0, m), rnd.randint(0, m)
    return rnd.choice(([], [[x, y]], [[x, y], [m, m]], [[x, y]] * 4,
                       [[0, 0], [x, x], [m, m]],
                       [[0, y], [x, y], [m, y]]))


def circle(rnd, m):
    """Many points, rounded to the grid."""
    n = rnd.choice((12, 30, 60, 150))
    half = m / 2
    start = rnd.random() * 6.28
    wave = rnd.choice((0, 0, .3))
    points = []
    for index in range(n):
        radius = half * (1 - wave * (index % 2))
        angle = start + 6.283185307 * index / n
        points.append([int(half + radius * math.cos(angle)),
                       int(half + radius * math.sin(angle))])
    if rnd.random() < .5:
        points.reverse()
    return points


KINDS = {'rect': rect, 'polygon': polygon, 'triangle': triangle,
         'comb': comb, 'staircase': staircase, 'star': star, 'dirty': dirty,
         'degenerate': degenerate, 'circle': circle}


def scene(rnd, low=2, high=8, grids=(5, 8, 12, 20, 50, 100, 400, 1000),
          with_degenerate=True):
    """Returns grid size and rings of the scene."""
    m = rnd.choice(grids)
    names = sorted(KINDS)
    if not with_degenerate:
        names.remove('degenerate')
    enabled = [name for name in names if rnd.random() < .6] or ['polygon']
    if rnd.random() < .2:
        enabled = ['rect', 'staircase']  # results are exact
    weights = [{'degenerate': .3, 'circle': .2}.get(name, 1.)
               for name in enabled]
    dx, dy = ((0, 0) if rnd.random() < .6
              else (rnd.randint(-2 * m, m), rnd.randint(-2 * m, m)))
    rings = []
    for _ in range(rnd.randint(low, high)):
        name = rnd.choices(enabled, weights)[0]
        size = m if m <= 8 or rnd.random() < .6 else max(5, m // 3)
        points = KINDS[name](rnd, size)
        sx = rnd.randint(0, m - size) if size < m else 0
        sy = rnd.randint(0, m - size) if size < m else 0
        points = [[x + dx + sx, y + dy + sy] for x, y in points]
        if points and rnd.random() < .3:
            points.append(list(points[0]))
        rings.append(points)
    return m, rings


def rectilinear(rnd, m, low, high):
    """Self-overlapping ring of horizontal and vertical edges."""
    count = rnd.randint(low, high)
    xs = [rnd.randint(0, m) for _ in range(count)]
    ys = [rnd.randint(0, m) for _ in range(count)]
    points = []
    for index in range(count):
        points.append([xs[index], ys[index]])
        points.append([xs[(index + 1) % count], ys[index]])
    return points


def cell(rnd, m):
    """Square or its half, lots of them touch each other."""
    x, y = rnd.randrange(m), rnd.randrange(m)
    points = [[x, y], [x + 1, y], [x + 1, y + 1], [x, y + 1]]
    index = rnd.randrange(6)
    if index < 4:
        points.pop(index)
    if rnd.random() < .5:
        points.reverse()
    return points


def diamond(rnd, m):
    x, y, r = rnd.randrange(m), rnd.randrange(m), rnd.randint(1, m // 2)
    points = [[x - r, y], [x, y - r], [x + r, y], [x, y + r]]
    if rnd.random() < .5:
        points.reverse()
    return points


# number of rings, grids and the way to make a ring
HARD = {'short': ((3, 14), (3, 4, 5, 6, 8, 10, 12), polygon),
        'long': ((1, 4), (4, 5, 6, 8),
                 lambda rnd, m: polygon(rnd, m, 12, 40)),
        'longer': ((1, 3), (12, 20, 30),
                   lambda rnd, m: polygon(rnd, m, 12, 50)),
        'rectilinear': ((1, 8), (4, 6, 8, 12),
                        lambda rnd, m: rectilinear(rnd, m, 2, 8)),
        'long rectilinear': ((1, 4), (6, 8, 12),
                             lambda rnd, m: rectilinear(rnd, m, 10, 30)),
        'cells': ((10, 60), (4, 6, 8), cell),
        'diamonds': ((3, 25), (4, 6, 8, 12), diamond)}


def hard_scene(rnd):
    """Most points of such scenes are met by several edges, this leads to
    repeated points, chains of rings and collinear edges in results."""
    (low, high), grids, ring = HARD[rnd.choice(sorted(HARD))]
    m = rnd.choice(grids)
    return m, [ring(rnd, m) for _ in range(rnd.randint(low, high))]


CORPUS = []


def corpus():
    """Scenes which have been found to reach rare branches."""
    if not CORPUS:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                               'corpus.json')) as file:
            CORPUS.extend(json.load(file))
    return CORPUS


def rare_scene(rnd, number=None):
    """Returns size, rings, their kinds, operation and fills: a scene of
    the corpus, most often changed a bit."""
    found = (rnd.choice(corpus()) if number is None
             else corpus()[number % len(corpus())])
    rings = [[list(point) for point in ring] for ring in found['rings']]
    kinds = list(found['kinds'])
    op, f1, f2 = found['op'], found['f1'], found['f2']
    if number is not None and rnd.random() < .7:
        return whole(rings, kinds, op, f1, f2)
    for _ in range(rnd.choice((0, 0, 1, 1, 2, 3))):
        index = rnd.randrange(len(rings))
        ring = rings[index]
        k = rnd.randrange(8)
        if k <= 1 and ring:
            rnd.choice(ring)[rnd.randrange(2)] += rnd.choice((-2, -1, 1, 2))
        elif k == 2 and ring and rings[index - 1]:
            ring[rnd.randrange(len(ring))] = list(rnd.choice(
                rings[index - 1]))
        elif k == 3 and len(ring) > 3:
            del ring[rnd.randrange(len(ring))]
        elif k == 4 and ring:
            dx, dy = rnd.randint(-2, 2), rnd.randint(-2, 2)
            rings.append([[x + dx, y + dy] for x, y in ring])
            kinds.append(rnd.randrange(2))
        elif k == 5:
            kinds[index] ^= 1
        elif k == 6:
            op = rnd.choice(OPS)
        else:
            f1, f2 = rnd.randrange(4), rnd.randrange(4)
    if rnd.random() < .3:  # the same shape turned over
        rings = [[[y, x] for x, y in ring] for ring in rings]
    elif rnd.random() < .3:
        rings = [[[-x, y] for x, y in ring] for ring in rings]
    if rnd.random() < .2:
        dx, dy = rnd.randint(-1000, 1000), rnd.randint(-1000, 1000)
        rings = [[[x + dx, y + dy] for x, y in ring] for ring in rings]
    return whole(rings, kinds, op, f1, f2)


def whole(rings, kinds, op, f1, f2):
    xs = [x for ring in rings for x, _ in ring] or [0]
    ys = [y for ring in rings for _, y in ring] or [0]
    return (max(max(xs) - min(xs), max(ys) - min(ys)), rings, kinds, op, f1,
            f2)


# --- reference model ---

def winding(point, points):
    result = 0
    px, py = point
    for index in range(len(points)):
        x1, y1 = points[index - 1]
        x2, y2 = points[index]
        if (y1 <= py) != (y2 <= py):
            side = (x2 - x1) * (py - y1) - (px - x1) * (y2 - y1)
            if y2 > y1:
                if side > 0:
                    result += 1
            elif side < 0:
                result -= 1
    return result


def filled(count, fill):
    return (count % 2 != 0, count != 0, count > 0, count < 0)[fill]


def combine(op, subject, clip):
    return {'intersect': subject and clip, 'unite': subject or clip,
            'subtract': subject and not clip,
            'symmetric_subtract': subject != clip}[op]


def expected_inside(point, adds, op, f1, f2):
    """``adds`` are pairs of points and polygon kinds (0 subject, 1 clip)."""
    counts = [0, 0]
    for points, kind in adds:
        counts[kind] += winding(point, points)
    return combine(op, filled(counts[0], f1), filled(counts[1], f2))


def result_winding(point, result):
    return sum(winding(point, ring[:-1] if ring[0] == ring[-1] else ring)
               for polygon_ in result for ring in polygon_ if ring)


def squared_distance(point, start, end):
    px, py = point
    ax, ay = start
    bx, by = end
    dx, dy = bx - ax, by - ay
    length = dx * dx + dy * dy
    t = 0. if not length else ((px - ax) * dx + (py - ay) * dy) / length
    t = min(1., max(0., t))
    return (px - ax - t * dx) ** 2 + (py - ay - t * dy) ** 2


def is_far(point, adds, tolerance):
    limit = tolerance * tolerance
    for points, _ in adds:
        for index in range(len(points)):
            if squared_distance(point, points[index - 1],
                                points[index]) < limit:
                return False
    return True


def sample_points(rnd, adds, count, tolerance):
    xs = [x for points, _ in adds for x, _ in points]
    ys = [y for points, _ in adds for _, y in points]
    if not xs:
        return []
    x0, x1, y0, y1 = min(xs) - 2, max(xs) + 2, min(ys) - 2, max(ys) + 2
    result = []
    for _ in range(count):
        point = (x0 + rnd.random() * (x1 - x0), y0 + rnd.random() * (y1 - y0))
        if is_far(point, adds, tolerance):
            result.append(point)
    return result


def is_rectilinear(adds):
    return all(points[index - 1][0] == points[index][0]
               or points[index - 1][1] == points[index][1]
               for points, _ in adds for index in range(len(points)))


def cells(rnd, adds, count):
    """Centers of unit squares which may be met by rings."""
    xs = [x for points, _ in adds for x, _ in points]
    ys = [y for points, _ in adds for _, y in points]
    if not xs:
        return [(.5, .5)]
    width = int(max(xs) - min(xs)) + 2
    height = int(max(ys) - min(ys)) + 2
    x0, y0 = min(xs) - .5, min(ys) - .5
    if width * height <= 3 * count:
        return [(x0 + i, y0 + j) for i in range(width)
                for j in range(height)]
    result = []
    for _ in range(count):
        if rnd.random() < .5:  # near of a corner
            result.append((rnd.choice(xs) + rnd.choice((-.5, .5)),
                           rnd.choice(ys) + rnd.choice((-.5, .5))))
        else:
            result.append((x0 + rnd.randrange(width),
                           y0 + rnd.randrange(height)))
    return result


def region_mismatch(rnd, adds, op, f1, f2, result, reverse, count=40,
                    tolerance=1.5):
    """Returns a point where the result disagrees with the model, if any,
    and how many points were decided."""
    points = (cells(rnd, adds, 3 * count) if is_rectilinear(adds)
              else sample_points(rnd, adds, count, tolerance))
    inside = -1 if reverse else 1
    for point in points:
        if result_winding(point, result) != (
                inside if expected_inside(point, adds, op, f1, f2) else 0):
            return point, len(points)
    return None, len(points)
