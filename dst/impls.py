"""The two implementations behind one interface."""
import importlib
import importlib.util
import os
import sys

from . import build

REPO = build.REPO
PORT_PREFIX = os.path.join(REPO, 'wagyu') + os.sep


class Impl:
    def __init__(self, name, module):
        self.name = name
        self.module = module

    def ring(self, points):
        return self.linear_ring([self.point(x, y) for x, y in points])

    def polygon(self, rings):
        return self.polygon_class(rings)

    def clipper(self, reverse):
        return self.wagyu(reverse)

    def call(self, clipper, op, f1, f2, via='named'):
        if via == 'default':
            return getattr(clipper, op)()
        if via == 'keyword':
            names = self.fill_names
            return getattr(clipper, op)(**{names[0]: self.fills[f1],
                                           names[1]: self.fills[f2]})
        if via == 'execute' and self.name == 'port':
            return clipper.execute(self.operations[op], self.fills[f1],
                                   self.fills[f2])
        return getattr(clipper, op)(self.fills[f1], self.fills[f2])


class Port(Impl):
    fill_names = 'subject_fill_type', 'clip_fill_type'

    def __init__(self):
        from wagyu import enums
        from wagyu.box import Box
        from wagyu.linear_ring import LinearRing
        from wagyu.point import Point
        from wagyu.polygon import Multipolygon, Polygon
        from wagyu.wagyu import Wagyu
        super().__init__('port', sys.modules['wagyu'])
        self.wagyu = Wagyu
        self.linear_ring = LinearRing
        self.point = Point
        self.polygon_class = Polygon
        self.multipolygon = Multipolygon
        self.box = Box
        self.kinds = [enums.PolygonKind.SUBJECT, enums.PolygonKind.CLIP]
        self.fills = [enums.FillKind.EVEN_ODD, enums.FillKind.NON_ZERO,
                      enums.FillKind.POSITIVE, enums.FillKind.NEGATIVE]
        kind = enums.OperationKind
        self.operations = {'intersect': kind.INTERSECTION,
                           'unite': kind.UNION,
                           'subtract': kind.DIFFERENCE,
                           'symmetric_subtract': kind.XOR}


class Binding(Impl):
    fill_names = 'subject_fill_kind', 'clip_fill_kind'

    def __init__(self, directory):
        path = os.path.join(directory, '_wagyu' + build.SUFFIX)
        spec = importlib.util.spec_from_file_location('_wagyu', path)
        module = importlib.util.module_from_spec(spec)
        sys.modules['_wagyu'] = module
        spec.loader.exec_module(module)
        super().__init__('binding', module)
        self.path = path
        self.wagyu = module.Wagyu
        self.linear_ring = module.LinearRing
        self.point = module.Point
        self.polygon_class = module.Polygon
        self.multipolygon = module.Multipolygon
        self.box = module.Box
        self.kinds = [module.PolygonKind.SUBJECT, module.PolygonKind.CLIP]
        self.fills = [module.FillKind.EVEN_ODD, module.FillKind.NON_ZERO,
                      module.FillKind.POSITIVE, module.FillKind.NEGATIVE]
        kind = module.OperationKind
        self.operations = {'intersect': kind.INTERSECTION,
                           'unite': kind.UNION,
                           'subtract': kind.DIFFERENCE,
                           'symmetric_subtract': kind.XOR}
        from . import native
        self.native = native.Native(path)

    def warm_up(self):
        clipper = self.clipper(False)
        for values in (self.ring([]), self.polygon([]), self.multipolygon([]),
                       clipper.minimums):
            iter(values)


def canonical_ring(ring):
    return [[float(point.x), float(point.y)] for point in ring]


def canonical(result):
    return [[canonical_ring(ring) for ring in polygon] for polygon in result]


def canonical_box(box):
    return [float(box.minimum.x), float(box.minimum.y),
            float(box.maximum.x), float(box.maximum.y)]


_cache = {}


def load_port():
    if 'port' not in _cache:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        port = Port()
        location = os.path.dirname(os.path.abspath(port.module.__file__))
        assert location + os.sep == PORT_PREFIX, location
        _cache['port'] = port
    return _cache['port']


def load_binding():
    if 'binding' not in _cache:
        _cache['binding'] = Binding(build.ensure())
    return _cache['binding']


def load(names):
    return [load_port() if name == 'port' else load_binding()
            for name in names]


def get(name):
    return _cache[name]
