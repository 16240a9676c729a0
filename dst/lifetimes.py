"""Objects of the binding outlive the ones they have been obtained from."""
import copy
import gc
import json

from . import geom, history, impls
from .core import short
from .proc import Ended, Proc

# kind of object -> how something can be obtained from it
DERIVED = {
    'clipper': {'minimums': 'minimums', 'bounds': 'box', 'exec': 'multi'},
    'minimums': {'item': 'minimum', 'iter': 'iterator-minimum'},
    'minimum': {'left_bound': 'bound', 'right_bound': 'bound'},
    'bound': {'edges': 'edges', 'maximum_bound': 'bound',
              'current_edge': 'edge'},
    'edges': {'item': 'edge'},
    'edge': {'bottom': 'point', 'top': 'point'},
    'box': {'minimum': 'point', 'maximum': 'point'},
    'multi': {'item': 'polygon', 'iter': 'iterator-polygon'},
    'polygon': {'item': 'ring', 'iter': 'iterator-ring'},
    'ring': {'item': 'point', 'iter': 'iterator-point', 'edges': 'edges'},
    'iterator-minimum': {'next': 'minimum'},
    'iterator-polygon': {'next': 'polygon'},
    'iterator-ring': {'next': 'ring'},
    'iterator-point': {'next': 'point'},
    'built-polygon': {'item': 'ring', 'iter': 'iterator-ring'},
    'built-multi': {'item': 'polygon', 'iter': 'iterator-polygon'},
    'list': {'item': 'minimum', 'iter': 'iterator-minimum'},
    'intersection': {'first_bound': 'bound', 'second_bound': 'bound',
                     'point': 'point'},
    'manager': {'rings[]': 'output', 'sorted_rings[]': 'output',
                'hot_pixels[]': 'point', 'children[]': 'output'},
    'output': {'box': 'box', 'parent': 'output', 'children[]': 'output',
               'points[]': 'point'},
    'point': {},
}
for copied in ('point', 'ring', 'polygon', 'multi', 'box', 'edge'):
    DERIVED[copied]['copy'] = copied
# kind of object -> kinds of the ones it is made from
MADE = {
    'intersection': ('bound', 'bound', 'point'),
    'minimum': ('bound', 'bound'),
    'bound': ('edges',),
    'edge': ('point', 'point'),
    'box': ('point', 'point'),
    'crossing': ('edge', 'edge'),
    'ring': ('point', 'point', 'point'),
    'built-polygon': ('ring', 'ring'),
    'built-multi': ('polygon', 'polygon'),
    'list': ('minimums',),
    'manager': ('minimums',),
}
RESULTS = {'crossing': 'point'}
ALIKE = {'built-polygon': 'polygon', 'list': 'minimums'}


def point(value):
    return [float(value.x), float(value.y)]


def edge(value):
    return [point(value.bottom), point(value.top), repr(float(value.slope))]


def bound(value):
    return [edge(item) for item in value.edges]


def output(value):
    return [value.index, [point(item) for item in value.points],
            repr(float(value.area)), value.size, value.is_hole,
            impls.canonical_box(value.box)]


VALUES = {
    'point': point,
    'edge': edge,
    'edges': lambda value: [edge(item) for item in value],
    'bound': bound,
    'minimum': lambda value: [float(value.y), bound(value.left_bound),
                              bound(value.right_bound)],
    'box': impls.canonical_box,
    'ring': impls.canonical_ring,
    'polygon': lambda value: [impls.canonical_ring(ring) for ring in value],
    'multi': impls.canonical,
    'built-polygon': lambda value: [impls.canonical_ring(ring)
                                    for ring in value],
    'built-multi': impls.canonical,
    'minimums': lambda value: None,
    'list': lambda value: None,
    'manager': lambda value: None,
    'output': output,
    'intersection': lambda value: [bound(value.first_bound),
                                   bound(value.second_bound),
                                   point(value.point)],
    'clipper': lambda value: None,
}


class Lifetimes:
    def __init__(self, impl, env):
        gc.disable()
        self.impl = impl
        self.objects = {}
        impl.native.environment(*env)
        impl.warm_up()

    def __call__(self, step):
        native = self.impl.native
        if not step.get('fault'):
            return self.perform(step)
        before = native.counters()['failed']
        native.arm(step['fault'])
        try:
            status, value = self.perform(step)
        finally:
            native.disarm()
        if native.counters()['failed'] == before:
            return status, value
        if status == 'raised':
            return 'failed', value
        return status + '!', value

    def perform(self, step):
        try:
            return getattr(self, 'op_' + step['k'])(**{
                key: value for key, value in step.items()
                if key not in ('k', 'fault')})
        except IndexError:
            if step.get('how') == 'current_edge':
                return 'skipped', None
            raise
        except Exception as error:
            if step.get('how') == 'exec' and type(error) is RuntimeError:
                return 'skipped', None  # not every input can be handled
            return 'raised', '%s: %s' % (type(error).__name__, error)

    def value(self, kind, object_):
        reader = VALUES.get(kind)
        return reader(object_) if reader is not None else None

    def op_create(self, h, kind, pts=None, rings=None, adds=None):
        impl = self.impl
        if kind == 'ring':
            object_ = impl.ring(pts)
        elif kind == 'built-polygon':
            object_ = impl.polygon([impl.ring(ring) for ring in rings])
        elif kind == 'built-multi':
            object_ = impl.multipolygon([impl.polygon([impl.ring(ring)])
                                         for ring in rings])
        else:
            object_ = (impl.clipper(False) if kind == 'clipper'
                       else impl.module.LocalMinimumList())
            for ring, polygon_kind in adds:
                object_.add_linear_ring(impl.ring(ring),
                                        impl.kinds[polygon_kind])
        value = self.value(kind, object_)
        self.objects[h] = kind, object_
        return 'ok', value

    def op_derive(self, h, src, how, at, exec_=None):
        if src not in self.objects:
            return 'skipped', None
        kind, source = self.objects[src]
        if how == 'item':
            if not len(source):
                return 'skipped', None
            object_ = source[at % len(source)]
        elif how == 'iter':
            object_ = iter(source)
        elif how == 'next':
            object_ = next(source, None)
            if object_ is None:
                return 'skipped', None
        elif how == 'exec':
            object_ = self.impl.call(source, **exec_)
        elif how == 'copy':
            object_ = copy.copy(source)
        elif how.endswith('[]'):
            values = getattr(source, how[:-2])
            if not len(values):
                return 'skipped', None
            object_ = values[at % len(values)]
        else:
            object_ = getattr(source, how)
        if object_ is None:
            return 'skipped', None
        kind = DERIVED[kind][how]
        value = self.value(kind, object_)
        self.objects[h] = kind, object_
        return 'ok', value

    def op_make(self, h, kind, srcs, exec_=None):
        if any(src not in self.objects for src in srcs):
            return 'skipped', None
        module, impl = self.impl.module, self.impl
        sources = [self.objects[src][1] for src in srcs]
        if kind == 'intersection':
            object_ = module.IntersectNode(*sources)
        elif kind == 'minimum':
            object_ = module.LocalMinimum(*sources, 7, False)
        elif kind == 'bound':
            object_ = module.Bound(sources[0])
        elif kind == 'edge':
            object_ = module.Edge(*sources)
        elif kind == 'box':
            object_ = impl.box(*sources)
        elif kind == 'crossing':
            object_ = sources[0] & sources[1]
        elif kind == 'ring':
            object_ = impl.linear_ring(sources)
        elif kind == 'built-polygon':
            object_ = impl.polygon(sources)
        elif kind == 'built-multi':
            object_ = impl.multipolygon(sources)
        elif kind == 'list':
            object_ = module.LocalMinimumList(
                [sources[0][index] for index in range(len(sources[0]))])
        else:
            object_ = module.RingManager()
            object_.build_hot_pixels(sources[0])
            try:
                object_.execute_vatti(sources[0],
                                      impl.operations[exec_['op']],
                                      impl.fills[exec_['f1']],
                                      impl.fills[exec_['f2']])
                object_.correct_topology()
            except RuntimeError:  # not every input can be handled
                return 'skipped', None
        if object_ is None:
            return 'skipped', None
        kind = RESULTS.get(kind, kind)
        value = self.value(kind, object_)
        self.objects[h] = kind, object_
        return 'ok', value

    def op_read(self, h):
        if h not in self.objects:
            return 'skipped', None
        return 'ok', self.value(*self.objects[h])

    def op_drop(self, h):
        self.objects.pop(h, None)
        return 'ok', None

    def op_gc(self):
        gc.collect()
        return 'ok', None

    def op_noise(self, pts, count):
        """Other objects get the memory freed before."""
        for index in range(count):
            clipper = self.impl.clipper(False)
            ring = self.impl.ring([[x + index, y + 7] for x, y in pts])
            clipper.add_linear_ring(ring, self.impl.kinds[index % 2])
            clipper.unite()
        return 'ok', None

    def op_add(self, h, pts, kind):
        if h not in self.objects:
            return 'skipped', None
        self.objects[h][1].add_linear_ring(self.impl.ring(pts),
                                           self.impl.kinds[kind])
        return 'ok', None

    def op_append(self, h, src, count, reverse):
        if h not in self.objects or src not in self.objects:
            return 'skipped', None
        polygon, ring = self.objects[h][1], self.objects[src][1]
        if not ring.points:  # has been removed
            return 'skipped', None
        for _ in range(count):
            polygon.append(ring, reverse)
        return 'ok', self.value(*self.objects[h])

    def op_execute(self, h, exec_):
        if h not in self.objects:
            return 'skipped', None
        try:
            return 'ok', impls.canonical(self.impl.call(self.objects[h][1],
                                                        **exec_))
        except RuntimeError as error:
            return 'error', str(error)


def faulty(rnd, prof, step):
    """Makes an allocation fail sometimes."""
    if (step['k'] in ('create', 'derive', 'make', 'add', 'execute')
            and rnd.random() < prof.get('fault', 0)):
        step['fault'] = rnd.choice((1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 40,
                                    100, 300))
    return step


def plan(rnd, prof):
    m, rings = geom.scene(rnd, *prof['rings'], prof['grids'],
                          with_degenerate=False)
    steps = []
    kinds = {}  # handle -> kind
    owner = {}  # handle -> handle of clipper its minimums belong to
    last = 0
    for index, kind in enumerate(rnd.choices(
            ('clipper', 'list', 'ring', 'built-polygon', 'built-multi'),
            (5, 1, 1, 1, 1), k=rnd.randint(1, 4))):
        step = {'k': 'create', 'h': last, 'kind': kind}
        if kind == 'ring':
            step['pts'] = rnd.choice(rings)
        elif kind.startswith('built'):
            step['rings'] = [rnd.choice(rings)
                             for _ in range(rnd.randint(1, 3))]
        else:
            step['adds'] = [[ring, rnd.randrange(2)] for ring in rings]
        steps.append(step)
        kinds[last] = kind
        owner[last] = last
        last += 1
    for _ in range(rnd.randint(*prof['steps'])):
        k = rnd.choices(('derive', 'read', 'drop', 'gc', 'noise', 'add',
                         'execute', 'make', 'append'),
                        (12, 2, 5, .7, 2, 1, 1, prof.get('make', 3), 1))[0]
        if k in ('derive', 'read', 'drop') and not kinds:
            continue
        if k == 'derive':
            src = (last - 1 if last - 1 in kinds and rnd.random() < .4
                   else rnd.choice(sorted(kinds)[-6:] if rnd.random() < .6
                                   else sorted(kinds)))
            ways = DERIVED.get(kinds[src])
            if not ways:
                continue
            how = rnd.choice(sorted(ways))
            step = {'k': k, 'h': last, 'src': src, 'how': how,
                    'at': rnd.randrange(20)}
            if how == 'exec':
                found = history.random_exec(rnd, 0)
                step['exec_'] = {key: found[key] for key
                                 in ('op', 'f1', 'f2', 'via')}
            steps.append(step)
            kinds[last] = ways[how]
            owner[last] = owner[src]
            last += 1
        elif k == 'make':
            present = {}
            for h, kind in sorted(kinds.items()):
                present.setdefault(ALIKE.get(kind, kind), []).append(h)
            names = [name for name, sources in sorted(MADE.items())
                     if all(source in present for source in sources)]
            if not names:
                continue
            name = rnd.choices(names, [8 if 'bound' in MADE[name] else 1
                                       for name in names])[0]
            srcs = [rnd.choice(present[source]) for source in MADE[name]]
            step = {'k': k, 'h': last, 'kind': name, 'srcs': srcs}
            if name == 'manager':
                found = history.random_exec(rnd, 0)
                step['exec_'] = {key: found[key]
                                 for key in ('op', 'f1', 'f2')}
            steps.append(step)
            kinds[last] = RESULTS.get(name, name)
            owner[last] = last
            last += 1
        elif k == 'read':
            steps.append({'k': k, 'h': rnd.choice(sorted(kinds))})
        elif k == 'append':
            targets = [[h for h, kind in sorted(kinds.items())
                        if kind == wanted]
                       for wanted in ('built-polygon', 'output')]
            if all(targets):
                steps.append({'k': k, 'h': rnd.choice(targets[0]),
                              'src': rnd.choice(targets[1]),
                              'count': rnd.choice((1, 1, 3, 9)),
                              'reverse': rnd.random() < .5})
        elif k == 'drop':
            h = rnd.choice(sorted(kinds)[:4] if rnd.random() < .6
                           else sorted(kinds))
            del kinds[h]
            steps.append({'k': k, 'h': h})
        elif k == 'gc':
            steps.append({'k': k})
        elif k == 'noise':
            steps.append({'k': k, 'pts': rnd.choice(rings),
                          'count': rnd.randint(1, 6)})
        else:
            targets = [h for h, kind in kinds.items() if kind == 'clipper'
                       or kind == 'list' and k == 'add']
            if not targets:
                continue
            h = rnd.choice(targets)
            if k == 'add':
                steps.append({'k': k, 'h': h, 'pts': rnd.choice(rings),
                              'kind': rnd.randrange(2)})
            else:
                found = history.random_exec(rnd, 0)
                steps.append({'k': k, 'h': h, 'exec_': {
                    key: found[key] for key in ('op', 'f1', 'f2', 'via')}})
    for step in steps:
        faulty(rnd, prof, step)
    steps.append({'k': 'noise', 'pts': rings[0], 'count': 5})
    steps.append({'k': 'gc'})
    for h in sorted(kinds):
        steps.append({'k': 'read', 'h': h})
    return {'impl': 'binding', 'heap': [rnd.randrange(1 << 30), 1,
                                        rnd.randrange(2)], 'steps': steps}


def execute(plan_, ctx):
    impl = impls.get('binding')
    proc = Proc(lambda: Lifetimes(impl, plan_['heap']))
    values = {}
    kinds = {}
    dropped = []
    try:
        for index, step in enumerate(plan_['steps']):
            k, h = step['k'], step.get('h')
            try:
                status, value = proc.ask(step)
            except Ended as error:
                ctx.event(index, json.dumps(step), error)
                ctx.check(False, 'step %d (%s)' % (index, short(step)),
                          'ended the process:', error.kind, error.detail)
            ctx.event(index, json.dumps(step), status, json.dumps(value))
            ctx.stats['steps'] += 1
            if status == 'failed' or status.endswith('!'):
                ctx.fault('failed allocation: ' + (
                    step.get('how') or (k if k == 'add'
                                        else step.get('kind')) or k))
                status = status.rstrip('!')
            ctx.check(status != 'raised', 'step %d (%s)' % (index,
                                                            short(step)),
                      'failed:', value)
            if status != 'ok':
                continue
            if k == 'create':
                kinds[h] = step['kind']
                values[h] = value
            elif k == 'derive':
                kinds[h] = DERIVED[kinds[step['src']]][step['how']]
                values[h] = value
                ctx.state(kinds[step['src']], step['how'], *dropped[-2:])
            elif k == 'append':
                ctx.check(value[:len(values[h])] == values[h],
                          'step %d (%s)' % (index, short(step)),
                          'has changed', short(values[h]), 'to',
                          short(value))
                values[h] = value
                ctx.fault('additions to a polygon')
            elif k == 'make':
                kinds[h] = RESULTS.get(step['kind'], step['kind'])
                values[h] = value
                ctx.state('make', step['kind'], *dropped[-2:])
            elif k == 'drop':
                ctx.fault('drop of ' + kinds.get(h, 'nothing'))
                dropped.append(kinds.get(h))
            elif k == 'read' and h in values:
                ctx.check(value == values[h], 'step %d: %s' % (index,
                                                               kinds[h]),
                          'was', short(values[h]), 'and has become',
                          short(value), 'after drops of',
                          ', '.join(map(str, dropped)))
                ctx.state('read', kinds[h], *dropped[-3:])
    finally:
        proc.close()


def shrinks(plan_):
    steps = plan_['steps']
    size = len(steps) // 2
    while size:
        for start in range(0, len(steps), size):
            yield dict(plan_, steps=steps[:start] + steps[start + size:])
        size //= 2
    for index, step in enumerate(steps):
        if step.get('fault'):
            yield dict(plan_, steps=steps[:index] + [
                {key: value for key, value in step.items()
                 if key != 'fault'}] + steps[index + 1:])
        for name in ('adds', 'rings'):
            items = step.get(name) or ()
            for at in range(len(items)):
                yield dict(plan_, steps=steps[:index] + [dict(step, **{
                    name: items[:at] + items[at + 1:]})] + steps[index + 1:])
