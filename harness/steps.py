"""Events on the parts of the clipper (mixed into the recorder of worker.py):
the active bounds of the sweep, the decomposition of rings into bounds, the
stages after the sweep.  Like worker.py this only executes and records."""


import copy
import json
import pickle
import re

from reading import LIMIT, operate, point, read_multipolygon, read_ring, whole


class Abl:
    """A list of active bounds of one implementation under one row."""

    def __init__(self, impl, row, points):
        self.impl, self.row = impl, row
        # everything that happens, happens at a hot pixel
        self.points = points
        self.manager = impl.Manager(hot_pixels=points, current_hot_pixel_index=0)
        self.bounds = []
        self.clock = 0
        self.operation = impl.operations[row[0]]
        self.fills = impl.fills[row[1]], impl.fills[row[2]]
        self.error = None

    def point(self):
        self.clock += 1
        self.manager.current_hot_pixel_index = self.clock - 1
        return self.points[self.clock - 1]

    def new_bound(self, x, lean, k, d, side, **counters):
        impl = self.impl
        edge = impl.Edge(impl.Point(x, 0), impl.Point(x + lean, -1000))
        return impl.Bound(edges=[edge], current_edge_index=0, next_edge_index=1,
                          winding_delta=d, polygon_kind=impl.kinds[k],
                          side=impl.sides[side], **counters)

    def insert(self, p, k, d):
        """Like the local minimum at the place p (from 1)."""
        left = self.new_bound(0, -1, k, d, 0)
        right = self.new_bound(0, 1, k, -d, 1)
        self.bounds[p - 1:p - 1] = [left, right]
        self.impl.set_winding_count(p - 1, self.bounds, *self.fills)
        right = self.new_bound(0, 1, k, -d, 1, winding_count=left.winding_count,
                               opposite_winding_count=left.opposite_winding_count)
        self.bounds[p] = right
        if left.is_contributing(self.operation, *self.fills):
            self.both('add_local_minimum_point', p)

    def both(self, name, i):
        method = getattr(self.manager, name)
        if self.impl.name == 'P':
            method(self.point(), self.bounds[i - 1], self.bounds[i], self.bounds)
        else:
            method(self.point(), i - 1, i, self.bounds)

    def cross(self, i):
        method, bounds = self.manager.intersect_bounds, self.bounds
        if self.impl.name == 'P':
            method(self.point(), self.operation, *self.fills, bounds[i - 1], bounds[i], bounds)
        else:
            method(self.point(), self.operation, *self.fills, i - 1, i, bounds)
        bounds[i - 1], bounds[i] = bounds[i], bounds[i - 1]

    def end(self, i):
        if self.bounds[i - 1].ring is not None and self.bounds[i].ring is not None:
            self.both('add_local_maximum_point', i)
        del self.bounds[i - 1:i + 1]

    def act(self, name, arguments):
        if self.error is None:
            try:
                getattr(self, name)(*arguments)
            except Exception as error:
                self.error = type(error).__name__

    def state(self):
        """[own counter, other counter, ring or 0, is on the left side]"""
        if self.error is not None:
            return [self.error]
        return [[b.winding_count, b.opposite_winding_count,
                 0 if b.ring is None else b.ring.index + 1,
                 int(b.side == self.impl.sides[0])] for b in self.bounds]


class Steps:
    """Mixed into Run."""

    def do_sweep(self, event, position):
        points = [[impl.Point(k, -k) for k in range(1, event['steps'] + 2)] for impl in self.impls]
        self.sweeps = [[Abl(impl, row, ps) for impl, ps in zip(self.impls, points)]
                       for row in event['rows']]

    def swept(self, event, name, arguments):
        rows = []
        for pair in self.sweeps:
            def act():
                for abl in pair:
                    abl.act(name, arguments)
                return [] if event.get('quiet') else [abl.state() for abl in pair]
            rows.append(self.step(pair, act))
        if event.get('quiet'):      # shown in a shorter history
            return
        event['st'] = []
        event['of'] = []            # row -> index (from 1) of what it showed
        for value in rows:
            if value not in event['st']:
                event['st'].append(value)
            event['of'].append(event['st'].index(value) + 1)

    def step(self, pair, act):
        # a step changes the bounds, so it cannot run in a child only
        if self.fork:
            ok, value = self.call(act)
            if not ok:
                for abl in pair:
                    abl.error = value[0]
        ok, value = self.guarded(act)
        return value if ok else [[value[0]], [value[0]]]

    def do_insert(self, event, position):
        self.swept(event, 'insert', event['a'])

    def do_cross(self, event, position):
        self.swept(event, 'cross', event['a'])

    def do_end(self, event, position):
        self.swept(event, 'end', event['a'])

    # ------------------------------------------------- local minima of rings
    def do_minimums(self, event, position):
        if not hasattr(self, 'lists'):
            self.lists = [impl.Minimums() for impl in self.impls]
        for impl, minimums in zip(self.impls, self.lists):
            def act():
                ok = minimums.add_linear_ring(impl.ring(event['ring']), impl.kinds[event['k']])
                return bool(ok)

            def show():
                every = [minimums[i] for i in range(len(minimums))]
                bounds = [b for m in every for b in (m.left_bound, m.right_bound)]
                return {'ms': [self.read_minimum(impl, m, bounds) for m in every],
                        'beams': [whole(y) for y in minimums.scanbeams]}
            if self.fork:
                ok, value = self.call(act)
                if not ok:
                    event[impl.name] = {'err': value[0]}
                    continue
            ok, value = self.guarded(act)
            shown, state = self.guarded(show)
            if not ok or not shown:
                event[impl.name] = {'err': (value if not ok else state)[0]}
            else:
                event[impl.name] = dict(state, ok=value)

    def read_minimum(self, impl, minimum, bounds):
        return {'y': whole(minimum.y), 'h': bool(minimum.minimum_has_horizontal),
                'l': self.read_bound(impl, minimum.left_bound, bounds),
                'r': self.read_bound(impl, minimum.right_bound, bounds)}

    @staticmethod
    def read_bound(impl, bound, bounds):
        other = bound.maximum_bound
        return {'e': [[whole(v) for p in (e.bottom, e.top) for v in (p.x, p.y)]
                      for e in bound.edges],
                's': impl.sides.index(bound.side), 'd': bound.winding_delta,
                'k': impl.kinds.index(bound.polygon_kind),
                'm': next((i for i, b in enumerate(bounds, 1) if b is other), 0)}

    # ----------------------------------------------- stages of an operation
    def do_stages(self, event, position):
        event['res'], event['tab'], numbers = [], [], {}
        for row in event.pop('rows'):
            entry = list(row)
            for impl in self.impls:
                ok, value = self.call(lambda: self.run_stages(impl, event['rings'], row))
                shown = dict(value, ok=True) if ok else {'ok': False, 'err': value}
                key = json.dumps(shown)
                if key not in numbers:
                    event['res'].append(shown)
                    numbers[key] = len(event['res'])
                entry.append(numbers[key])
            event['tab'].append(entry)

    def run_stages(self, impl, rings, row):
        def swept():
            minimums = impl.Minimums()
            for kind, ring in rings:
                minimums.add_linear_ring(impl.ring(ring), impl.kinds[kind])
            manager = impl.Manager()
            if len(minimums):
                manager.build_hot_pixels(minimums)
                manager.execute_vatti(minimums, impl.operations[row[0]],
                                      impl.fills[row[1]], impl.fills[row[2]])
            return manager
        shown = {}
        manager = swept()
        shown['swept'] = [[point(p) for p in ring.points]
                          for ring in manager.rings if ring.points]
        manager.correct_orientations()
        shown['turned'] = self.read_tree(manager)
        manager = swept()
        manager.correct_topology()
        shown['plain'] = read_multipolygon(manager.build_result(False))
        shown['back'] = read_multipolygon(manager.build_result(True))
        shown['final'] = self.read_tree(manager)
        wagyu = impl.Wagyu(False)
        for kind, ring in rings:
            wagyu.add_linear_ring(impl.ring(ring), impl.kinds[kind])
        shown['whole'] = read_multipolygon(operate(impl, wagyu, row))
        return shown

    @staticmethod
    def read_tree(manager):
        def number(ring):
            return -1 if ring is None else ring.index
        return {'top': [r.index for r in manager.children if r is not None],
                'rings': [{'i': r.index, 'p': [point(p) for p in r.points],
                           'up': number(r.parent),
                           'ch': [c.index for c in r.children if c is not None],
                           'hole': bool(r.is_hole), 'depth': r.depth, 'size': r.size,
                           'area2': whole(2 * r.area),
                           'box': point(r.box.minimum) + point(r.box.maximum)}
                          for r in manager.rings if r.points]}

    # --------------------------------------------------------------- values
    def do_value(self, event, position):
        for impl in self.impls:
            if position == 1:
                impl.values = Values(impl)

            def act():
                return impl.values.act(event['do'], event['a'])
            ok, value = self.guarded(act)
            event[impl.name] = value if ok else {'err': value}

    # ------------------------------------------------ geometric decisions
    def do_ask(self, event, position):
        kind = event['kind']
        columns = []
        for impl in self.impls:
            asked = Asked(impl)

            def ask_all():
                return [self.guarded(lambda: getattr(asked, kind)(*arguments))
                        for arguments in event['q']]
            ok, value = self.call(ask_all)
            columns.append(value if ok else [[False, value]] * len(event['q']))
        event['q'] = [list(row) for row in zip(event['q'], *columns)]


class Values:
    """Values of one implementation; only the public API is used."""
    PARTS = {'ring': 'point', 'polygon': 'ring', 'multipolygon': 'polygon',
             'edge': 'point', 'box': 'point'}
    NAMES = {'ring': 'LinearRing', 'polygon': 'Polygon', 'multipolygon': 'Multipolygon',
             'edge': 'Edge', 'box': 'Box', 'point': 'Point'}

    def __init__(self, impl):
        self.impl = impl
        self.store, self.classes = [], []

    def kind(self, c):
        return self.impl.function(self.NAMES[c])

    def build(self, c, v):
        if c == 'point':
            return self.kind(c)(*v)
        return self.pack(c, [self.build(self.PARTS[c], part) for part in v])

    def pack(self, c, parts):
        return self.kind(c)(*parts) if c in ('edge', 'box') else self.kind(c)(parts)

    def show(self, c, value):
        if not isinstance(value, self.kind(c)):
            raise TypeError(c)
        if c == 'point':
            return point(value)
        if c == 'edge':
            return [point(value.bottom), point(value.top)]
        if c == 'box':
            return [point(value.minimum), point(value.maximum)]
        return [self.show(self.PARTS[c], value[i]) for i in range(len(value))]

    def act(self, name, arguments):
        missing = False
        touched = None
        if name == 'make':
            self.add(arguments[0], self.build(*arguments))
        elif name == 'pack':
            c, parts = arguments
            self.add(c, self.pack(c, [self.store[i - 1] for i in parts]))
        elif name == 'copy':
            i, how = arguments
            value = self.store[i - 1]
            if how == 'pickle':
                value = pickle.loads(pickle.dumps(value))
            else:
                value = getattr(copy, how)(value)
            self.add(self.classes[i - 1], value)
        elif name == 'take':
            touched, at = arguments
            try:
                item = self.store[touched - 1][at]
            except IndexError:
                missing = True
            else:
                self.add(self.PARTS[self.classes[touched - 1]], item)
        elif name == 'turn':
            touched = arguments[0]
            self.store[touched - 1].reverse_horizontal()
        elif name == 'grow':
            touched, points, along = arguments
            made = self.impl.function('Ring')(
                0, [], [self.impl.Point(x, y) for x, y in points], False)
            self.store[touched - 1].append(made, along)
        return self.look(touched or len(self.store), missing)

    def add(self, c, value):
        self.classes.append(c)
        self.store.append(value)

    def look(self, i, missing):
        value, c = self.store[i - 1], self.classes[i - 1]
        result = {'missing': missing,
                  'all': [self.show(d, other) for d, other in zip(self.classes, self.store)],
                  'alike': [[bool(x == y) for y in self.store] for x in self.store],
                  'unlike': [[bool(x != y) for y in self.store] for x in self.store],
                  'numbers': [whole(float(n)) for n in
                              re.findall(r'(?<![\w.])-?\d[\d.e+]*', repr(value))]}
        if c in ('ring', 'polygon', 'multipolygon'):
            part = self.PARTS[c]
            n = len(value)
            result['len'] = n
            result['items'] = []
            for at in range(-n - 1, n + 1):
                try:
                    result['items'].append([self.show(part, value[at])])
                except IndexError:
                    result['items'].append([])
            result['iter'] = [self.show(part, item) for item in value]
            result['within'] = [d == part and bool(other in value)
                                for d, other in zip(self.classes, self.store)]
        return result


def fix(value):
    """i + f / 1024, rounded."""
    if value != value or abs(value) > 1 << 20:
        return [LIMIT, 0]
    return list(divmod(round(value * 1024), 1024))


class Asked:
    """Questions to the parts of one implementation."""

    def __init__(self, impl):
        self.impl = impl
        self.port = impl.name == 'P'

    def __getattr__(self, name):
        return self.impl.function(name)

    def points(self, *points):
        return [self.impl.Point(x, y) for x, y in points]

    def edge_of(self, p, q):
        return self.impl.Edge(*self.points(p, q))

    def edge(self, p, q):
        e = self.edge_of(p, q)
        return [point(e.bottom), point(e.top), bool(e.is_horizontal)]

    def flip(self, p, q):
        e = self.edge_of(p, q)
        e.reverse_horizontal()
        return [point(e.bottom), point(e.top)]

    def crossing(self, p, q, r, s):
        found = self.edge_of(p, q) & self.edge_of(r, s)
        return [] if found is None else [fix(found.x), fix(found.y)]

    def parallel(self, p, q, r, s):
        return bool(self.are_edges_slopes_equal(self.edge_of(p, q), self.edge_of(r, s)))

    def straight(self, p, q, r):
        return bool(self.are_points_slopes_equal(*self.points(p, q, r)))

    def between(self, p, q, r):
        return bool(self.is_point_between_others(*self.points(p, q, r)))

    def row(self, p, q, y):
        e = self.edge_of(p, q)
        x = [0, 0] if p[1] == q[1] else fix(e.get_current_x(y))
        return [x, whole(e.get_min_x(y)), whole(e.get_max_x(y))]

    def box_of(self, x, y, z, t):
        return self.impl.function('Box')(*self.points((x, y), (z, t)))

    def box(self, inner, outer):
        return bool(self.box_of(*inner).inside_of(self.box_of(*outer)))

    def round(self, k):
        return [whole(self.round_towards_min(k / 4)), whole(self.round_towards_max(k / 4))]

    def ring_of(self, points):
        result = self.impl.function('Ring')(0, [], self.points(*points), False)
        result.recalculate_stats()
        return result

    def ring(self, points):
        r = self.ring_of(points)
        scan = r.sorted_nodes if self.port else r.sorted_points
        return [whole(2 * r.area), r.size, point(r.box.minimum) + point(r.box.maximum),
                bool(r.is_hole), read_ring(r.points), read_ring(scan)]

    def inside(self, points, others):
        return bool(self.ring_of(points).inside_of(self.ring_of(others)))

    def edges(self, points):
        return [point(e.bottom) + point(e.top) for e in self.impl.ring(points).edges]

    def sort(self, items, descending):
        swaps = []

        def in_order(left, right):
            return left[0] >= right[0] if descending else left[0] <= right[0]

        result = self.bubble_sort([tuple(i) for i in items], in_order,
                                  lambda left, right: swaps.append([list(left), list(right)]))
        return [swaps, [list(i) for i in result]]

    def bounds_at(self, edges, y):
        impl = self.impl
        bounds = []
        for bottom, top in edges:
            e = self.edge_of(bottom, top)
            bounds.append(impl.Bound(
                edges=[e], current_edge_index=0, next_edge_index=1,
                current_x=e.get_current_x(y), winding_delta=1, polygon_kind=impl.kinds[0],
                side=impl.sides[0]))
        return bounds

    def meet(self, edges, y):
        bounds = self.bounds_at(edges, y)
        names = {}
        for i, ((bottom, top), bound) in enumerate(zip(edges, bounds), 1):
            names[tuple(bottom + top)] = i

        def name(bound):
            e = bound.current_edge
            return names.get(tuple(point(e.bottom) + point(e.top)), 0)
        order, nodes = self.build_intersect_list(bounds)
        return [[name(b) for b in order],
                [[name(n.first_bound), name(n.second_bound), fix(n.point.x), fix(n.point.y)]
                 for n in nodes]]

    def place(self, edges, new, y):
        bounds = self.bounds_at(edges, y)
        left, right = self.bounds_at([new, new], y)
        answer = self.insert_bound_into_abl(left, right, bounds)
        index = answer if self.port else answer[1]
        listed = bounds if self.port else answer[0]
        if not (len(listed) == len(edges) + 2 and listed[index] is left
                and listed[index + 1] is right):
            return -1
        return index
