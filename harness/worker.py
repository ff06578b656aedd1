"""Drives the real code.  Runs under the repository's interpreter.

argv: directories to put in front of sys.path (the directory of the freshly
compiled binding, when the one in the repository is stale, and the repository).
Reads one JSON request per line on stdin, writes one JSON reply per line on
a private copy of stdout.  It only executes and records; it judges nothing.
"""
import json
import os
import resource
import signal
import sys

for directory in reversed(sys.argv[1:]):
    sys.path.insert(0, directory)
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
sys.dont_write_bytecode = True
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

from reading import operate, point, read_multipolygon, read_ring  # noqa: E402
import _wagyu as B                                          # noqa: E402
import wagyu.enums as penums                                # noqa: E402
from wagyu.bound import Bound as PBound                     # noqa: E402
from wagyu.edge import Edge as PEdge                        # noqa: E402
from wagyu.linear_ring import LinearRing as PLinearRing     # noqa: E402
from wagyu.local_minimum import LocalMinimumList as PLocalMinimumList  # noqa
from wagyu.point import Point as PPoint                     # noqa: E402
from wagyu.polygon import Polygon as PPolygon               # noqa: E402
from wagyu.ring_manager import RingManager as PRingManager  # noqa: E402
from wagyu.wagyu import Wagyu as PWagyu                     # noqa: E402

OPERATION_KINDS = ['INTERSECTION', 'UNION', 'DIFFERENCE', 'XOR']
FILLS = ['EVEN_ODD', 'NON_ZERO', 'POSITIVE', 'NEGATIVE']
KINDS = ['SUBJECT', 'CLIP']
TIME_LIMIT = 20
# where the port keeps what the binding has at its top
HOMES = {'are_edges_slopes_equal': 'edge', 'are_points_slopes_equal': 'point',
         'is_point_between_others': 'point', 'round_towards_min': 'utils',
         'round_towards_max': 'utils', 'bubble_sort': 'bubble_sort',
         'build_intersect_list': 'intersect_node', 'insert_bound_into_abl': 'bound',
         'Box': 'box', 'Ring': 'ring', 'Point': 'point', 'Edge': 'edge',
         'LinearRing': 'linear_ring', 'Polygon': 'polygon', 'Multipolygon': 'polygon'}


class Expired(BaseException):
    pass


def expire(*_):
    raise Expired()


signal.signal(signal.SIGALRM, expire)


class Impl:
    def __init__(self, name):
        self.name = name
        self.objects = {}
        if name == 'P':
            self.Wagyu, self.Ring, self.Point = PWagyu, PLinearRing, PPoint
            self.Polygon = PPolygon
            self.kinds = [getattr(penums.PolygonKind, k) for k in KINDS]
            self.fills = [getattr(penums.FillKind, k) for k in FILLS]
            self.Minimums, self.Manager = PLocalMinimumList, PRingManager
            self.Edge, self.Bound = PEdge, PBound
            self.operations = [getattr(penums.OperationKind, k) for k in OPERATION_KINDS]
            self.sides = [penums.EdgeSide.LEFT, penums.EdgeSide.RIGHT]
        else:
            self.Wagyu, self.Ring, self.Point = B.Wagyu, B.LinearRing, B.Point
            self.Polygon = B.Polygon
            self.kinds = [getattr(B.PolygonKind, k) for k in KINDS]
            self.fills = [getattr(B.FillKind, k) for k in FILLS]
            self.Minimums, self.Manager = B.LocalMinimumList, B.RingManager
            self.Edge, self.Bound = B.Edge, B.Bound
            self.operations = [getattr(B.OperationKind, k) for k in OPERATION_KINDS]
            self.sides = [B.EdgeSide.LEFT, B.EdgeSide.RIGHT]

    def __getattr__(self, name):
        # parts of the clipper that only some checks need
        if name == 'set_winding_count':
            if self.name == 'B':
                return B.set_winding_count
            from wagyu.bound import set_winding_count
            return set_winding_count
        raise AttributeError(name)

    def function(self, name):
        """Questions are put to these; only C16 needs them."""
        if self.name == 'B':
            return getattr(B, name)
        import importlib
        return getattr(importlib.import_module('wagyu.' + HOMES[name]), name)

    def ring(self, points):
        return self.Ring([self.Point(x, y) for x, y in points])

    def polygon(self, rings):
        return self.Polygon([self.ring(r) for r in rings])


def guarded(function):
    """Calls the function; an exception becomes [class, message]."""
    signal.alarm(TIME_LIMIT)
    try:
        try:
            return True, function()
        finally:
            signal.alarm(0)
    except Expired:
        return False, ['HANG', '']
    except Exception as error:
        return False, [type(error).__name__, str(error).rstrip('.')[:200]]


def isolated(function):
    """Calls the function in a forked child: survives crashes and hangs."""
    read_end, write_end = os.pipe()
    child = os.fork()
    if not child:
        try:
            os.close(read_end)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(TIME_LIMIT)
            try:
                reply = [True, function()]
            except Exception as error:
                reply = [False, [type(error).__name__, str(error).rstrip('.')[:200]]]
            with os.fdopen(write_end, 'w') as stream:
                json.dump(reply, stream)
        finally:
            os._exit(0)
    os.close(write_end)
    with os.fdopen(read_end) as stream:
        text = stream.read()
    _, status = os.waitpid(child, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGALRM:
            return False, ['HANG', '']
        return False, ['CRASH', 'signal %d' % os.WTERMSIG(status)]
    try:
        ok, value = json.loads(text)
        return ok, value
    except ValueError:
        return False, ['CRASH', 'no answer']


from steps import Steps                                     # noqa: E402


class Run(Steps):
    guarded = staticmethod(guarded)

    def __init__(self, fork):
        self.impls = [Impl('P'), Impl('B')]
        self.call = isolated if fork else guarded
        self.fork = fork
        self.kept = {}

    def answer(self, function):
        ok, value = self.call(function)
        return value if ok else value[:1]

    def play(self, script):
        events = []
        for position, event in enumerate(script, 1):
            event = dict(event)
            getattr(self, 'do_' + event['e'].replace(' ', '_'))(event, position)
            events.append(event)
        return events

    def do_new(self, event, position):
        for impl in self.impls:
            impl.objects[event['o']] = impl.Wagyu(event['rev'])

    def mutate(self, impl, function):
        # additions change the object, they cannot run in a child; they are
        # tried there first when isolation is asked for
        if self.fork:
            ok, value = isolated(lambda: (function(), None)[1])
            if not ok and value[0] in ('CRASH', 'HANG'):
                return [value[0]]
        ok, value = guarded(function)
        return value if ok else value[:1]

    def do_add(self, event, position):
        kept = []
        for impl in self.impls:
            wagyu = impl.objects[event['o']]
            ring = impl.ring(event['ring'])
            kept.append(ring)
            event[impl.name] = self.mutate(
                impl, lambda: bool(wagyu.add_linear_ring(ring, impl.kinds[event['k']])))
        self.kept[position] = kept

    def do_addp(self, event, position):
        kept = []
        for impl in self.impls:
            wagyu = impl.objects[event['o']]
            polygon = impl.polygon(event['rings'])
            kept.append(polygon)
            event[impl.name] = self.mutate(
                impl, lambda: bool(wagyu.add_polygon(polygon, impl.kinds[event['k']])))
        self.kept[position] = kept

    def do_clear(self, event, position):
        for impl in self.impls:
            impl.objects[event['o']].clear()

    def do_bounds(self, event, position):
        kept = []
        for impl in self.impls:
            def read():
                box = impl.objects[event['o']].bounds
                kept.append(box)
                return point(box.minimum) + point(box.maximum)
            event[impl.name] = self.answer(read)
        self.kept[position] = kept

    def do_ops(self, event, position):
        results, numbers, table, kept = [], {}, [], {}
        for row in event.pop('combos'):
            entry = list(row)
            for impl in self.impls:
                wagyu = impl.objects[event['o']]
                live = []

                def run():
                    result = operate(impl, wagyu, row)
                    live.append(result)
                    return read_multipolygon(result)
                ok, value = self.call(run)
                result = ({'ok': True, 'polys': value} if ok
                          else {'ok': False, 'err': value})
                key = json.dumps(result)
                if key not in numbers:
                    results.append(result)
                    numbers[key] = len(results)
                if live and ok:
                    kept[(numbers[key], impl.name)] = live[0]
                entry.append(numbers[key])
            table.append(entry)
        event['res'], event['tab'] = results, table
        self.kept[position] = kept

    def do_hot(self, event, position):
        for impl in self.impls:
            def run():
                minimums = impl.Minimums()
                for kind, ring in event['rings']:
                    minimums.add_linear_ring(impl.ring(ring), impl.kinds[kind])
                manager = impl.Manager()
                manager.build_hot_pixels(minimums)
                return [point(p) for p in manager.hot_pixels]
            event[impl.name] = self.answer(run)
        del event['rings']

    def do_relate(self, event, position):
        pass

    def do_laws(self, event, position):
        pass

    def do_swept(self, event, position):
        pass

    def do_reread(self, event, position):
        kept = self.kept[event['at']]
        kind = event.pop('of')
        if kind == 'ops':
            results = [dict(r) for r in event.pop('res')]
            for (k, _), live in kept.items():
                now = read_multipolygon(live)
                if now != results[k - 1].get('polys'):
                    results[k - 1] = {'ok': True, 'polys': now}
            event['res'] = results
            return
        for impl, value in zip(self.impls, kept):
            if kind == 'add':
                event[impl.name] = read_ring(value)
            elif kind == 'addp':
                event[impl.name] = [read_ring(r) for r in value]
            else:
                event[impl.name] = point(value.minimum) + point(value.maximum)


def play(script, fork):
    run = Run(fork)
    events = []
    for position, event in enumerate(script, 1):
        event = dict(event)
        if event['e'] == 'reread':
            old = events[event['at'] - 1]
            event['of'] = old['e']
            if old['e'] == 'ops':
                event['res'] = old['res']
        getattr(run, 'do_' + event['e'])(event, position)
        events.append(event)
    return events


def screen(case):
    """Runs one operation in both implementations; how do the answers look?"""
    subj, clip, row = case[:3]
    answers = []
    for impl in (Impl('P'), Impl('B')):
        def run():
            wagyu = impl.Wagyu(False)
            for ring in subj:
                wagyu.add_linear_ring(impl.ring(ring), impl.kinds[0])
            for ring in clip:
                wagyu.add_linear_ring(impl.ring(ring), impl.kinds[1])
            return read_multipolygon(operate(impl, wagyu, row))
        answers.append(guarded(run))
    (okp, p), (okb, b) = answers
    odd = not okp or not okb or p != b
    shape = ([len(b), sum(len(x) - 1 for x in b),
              sum(len(r) for x in b for r in x)] if okb else [-1, -1, -1])
    return [odd, shape]


def main():
    for line in sys.stdin:
        request = json.loads(line)
        kind = request['kind']
        if kind == 'play':
            reply = play(request['script'], request.get('fork', False))
        else:
            reply = [screen(c) for c in request['cases']]
        out.write(json.dumps(reply))
        out.write('\n')
        out.flush()


if __name__ == '__main__':
    main()
