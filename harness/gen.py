"""Inputs and histories.  Everything is a function of a random.Random; the
shapes aim at the places where clipping is delicate: shared vertices and
edges, touching rings, horizontals, slivers, many local extremes, redundant
vertices, far translations and large extents."""
from math import gcd

ALL = [[op, sf, cf] for op in range(4) for sf in range(4) for cf in range(4)]


# ------------------------------------------------------------------ helpers
def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def normal(ring):
    """Only used to choose inputs; the specification has its own."""
    ring = [tuple(p) for p in ring]
    i = 0
    while ring and i < len(ring):
        if cross(ring[i - 1], ring[i], ring[(i + 1) % len(ring)]) == 0:
            del ring[i]
            i = max(i - 2, 0) if i < len(ring) else 0
        else:
            i += 1
    return ring


def edges_of(rings):
    result = []
    for ring in rings:
        ring = normal(ring)
        for i in range(len(ring)):
            result.append((ring[i - 1], ring[i]))
    return result


def tie_free(rings, margin=None):
    """No crossing of the edges has a coordinate that is a half-integer (or
    comes nearer to one than the margin)."""
    es = edges_of(rings)
    for i, (a, b) in enumerate(es):
        dx, dy = b[0] - a[0], b[1] - a[1]
        for c, d in es[:i]:
            if (max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0])
                    or max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1])):
                continue
            ex, ey = d[0] - c[0], d[1] - c[1]
            den = dx * ey - dy * ex
            if not den:
                continue
            s = (c[0] - a[0]) * ey - (c[1] - a[1]) * ex
            t = (c[0] - a[0]) * dy - (c[1] - a[1]) * dx
            if den < 0:
                den, s, t = -den, -s, -t
            if s < 0 or s > den or t < 0 or t > den:
                continue
            for n in (s * dx, s * dy):
                r = (2 * n - den) % (2 * den)
                if not r:
                    return False
                if margin is not None and min(r, 2 * den - r) < 2 * den * margin:
                    return False
    return True


def extent(rings):
    xs = [p[0] for r in rings for p in r] or [0]
    ys = [p[1] for r in rings for p in r] or [0]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def shift(rings, dx, dy):
    return [[[x + dx, y + dy] for x, y in r] for r in rings]


# ------------------------------------------------------------------- shapes
def grid_ring(rnd, n, most=7):
    return [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(3, most))]


def grid(rnd):
    n = rnd.choice([3, 4, 5, 6, 8, 12, 20, 40])
    return [[grid_ring(rnd, n) for _ in range(rnd.randint(0, 2) or 1)] for _ in range(2)]


def tiny(rnd):
    n = rnd.choice([2, 3, 4])
    return [[grid_ring(rnd, n, 8) for _ in range(rnd.randint(1, 3))] for _ in range(2)]


def scaled(rnd):
    n, m = rnd.choice([(3, 10), (4, 6), (4, 20), (5, 3), (6, 7), (8, 12)])
    jitter = rnd.choice([0, 0, 1, 1, 2])
    return [[[[x * m + rnd.randint(-jitter, jitter), y * m + rnd.randint(-jitter, jitter)]
              for x, y in grid_ring(rnd, n, 9)] for _ in range(rnd.randint(1, 3))]
            for _ in range(2)]


def walk_ring(rnd, n, step):
    """An axis-parallel closed walk (an integral coordinate at every crossing)."""
    xs = [rnd.randint(0, n) * step for _ in range(rnd.randint(2, 5))]
    ys = [rnd.randint(0, n) * step for _ in range(len(xs))]
    ring = []
    for i in range(len(xs)):
        ring.append([xs[i], ys[i]])
        ring.append([xs[(i + 1) % len(xs)], ys[i]])
    return ring


def rectangles(rnd):
    n, step = rnd.choice([(4, 1), (6, 1), (10, 3), (20, 1)])

    def one():
        if rnd.random() < .5:
            return walk_ring(rnd, n, step)
        x, y = rnd.randint(0, n - 1), rnd.randint(0, n - 1)
        u, v = rnd.randint(x + 1, n), rnd.randint(y + 1, n)
        ring = [[x * step, y * step], [u * step, y * step],
                [u * step, v * step], [x * step, v * step]]
        return ring if rnd.random() < .7 else ring[::-1]
    return [[one() for _ in range(rnd.randint(1, 4))] for _ in range(2)]


def octilinear(rnd):
    """Directions multiple of 45 degrees on even coordinates: tie-free."""
    n = rnd.choice([3, 4, 6])

    def one():
        kind = rnd.randrange(3)
        x, y, r = 2 * rnd.randint(0, n), 2 * rnd.randint(0, n), 2 * rnd.randint(1, n)
        if kind == 0:
            ring = [[x + r, y], [x, y + r], [x - r, y], [x, y - r]]
        elif kind == 1:
            ring = [[x, y], [x + r, y], [x + r, y + r]]
            if rnd.random() < .5:
                ring = [[x, y], [x + 2 * r, y], [x + r, y + r * rnd.choice([1, -1])]]
        else:
            ring = [[x, y], [x + r, y], [x + r, y + r], [x, y + r]]
        return ring if rnd.random() < .6 else ring[::-1]
    return [[one() for _ in range(rnd.randint(1, 5))] for _ in range(2)]


def checkers(rnd):
    """Unit cells of a board, touching at corners: chains of touching holes."""
    n, step = rnd.choice([3, 4, 5]), rnd.choice([1, 2, 4])
    cells = [(i, j) for i in range(n) for j in range(n)]
    rnd.shuffle(cells)

    def square(i, j, k=1):
        r = [[i * step, j * step], [(i + k) * step, j * step],
             [(i + k) * step, (j + k) * step], [i * step, (j + k) * step]]
        return r if rnd.random() < .5 else r[::-1]

    def diamond(i, j):
        c = step * 2
        return [[(2 * i + 1) * c, 2 * j * c], [(2 * i + 2) * c, (2 * j + 1) * c],
                [(2 * i + 1) * c, (2 * j + 2) * c], [2 * i * c, (2 * j + 1) * c]]
    if rnd.random() < .3:
        subj = [diamond(*c) for c in cells[:rnd.randint(3, 8)]]
        c = step * 4
        clip = [[[-c, -c], [c * (n + 1), -c], [c * (n + 1), c * (n + 1)], [-c, c * (n + 1)]]]
        return [subj, clip] if rnd.random() < .5 else [clip, subj]
    k = rnd.randint(2, 7)
    subj = [square(*c) for c in cells[:k]]
    clip = [square(*c) for c in cells[k - 1:k + rnd.randint(1, 5)]]
    if rnd.random() < .5:
        clip.append(square(0, 0, n))
    if rnd.random() < .3:
        subj.append(square(-1, -1, n + 2))
    return [subj, clip]


def star(rnd, n, radius, cx, cy):
    points = []
    for _ in range(n):
        r = rnd.randint(radius // 4 + 1, radius)
        x = rnd.randint(-r, r)
        y = rnd.choice([-1, 1]) * rnd.randint(0, r)
        points.append((x, y))
    from math import atan2
    points = sorted({p for p in points if p != (0, 0)}, key=lambda p: (atan2(p[1], p[0]), p))
    return [[cx + x, cy + y] for x, y in points]


def comb(rnd, teeth, horizontal):
    ring, x = [[0, 0]], 0
    for _ in range(teeth):
        top = rnd.randint(5, 30)
        ring += [[x, top], [x + 2, top if rnd.random() < .5 else top - 1], [x + 2, rnd.randint(0, 3)]]
        x += 4
        ring.append([x, rnd.randint(0, 3)])
    ring.append([x, 0])
    ring.append([x, -3])
    ring.append([0, -3])
    return [[y, x] for x, y in ring] if horizontal else ring


def elaborate(rnd):
    """Rings of 15 to 40 vertices: stars, combs, tangled walks."""
    def one():
        kind = rnd.randrange(3)
        if kind == 0:
            return star(rnd, rnd.randint(8, 24), rnd.choice([10, 40, 150]),
                        rnd.randint(-20, 20), rnd.randint(-20, 20))
        if kind == 1:
            return shift([comb(rnd, rnd.randint(2, 7), rnd.random() < .5)],
                         rnd.randint(-5, 15), rnd.randint(-5, 15))[0]
        n = rnd.choice([8, 30])
        return [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(9, 14))]
    return [[one()], [one()] if rnd.random() < .8 else [one(), grid_ring(rnd, 30)]]


def nested(rnd):
    step = rnd.choice([1, 2, 5])
    sets = [[], []]
    depth = rnd.randint(2, 6)
    for k in range(depth):
        r = (depth - k) * step
        ring = ([[-r, -r], [r, -r], [r, r], [-r, r]] if rnd.random() < .6 else
                [[-r, 0], [0, -r], [r, 0], [0, r]])
        if rnd.random() < .5:
            ring = ring[::-1]
        sets[rnd.randrange(2)].append(shift([ring], rnd.randint(0, 1), rnd.randint(0, 1))[0])
    if rnd.random() < .6:
        n = depth * step
        sets[1].append(shift([grid_ring(rnd, 2 * n)], -n, -n)[0])
    return sets


def slivers(rnd):
    n = rnd.choice([60, 200, 400])

    def one():
        x, y = rnd.randint(0, n), rnd.randint(0, n)
        u, v = rnd.randint(0, n), rnd.randint(0, n)
        ring = [[x, y], [u, v], [u + rnd.randint(-2, 2), v + rnd.randint(-2, 2)]]
        if rnd.random() < .5:
            ring.append([x + rnd.randint(-2, 2), y + rnd.randint(-2, 2)])
        return [[min(max(a, 0), n), min(max(b, 0), n)] for a, b in ring]
    return [[one() for _ in range(rnd.randint(1, 3))] for _ in range(2)]


def many(rnd):
    n = rnd.choice([10, 20, 40])
    r = rnd.choice([2, 4, 8])

    def one():
        x, y = rnd.randint(0, n), rnd.randint(0, n)
        return [[x + rnd.randint(0, r), y + rnd.randint(0, r)] for _ in range(rnd.randint(3, 4))]
    return [[one() for _ in range(rnd.randint(4, 9))] for _ in range(2)]


def pool(rnd):
    n = rnd.choice([3, 6, 12, 30])
    points = [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(4, 7))]
    return [[[list(rnd.choice(points)) for _ in range(rnd.randint(3, 8))]
             for _ in range(rnd.randint(1, 3))] for _ in range(2)]


def flat(rnd):
    """Many horizontal edges, few different heights, odd widths."""
    ys = rnd.sample(range(0, 12), 3)
    return [[[[rnd.randint(0, 14), rnd.choice(ys)] for _ in range(rnd.randint(3, 8))]
             for _ in range(rnd.randint(1, 2))] for _ in range(2)]


def steep(rnd):
    """Many vertical edges, few different abscissas."""
    return [[[[y, x] for x, y in r] for r in rs] for rs in flat(rnd)]


def ladder(rnd):
    """Hole chains: a big ring with pieces that touch it and each other."""
    s = rnd.choice([2, 4, 6])
    k = rnd.randint(2, 5)
    outer = [[0, 0], [(k + 1) * 2 * s, 0], [(k + 1) * 2 * s, 6 * s], [0, 6 * s]]
    pieces = []
    for i in range(k + 1):
        x, y = i * 2 * s, 2 * s + rnd.choice([0, 0, s])
        kind = rnd.randrange(3)
        if kind == 0:
            pieces.append([[x, y], [x + s, y - s], [x + 2 * s, y], [x + s, y + s]])
        elif kind == 1:
            pieces.append([[x, y], [x + 2 * s, y], [x + s, y + s]])
        else:
            pieces.append([[x, y], [x + 2 * s, y], [x + 2 * s, y + s], [x, y + s]])
    if rnd.random() < .5:
        pieces.append([[s, 0], [2 * s, 2 * s], [0, 2 * s]])
    rnd.shuffle(pieces)
    sets = [[outer], pieces]
    if rnd.random() < .3:
        sets = [[outer] + pieces[:2], pieces[2:]]
    if rnd.random() < .3:
        sets = sets[::-1]
    return sets


def through(rnd, x, y, q, n):
    """An edge through (x / q, y / q), possibly far from its ends."""
    while True:
        b = [rnd.randint(-n, n), rnd.randint(-n, n)]
        w = [x - q * b[0], y - q * b[1]]
        g = gcd(*w)
        if not g:
            continue
        w = [w[0] // g, w[1] // g]
        k = -(-g // q) + rnd.randint(0, 1)
        t = [b[0] + k * w[0], b[1] + k * w[1]]
        if t != b and max(map(abs, t)) <= 240:
            return [b, t]


def crossroads(rnd):
    """Edges that cross at one point, which need not be integral."""
    n = rnd.choice([4, 6, 10, 20, 60, 200])
    q = rnd.choice([1, 3, 3, 5, 7])
    x, y = rnd.randint(-q, 2 * q), rnd.randint(-q, q)
    sets = [[], []]
    for _ in range(rnd.randint(2, 4)):
        e = through(rnd, x, y, q, n)
        rest = (through(rnd, x, y, q, n) if rnd.random() < .5
                else [[rnd.randint(-n, n), rnd.randint(-n, n)]])
        sets[rnd.randrange(2)].append(e + rest)
    if q == 1:
        for _ in range(rnd.randint(0, 2)):
            sets[rnd.randrange(2)].append(
                [[x, y]] + [[rnd.randint(-n, n), rnd.randint(-n, n)] for _ in range(2)])
    return sets


def starts(rnd):
    """Rings whose lowest point is on edges of others."""
    n = rnd.choice([6, 12, 30])
    x, y = rnd.randint(-9, 11), rnd.randint(-9, 30)
    sets = [[], []]
    for _ in range(rnd.randint(1, 3)):
        dx, dy = rnd.randint(-20, 20), rnd.randint(1, 20)
        most = max(1, min(n, 200 // max(abs(dx), dy)))
        k, m = rnd.randint(1, most), rnd.randint(1, most)
        b = [x - k * dx, y + k * dy]
        sets[rnd.randrange(2)].append([b, [x + m * dx, y - m * dy],
                                       [b[0] + rnd.randint(-60, 60), b[1] + rnd.randint(-60, 60)]])
    for _ in range(rnd.randint(1, 2)):
        sets[rnd.randrange(2)].append(
            [[x, y]] + [[x + rnd.randint(-30, 30), y - rnd.randint(1, 30)] for _ in range(2)])
    return sets


def one_sided(rnd):
    sets = rnd.choice([grid, scaled, rectangles, pool, checkers])(rnd)
    sets[rnd.randrange(2)] = []
    return sets


def snapping(rnd):
    """Crossings that fall close to other vertices and edges."""
    n = rnd.choice([7, 15, 31])

    def one():
        return [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(3, 5))]
    sets = [[one() for _ in range(rnd.randint(1, 3))] for _ in range(2)]
    es = edges_of(sets[0] + sets[1])
    near = []
    for (a, b) in es:
        for _ in range(2):
            t = rnd.random()
            near.append([round(a[0] + t * (b[0] - a[0])) + rnd.choice([0, 0, 1, -1]),
                         round(a[1] + t * (b[1] - a[1])) + rnd.choice([0, 0, 1, -1])])
    if len(near) >= 3:
        sets[rnd.randrange(2)].append([list(rnd.choice(near)) for _ in range(rnd.randint(3, 5))])
    return sets


def wide(rnd):
    """Extents up to two million: long edges, far away crossings."""
    n = rnd.choice([2000, 30000, 400000, 1000000])
    sets = [[[[rnd.randint(-n, n), rnd.randint(-n, n)] for _ in range(rnd.randint(3, 6))]
             for _ in range(rnd.randint(1, 2))] for _ in range(2)]
    if rnd.random() < .4:
        ring = [list(p) for p in rnd.choice(sets[0])]
        for p in ring:
            if rnd.random() < .5:
                p[rnd.randrange(2)] += rnd.randint(-3, 3)
        sets[1].append([[max(-n, min(n, c)) for c in p] for p in ring])
    return sets


EXACT = [grid, tiny, scaled, rectangles, octilinear, checkers, elaborate, nested, slivers,
         many, pool, flat, steep, ladder, one_sided, snapping, crossroads, starts]
HEAVY = {elaborate, many}


STORIES = []      # sweep histories drawn as rings, see stories.py


def swept(rnd):
    rings = rnd.choice(STORIES)['rings']
    mapped = rnd.choice([lambda x, y: [x, y], lambda x, y: [y, x], lambda x, y: [-x, y],
                         lambda x, y: [x, -y], lambda x, y: [-y, x]])
    return [[[mapped(x, y) for x, y in r] for k, r in rings if k == kind] for kind in range(2)]


def use_stories(found):
    STORIES[:] = found
    if found and swept not in EXACT:
        EXACT.extend([swept, swept])


def redundant_ring(rnd, ring, closed=True):
    """The same ring with repeated and collinear vertices and spikes."""
    ring = [list(p) for p in ring]
    result = []
    for i, p in enumerate(ring):
        q = ring[(i + 1) % len(ring)]
        result.append(list(p))
        for _ in range(rnd.choice([0, 0, 1, 2])):
            kind = rnd.randrange(3)
            if kind == 0:
                result.append(list(result[-1]))
            elif kind == 1:
                dx, dy = q[0] - p[0], q[1] - p[1]
                g = gcd(dx, dy)
                if g > 1:
                    k = rnd.randint(1, g - 1)
                    result.append([p[0] + dx // g * k, p[1] + dy // g * k])
            else:
                back = list(result[-1])
                result.append([back[0] + rnd.randint(-4, 4), back[1] + rnd.randint(-4, 4)])
                result.append(back)
    if closed and rnd.random() < .6:
        result.append(list(result[0]))
    return result


def place(rnd, sets):
    """Sometimes far from the origin."""
    k = rnd.random()
    if k < .7:
        return sets
    n = rnd.choice([7, 1000, 10 ** 6 - 500])
    dx, dy = rnd.randint(-n, n), rnd.choice([-n, n, rnd.randint(-n, n)])
    return [shift(rs, dx, dy) for rs in sets]


def case(rnd, shapes=EXACT, want_tie_free=None, limit=None):
    """(subject rings, clip rings, name of the shape)."""
    while True:
        shape = rnd.choice(shapes)
        sets = shape(rnd)
        if shape is not wide:
            sets = place(rnd, sets)
            if extent(sets[0] + sets[1]) > 480:
                continue
        if rnd.random() < .15:
            sets = [[redundant_ring(rnd, r) for r in rs] for rs in sets]
        if limit and sum(len(r) for rs in sets for r in rs) > limit:
            continue
        if want_tie_free and not tie_free(sets[0] + sets[1],
                                          1e-3 if shape is wide else None):
            continue
        return sets[0], sets[1], shape.__name__


def sample_points(rnd, rings, count):
    """Doubled coordinates of points around the input."""
    if not rings:
        return [[rnd.randint(-9, 9), rnd.randint(-9, 9)] for _ in range(count)]
    points = [p for r in rings for p in r]
    es = edges_of(rings)
    result = []
    lo_x, hi_x = min(p[0] for p in points), max(p[0] for p in points)
    lo_y, hi_y = min(p[1] for p in points), max(p[1] for p in points)
    for i in range(count):
        kind = i % 4
        if kind == 0 or not es:
            result.append([rnd.randint(2 * lo_x - 4, 2 * hi_x + 4),
                           rnd.randint(2 * lo_y - 4, 2 * hi_y + 4)])
        elif kind == 1:
            a, b = rnd.choice(es)
            result.append([a[0] + b[0] + rnd.randint(-4, 4), a[1] + b[1] + rnd.randint(-4, 4)])
        elif kind == 2:
            p, q, r = rnd.choice(points), rnd.choice(points), rnd.choice(points)
            result.append([2 * (p[0] + q[0] + r[0]) // 3, 2 * (p[1] + q[1] + r[1]) // 3])
        else:
            p = rnd.choice(points)
            result.append([2 * p[0] + rnd.randint(-6, 6), 2 * p[1] + rnd.randint(-6, 6)])
    return [p for k, p in enumerate(result) if p not in result[:k]]


# ---------------------------------------------------------------- histories
def additions(rnd, o, subj, clip, polygons=True):
    """Events that add the rings, ring by ring or as polygons, interleaved."""
    events = []
    queue = []
    for k, rings in enumerate((subj, clip)):
        i = 0
        part = []
        while i < len(rings):
            if polygons and rnd.random() < .25:
                m = rnd.randint(1, 3)
                part.append({'e': 'addp', 'o': o, 'k': k, 'rings': rings[i:i + m]})
                i += m
            else:
                part.append({'e': 'add', 'o': o, 'k': k, 'ring': rings[i]})
                i += 1
        queue.append(part)
    while queue[0] or queue[1]:
        part = queue[rnd.randrange(2)]
        if part:
            events.append(part.pop(0))
    return events


def ops(o, combos, points=()):
    return {'e': 'ops', 'o': o, 'combos': combos, 'pts': list(points)}


def plain(rnd, subj, clip, combos, points=20, rev=False):
    return ([{'e': 'new', 'o': 1, 'rev': rev}] + additions(rnd, 1, subj, clip)
            + [ops(1, combos, sample_points(rnd, subj + clip, points))])


DEGENERATE = [[], [[0, 0]], [[1, 2], [3, 4]], [[0, 0], [2, 2], [4, 4]],
              [[0, 0], [3, 1], [0, 0], [3, 1]], [[5, 5], [5, 5], [5, 5], [5, 5]],
              [[0, 0], [4, 0], [4, 3], [4, 0]], [[0, 0], [2, 0], [2, 2], [2, 0], [0, 0]],
              [[0, 0], [1, 0], [1, 1], [1, 0], [0, 0], [0, 1], [0, 0]]]


def degenerate_ring(rnd):
    if rnd.random() < .5:
        return [list(p) for p in rnd.choice(DEGENERATE)]
    # a walk along a tree, there and back
    path = [[rnd.randint(0, 6), rnd.randint(0, 6)] for _ in range(rnd.randint(1, 4))]
    ring = path + path[-2::-1] if rnd.random() < .7 else path + path[::-1]
    return [list(p) for p in ring]


def life(rnd, shapes, combos_count=6):
    """A history of a few objects: additions, questions, clearings, rereads."""
    events = []
    kinds = {}
    count = rnd.randint(1, 3)
    for o in range(1, count + 1):
        events.append({'e': 'new', 'o': o, 'rev': rnd.random() < .3})
    sets = [case(rnd, shapes, limit=40) for _ in range(count)]
    plans = []
    for o, (subj, clip, _) in enumerate(sets, 1):
        plan = []
        for _ in range(rnd.randint(1, 2)):
            part = additions(rnd, o, subj, clip)
            for _ in range(rnd.randint(0, 2)):
                part.insert(rnd.randint(0, len(part)),
                            {'e': 'add', 'o': o, 'k': rnd.randrange(2),
                             'ring': degenerate_ring(rnd)})
            if rnd.random() < .4:
                part.insert(rnd.randint(0, len(part)),
                            {'e': 'addp', 'o': o, 'k': rnd.randrange(2),
                             'rings': [degenerate_ring(rnd)
                                       for _ in range(rnd.randint(0, 2))]})
            for _ in range(rnd.randint(1, 3)):
                part.insert(rnd.randint(0, len(part)), {'e': 'bounds', 'o': o})
            combos = rnd.sample(ALL, combos_count)
            for _ in range(rnd.randint(0, 2)):
                part.insert(rnd.randint(0, len(part)),
                            ops(o, rnd.sample(ALL, 2), sample_points(rnd, subj + clip, 4)))
            points = sample_points(rnd, subj + clip, 8)
            part.append(ops(o, combos, points))
            if rnd.random() < .5:
                part.append({'e': 'bounds', 'o': o})
                part.append(ops(o, combos[::-1], points))
            part.append({'e': 'bounds', 'o': o})
            plan += part
            if rnd.random() < .6:
                plan.append({'e': 'clear', 'o': o})
                if rnd.random() < .5:
                    plan.append({'e': 'bounds', 'o': o})
                if rnd.random() < .5:
                    plan.append(ops(o, rnd.sample(ALL, 2), [[1, 1], [3, 5]]))
        plans.append(plan)
    while any(plans):
        plan = rnd.choice([p for p in plans if p])
        events.append(plan.pop(0))
    old = list(range(1, len(events) + 1))
    rnd.shuffle(old)
    for at in sorted(old[:12]):
        if events[at - 1]['e'] in ('add', 'addp', 'bounds', 'ops'):
            events.append({'e': 'reread', 'at': at})
    return events


def repeated(rnd, shapes):
    """Object 1 asks many things in between; object 2 has the same contents
    and is only asked once at the end; object 3 was used and cleared."""
    subj, clip, name = case(rnd, shapes, limit=45)
    rev = rnd.random() < .3
    combos = rnd.sample(ALL, 6)
    points = sample_points(rnd, subj + clip, 4)
    adds = additions(rnd, 1, subj, clip)
    events = [{'e': 'new', 'o': o, 'rev': rev} for o in (1, 2, 3)]
    noise = case(rnd, shapes, limit=30)
    events += additions(rnd, 3, noise[0], noise[1])
    if rnd.random() < .7:
        events.append(ops(3, rnd.sample(ALL, 2), points))
    if rnd.random() < .5:
        events.append({'e': 'bounds', 'o': 3})
    events.append({'e': 'clear', 'o': 3})
    marks = []
    for k, event in enumerate(adds):
        for o in (1, 2, 3):
            events.append(dict(event, o=o))
        marks.append(len(events) - 2)
        if rnd.random() < .5:
            events.append({'e': 'bounds', 'o': 1})
        if rnd.random() < .4:
            events.append(ops(1, rnd.sample(ALL, 2), points))
    events.append(ops(1, rnd.sample(ALL, 4), points))
    marks.append(len(events))
    for o in (1, 2, 3):
        events.append(ops(o, combos, points))
        marks.append(len(events))
        events.append({'e': 'bounds', 'o': o})
        marks.append(len(events))
    events.append({'e': 'relate', 'kind': 'same', 'o': 1, 'o2': 2, 'v': [0, 0]})
    events.append({'e': 'relate', 'kind': 'same', 'o': 3, 'o2': 1, 'v': [0, 0]})
    events.append(ops(1, combos[::-1], points))
    events.append({'e': 'relate', 'kind': 'same', 'o': 2, 'o2': 1, 'v': [0, 0]})
    events.append({'e': 'clear', 'o': 2})
    events += [{'e': 'reread', 'at': m} for m in marks]
    return events, name


SYMMETRIES = ['reorder', 'reverse input', 'swap roles', 'translate',
              'mirror x', 'mirror y', 'half turn']


def transformed(rnd, kind, rings, v):
    if kind == 'reorder':
        rings = [r[k:] + r[:k] for r in rings for k in [rnd.randrange(len(r)) if r else 0]]
        rings = list(rings)
        rnd.shuffle(rings)
        return rings
    maps = {'reverse input': None, 'mirror x': (-1, 1), 'mirror y': (1, -1),
            'half turn': (-1, -1)}
    if kind == 'translate':
        return shift(rings, *v)
    if kind == 'reverse input':
        return [r[::-1] for r in rings]
    if kind in maps:
        a, b = maps[kind]
        return [[[a * x, b * y] for x, y in r] for r in rings]
    return rings


def related(rnd, kind, subj, clip, combos, points=()):
    """Two objects with related contents."""
    rev = rnd.random() < .2
    rev2 = rev != (kind == 'reverse output')
    v = [0, 0]
    if kind == 'translate':
        n = rnd.choice([1, 5, 1000, 500000])
        v = [rnd.randint(-n, n), rnd.randint(-n, n)]
    if kind == 'swap roles':
        other = (clip, subj)
    elif kind == 'redundant':
        other = tuple([redundant_ring(rnd, r) for r in rs] for rs in (subj, clip))
    elif kind in ('same', 'reverse output'):
        other = (subj, clip)
    else:
        other = tuple(transformed(rnd, kind, rs, v) for rs in (subj, clip))

    def counterpart(row):
        op, sf, cf = row
        flip = {0: 0, 1: 1, 2: 3, 3: 2}
        if kind == 'swap roles':
            return [op, cf, sf]
        if kind in ('reverse input', 'mirror x', 'mirror y'):
            return [op, flip[sf], flip[cf]]
        return [op, sf, cf]
    if kind == 'swap roles':
        combos = [c for c in combos if c[0] != 2] or [[0, 0, 0]]
    events = [{'e': 'new', 'o': 1, 'rev': rev}, {'e': 'new', 'o': 2, 'rev': rev2}]
    plain_order = kind in ('same', 'reverse output', 'swap roles')
    for o, (s, c) in ((1, (subj, clip)), (2, other)):
        if plain_order:
            for k, rs in ((0, s), (1, c)):
                events += [{'e': 'add', 'o': o, 'k': k, 'ring': r} for r in rs]
        else:
            events += additions(rnd, o, s, c)
    events.append({'e': 'bounds', 'o': 1})
    events.append({'e': 'bounds', 'o': 2})
    events.append(ops(1, combos, points))
    events.append(ops(2, [counterpart(c) for c in combos], ()))
    events.append({'e': 'relate', 'kind': kind, 'o': 1, 'o2': 2, 'v': v})
    return events
