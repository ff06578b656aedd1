"""Questions on geometric decisions (C16), for the recorder."""
import random
from fractions import Fraction
from itertools import product

import gen

GRID = [list(p) for p in product(range(3), repeat=2)]


def some_point(rnd, n=None):
    n = n or rnd.choice([2, 4, 9, 40, 200])
    return [rnd.randint(-n, n), rnd.randint(-n, n)]


def big_point(rnd):
    n = rnd.choice([9, 200, 5000, 100000, 1000000])
    return [rnd.randint(-n, n), rnd.randint(-n, n)]


def proper(rnd, flat=True, n=None):
    while True:
        p, q = some_point(rnd, n), some_point(rnd, n)
        if p != q and (flat or p[1] != q[1]):
            return [p, q]


def line(rnd, big=False):
    """Three points on a line, or almost."""
    p, step = (big_point(rnd) if big else some_point(rnd, 40)), some_point(rnd, rnd.choice([1, 3, 7]))
    result = []
    for _ in range(3):
        k = rnd.randint(-4, 4) * (rnd.choice([1, 1000]) if big else 1)
        result.append([p[0] + k * step[0], p[1] + k * step[1]])
    if rnd.random() < .3:
        i = rnd.randrange(3)
        result[i][rnd.randrange(2)] += rnd.choice([-1, 1])
    return result


def x_at(e, y):
    (bx, by), (tx, ty) = e
    return bx + Fraction((tx - bx) * (by - y), by - ty)


def upward(p, q):
    return [q, p] if p[1] < q[1] else [p, q]


def meeting(rnd):
    """Edges across a scanbeam in their order at the bottom of it, where they
    do not cross; a height."""
    n = rnd.choice([3, 6, 20, 100])
    low, y = rnd.randint(1, n), -rnd.randint(0, n)
    edges = []
    for _ in range(rnd.randint(2, 7)):
        b, t = [rnd.randint(-n, n), low + rnd.choice([0, 0, rnd.randint(0, n)])], \
            [rnd.randint(-n, n), y - rnd.choice([0, 0, rnd.randint(0, n)])]
        if [b, t] not in edges:
            edges.append([b, t])
    # those that start at one point leave it in their order
    edges.sort(key=lambda e: (x_at(e, low), Fraction(e[1][0] - e[0][0], e[0][1] - e[1][1])))
    tops = [x_at(e, y) for e in edges]
    if len(set(tops)) < len(tops) and any(t.denominator & (t.denominator - 1) for t in tops):
        return None
    return [edges, y]


def long_ways(rnd):
    """Edges through a point from far away, in their order below it."""
    x, y = rnd.randint(-9, 11), rnd.randint(-9, 30)
    edges = []
    for _ in range(rnd.randint(1, 4)):
        p, q = gen.through(rnd, x, y, 1, rnd.choice([6, 20, 60, 200]))
        p, q = upward(p, q)
        if p[1] > q[1] and [p, q] not in edges and q[1] < y <= p[1]:
            edges.append([p, q])
    return [edges, y] if edges else None


def placing(rnd):
    made = meeting(rnd) if rnd.random() < .6 else long_ways(rnd)
    if made is None:
        return None
    edges, y = made
    n = max(abs(c) for e in edges for p in e for c in p)
    xs = [x_at(e, y) for e in edges]
    order = sorted(range(len(edges)), key=lambda i: (
        xs[i], Fraction(edges[i][1][0] - edges[i][0][0], edges[i][0][1] - edges[i][1][1])))
    edges = [edges[i] for i in order if edges[i][1][1] < y]
    if not edges:
        return None
    # somewhere, or where an edge passes
    whole = [int(x) for x in (x_at(e, y) for e in edges) if x.denominator == 1]
    x = rnd.choice(whole) if whole and rnd.random() < .7 else rnd.randint(-n, n)
    top = [x + rnd.randint(-4, 4), y - rnd.randint(1, 4)]
    if rnd.random() < .2 and whole:
        top = rnd.choice(edges)[1]
    return [edges, [[x, y], top], y]


def ring_pair(rnd):
    """Two rings that often have vertices in common."""
    n = rnd.choice([2, 3, 4, 4, 6])
    outer = [[x * 2, y * 2] for x, y in simple(rnd, n)]
    k = rnd.random()
    if k < .4:
        inner = simple(rnd, n)
        d = rnd.randint(0, n)
        inner = [[x + d, y + rnd.randint(0, 0) + d] for x, y in inner]
    elif k < .7:
        # vertices out of those of the other and the middles of its edges
        pool = outer + [[(p[0] + q[0]) // 2, (p[1] + q[1]) // 2]
                        for p, q in zip(outer, outer[1:] + outer[:1])]
        inner = rnd.sample(pool, min(len(pool), rnd.choice([3, 3, 4, 5])))
    else:
        inner = [[x * 2, y * 2] for x, y in simple(rnd, n)]
    return [inner, outer] if rnd.random() < .6 else [outer, inner]


def simple(rnd, n):
    while True:
        ring = [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.choice([3, 3, 4, 5, 6]))]
        if is_simple(ring):
            return ring


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on(a, b, p):
    return (cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def is_simple(ring):
    n = len(ring)
    if n < 3 or len({tuple(p) for p in ring}) < n:
        return False
    edges = [(ring[i], ring[(i + 1) % n]) for i in range(n)]
    for i, (a, b) in enumerate(edges):
        for c, d in edges[:i]:
            if cross(a, b, c) * cross(a, b, d) < 0 and cross(c, d, a) * cross(c, d, b) < 0:
                return False
            if any(on(a, b, p) and p not in (a, b) for p in (c, d)):
                return False
            if any(on(c, d, p) and p not in (c, d) for p in (a, b)):
                return False
    return True


def uncrossed(r, s):
    for a, b in zip(r, r[1:] + r[:1]):
        for c, d in zip(s, s[1:] + s[:1]):
            s1, s2, s3, s4 = cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b)
            if s1 * s2 < 0 and s3 * s4 < 0:
                return False
            if s1 == s2 == 0 and len({tuple(p) for p in (a, b, c, d)
                                      if on(a, b, p) and on(c, d, p)}) > 1:
                return False
    return True


def inside(rnd):
    for _ in range(40):
        r, s = ring_pair(rnd)
        if is_simple(r) and is_simple(s) and uncrossed(r, s):
            for ring in (r, s):
                if rnd.random() < .5:
                    ring.reverse()
                at = rnd.randrange(len(ring))
                ring[:] = ring[at:] + ring[:at]
            return [r, s]
    return None


def redundant(rnd):
    k = rnd.random()
    if k < .2:
        return gen.degenerate_ring(rnd)
    n = rnd.choice([1, 2, 3, 9])
    ring = [[rnd.randint(0, n), rnd.randint(0, n)] for _ in range(rnd.randint(0, 9))]
    if ring and rnd.random() < .5:
        ring = gen.redundant_ring(rnd, ring)
    return ring


def question(kind, rnd):
    if kind == 'edge':
        return [big_point(rnd), big_point(rnd)]
    if kind == 'flip':
        p, q = big_point(rnd), big_point(rnd)
        return [p, [q[0], p[1]]]
    if kind == 'crossing':
        k = rnd.random()
        if k < .5:
            n = rnd.choice([2, 4, 9, 40, 200])
            return proper(rnd, n=n) + proper(rnd, n=n)
        p, q, r = line(rnd)
        if p == q or r == q:
            return None
        other = some_point(rnd, 40)
        return [p, q] + ([r, other] if r != other else [q, r])
    if kind == 'parallel':
        if rnd.random() < .5:
            p, q = big_point(rnd), big_point(rnd)
            d, k = big_point(rnd), rnd.choice([-1, 1, 1, 2])
            r = d
            s = [d[0] + (q[0] - p[0]) // k, d[1] + (q[1] - p[1]) // k + rnd.choice([0, 0, 1])]
            if max(map(abs, s)) > 2000000:
                return None
            return [p, q, r, s] if p != q and r != s else None
        return proper(rnd, n=3) + proper(rnd, n=3)
    if kind in ('straight', 'between'):
        return line(rnd, True)
    if kind == 'row':
        if rnd.random() < .4:
            # through a point half a pixel from the middle of one
            x, y = rnd.randint(-20, 20), rnd.randint(-20, 20)
            p, q = gen.through(rnd, x, y, 2, rnd.choice([5, 20, 60, 200]))
            low, high = sorted((p[1], q[1]))
            return [p, q, max(low, min(high, y // 2 + rnd.randint(0, 1)))]
        p, q = proper(rnd)
        return [p, q, rnd.randint(min(p[1], q[1]), max(p[1], q[1]))]
    if kind == 'box':
        def box():
            p, q = some_point(rnd, 3), some_point(rnd, 3)
            return [min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1])]
        return [box(), box()]
    if kind == 'round':
        return [rnd.randint(-4000000, 4000000)]
    if kind == 'ring':
        n = rnd.choice([2, 4, 40, 200])
        return [[some_point(rnd, n) for _ in range(rnd.randint(3, 8))]]
    if kind == 'inside':
        return inside(rnd)
    if kind == 'edges':
        return [redundant(rnd)]
    if kind == 'sort':
        n = rnd.randint(0, 7)
        return [[[rnd.randint(0, rnd.choice([1, 3, 9])), i] for i in range(1, n + 1)],
                rnd.random() < .5]
    if kind == 'meet':
        return meeting(rnd)
    if kind == 'place':
        return placing(rnd)


COUNTS = {'edge': 300, 'flip': 100, 'crossing': 2500, 'parallel': 1000, 'straight': 1500,
          'between': 1500, 'row': 2500, 'box': 600, 'round': 200, 'ring': 700, 'inside': 2500,
          'edges': 1500, 'sort': 300, 'meet': 1500, 'place': 1500}


def exhaustive():
    """All questions of the small kinds on a small grid."""
    edges = [[p, q] for p in GRID for q in GRID if p != q]
    yield 'edge', [[p, q] for p in GRID for q in GRID]
    yield 'crossing', [e + f for e in edges for f in edges]
    yield 'parallel', [e + f for e in edges if e[0] <= e[1] for f in edges]
    yield 'straight', [[p, q, r] for p in GRID for q in GRID for r in GRID]
    yield 'between', [[p, q, r] for p in GRID for q in GRID for r in GRID]
    wide = [[x, y] for x in range(6) for y in range(4)]
    yield 'row', [[p, q, y] for p in wide for q in wide if p != q
                  for y in range(min(p[1], q[1]), max(p[1], q[1]) + 1)]
    yield 'round', [[k] for k in range(-60, 61)]
    boxes = [[x, y, z, t] for x in range(2) for y in range(2) for z in range(x, 3)
             for t in range(y, 3)]
    yield 'box', [[a, b] for a in boxes for b in boxes]


def scripts(seed, deep, chunk=100):
    rnd = random.Random('asks %s' % seed)
    result, facts = [], {}
    asked = list(exhaustive())
    facts['questions_exhaustive'] = sum(len(q) for _, q in asked)
    for kind, count in COUNTS.items():
        if kind in ('inside', 'meet', 'place', 'edges', 'row', 'crossing') and deep:
            count *= 6
        questions = []
        while len(questions) < count:
            made = question(kind, rnd)
            if made is not None:
                questions.append(made)
        asked.append((kind, questions))
    for kind, questions in asked:
        facts['questions_' + kind] = facts.get('questions_' + kind, 0) + len(questions)
        for start in range(0, len(questions), chunk):
            result.append([{'e': 'ask', 'kind': kind, 'q': questions[start:start + chunk]}])
    return result, 'questions', facts
