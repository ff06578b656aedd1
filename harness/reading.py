"""How values of the code under test are written down."""
LIMIT = 1 << 30
OPERATIONS = ['intersect', 'unite', 'subtract', 'symmetric_subtract']


def number(value):
    if isinstance(value, bool) or value != value:
        return None
    try:
        result = int(value)
    except (OverflowError, ValueError):
        return None
    return result if result == value and -LIMIT < result < LIMIT else None


def point(p):
    x, y = number(p.x), number(p.y)
    return [0] if x is None or y is None else [x, y]


def read_ring(r):
    return [point(p) for p in r]


def read_multipolygon(m):
    return [[read_ring(r) for r in polygon] for polygon in m]


def whole(value):
    """Never anything but an integer, for TLC; far away when it is not one."""
    result = number(value)
    return LIMIT if result is None else result


def operate(impl, wagyu, row):
    op, sf, cf = row[:3]
    return getattr(wagyu, OPERATIONS[op])(impl.fills[sf], impl.fills[cf])
