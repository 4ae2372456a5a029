"""Small helpers shared by the checks."""


def shrink_list(lst):
    """Smaller lists: big chunks first, then single elements."""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def shrink_field(case, field):
    for l in shrink_list(case[field]):
        yield dict(case, **{field: l})


def hexs(b):
    return bytes(b).hex(" ")


def stream_of(data):
    from . import spec as S
    return [[i.kind, i.tag, i.size, i.value] for i in S.decode(data)]


def same_meaning(a, b, opt, what, **detail):
    """Compare two event lists; raises Violation."""
    from . import spec as S
    from .core import Violation
    d = S.first_difference(a, b)
    if d:
        raise Violation("%s: event %d is %s instead of %s" % (what, d[0], d[2], d[1]), **detail)
