"""Monitor: the open/close/field trace of the compiled descriptor against the description tree."""
import random

from .. import spec as S, sut, trees
from ..core import Violation
from ..treecheck import compiled, compare, shrink, val, app, rep

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("every kind of collection, usages of all pages, empty and deeply nested collections, reports inside, around "
        "and nested in other reports, and random trees, built at once or member by member, visited, and "
        "compiled with and without passes; non-trivial: a distinct "
        "trace of collections and field owners")
ASSUMPTIONS = ["fields outside any report are not mixed with reports (HID forbids it)"]
BUDGET = {"quick": 18000, "thorough": 120000}
FLOORS = {"collections": 20000, "fields": 40000, "report_switches": 1000, "containers": 20000, "nontrivial": 3000}
COVER = ["descriptor/streamer.py", "descriptor/descriptor.py"]


def coll(kind, usage, *m):
    return {"t": "coll", "kind": kind, "usage": usage, "m": list(m)}


def fixed(tier):
    x, y, z = val(0x10030), val(0x10031), val(0x10032)
    for k in list(range(0, 256)) + [256, 300, 65535]:
        yield {"tree": coll(k, 0x10002, x)}
        yield {"tree": app(coll(k, 0xc0001, y), z)}
    for u in [None] + [p << 16 | n for p in (1, 2, 7, 9, 0xc, 0x20, 0x59, 0xff43, 0xffff) for n in (0, 1, 2, 0xff, 0x100,
                                                                                                0xffff)]:
        yield {"tree": {"t": "top", "m": [coll(1, u, x), coll(1, u)]}}
        yield {"tree": app(x, coll(0, u), y, coll(2, u, coll(0, u, z)))}
    for n in range(1, 40):
        t = x
        for i in range(n):
            t = coll(i % 7, 0x10001 + i, t, y) if i % 3 else coll(i % 7, 0x10001 + i, y, t)
        yield {"tree": t}
    for n in (255, 257, 1025, 1500, 5000):
        yield {"tree": app(*[val(0x10030 + i % 7 * 2) for i in range(n)])}
        yield {"tree": app(*[coll(i % 3, 0x10001 + i % 5, x) for i in range(n)], y)}
        yield {"tree": app(*[rep(i % 255 + 1, x) for i in range(n)])}
        yield {"tree": {"t": "top", "m": [app(y) for i in range(n)]}}
    for n in (60, 100, 150):
        t = x
        for i in range(n):
            t = coll(i % 7, 0x10001 + i, y, t, z)
        yield {"tree": t}
        t = x
        for i in range(n):
            t = rep(i + 1, y, t, z)
        yield {"tree": app(t)}
    ids = (1, 2, 3, 127, 128, 254, 255)
    for a in ids:
        for b in ids:
            yield {"tree": app(rep(a, x), rep(b, y), rep(a, z))}
            yield {"tree": app(rep(a, x, rep(b, y), z))}
            yield {"tree": app(rep(a, x, coll(2, 0x10001, y, rep(b, z), x), y))}
            yield {"tree": app(rep(a, rep(b, x, rep(a, y), z), x), rep(b, y))}
            yield {"tree": {"t": "top", "m": [rep(a, app(x, coll(0, 0x10001, y))), rep(b, app(z))]}}
            yield {"tree": app(rep(a, coll(2, 0x10001, rep(b, x), y)), rep(a, coll(2, 0x10001, z)))}
            yield {"tree": {"t": "top", "m": [rep(a, rep(b, {"t": "top", "m": [app(x)]}), app(y))]}}


def generate(rng, i, tier):
    return {"tree": trees.tree(rng, force=rng.sample(("reports", "nested", "top", "empty", "nousage", "vendor"), 3)),
            "notation": rng.getrandbits(20)}


def project(ev):
    out = []
    for e in ev:
        if e[0] in ("open", "close"):
            out.append(e)
        elif e[0] in ("var", "arr", "buf"):
            out.append(("field", e[1], e[2], e[5] if e[0] != "buf" else e[6]))
        elif e[0] == "pad":
            out.append(("pad", e[1], e[2]))
    return out


def shape(t):
    """The visit of a tree: what is entered, met and left, in order."""
    if "m" not in t:
        return [("element", t["t"])]
    return [("enter", t["t"])] + [e for c in t["m"] for e in shape(c)] + [("leave", t["t"])]


def visited(obj):
    D = sut.D
    kinds = ((D.Align, "align"), (D.Padding, "pad"), (D.Value, "val"), (D.TopLevel, "top"), (D.Report, "report"),
             (D.Collection, "coll"))
    trace = []

    def note(what):
        return lambda e: trace.append((what, next(n for c, n in kinds if isinstance(e, c))))

    v = D.descriptor.Visitor()
    v.enter, v.leave, v.element = note("enter"), note("leave"), note("element")
    obj.accept(v)
    return trace


def members(t, obj, mon):
    """A container holds exactly its members: by length, iteration and index."""
    if "m" not in t:
        return
    mon.count("containers")
    ms = list(obj)
    if len(obj) != len(t["m"]) or len(ms) != len(t["m"]) or any(obj[i] is not x for i, x in enumerate(ms)):
        raise Violation("a container of %d members has length %d, iterates over %d" % (len(t["m"]), len(obj), len(ms)))
    for c, o in zip(t["m"], ms):
        members(c, o, mon)


def run(case, mon):
    want = project(trees.expected(case["tree"]))
    with mon.sut("building and visiting the description"):
        obj = trees.build(case["tree"], random.Random(case.get("notation", 0)))
        got = visited(obj)
        members(case["tree"], obj, mon)
    if got != shape(case["tree"]):
        raise Violation("a visitor does not see the description: %s" % (S.first_difference(shape(case["tree"]), got),))
    for what, items, ev in compiled(case, mon):
        compare(want, project(ev), what + " structure", items, case)
    prev = None
    for e in want:
        if e[0] == "open":
            mon.count("collections")
        elif e[0] == "field":
            mon.count("fields")
            mon.count("report_switches", prev is not None and prev != e[2])
            prev = e[2]
    mon.nontrivial(want)
    mon.sample({"trace": [repr(e) for e in want[:6]]})
