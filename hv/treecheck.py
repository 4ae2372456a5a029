"""Shared by the monitors of the compiler: compile a tree, interpret the bytes, project, compare."""
import random

from . import gen, spec as S, sut, trees
from .core import Violation
from .util import hexs


def compiled(case, mon):
    """(optimized?, items) of both compilations of the tree of a case."""
    with mon.sut("building the description"):
        obj = trees.build(case["tree"], random.Random(case.get("notation", 0)))
    for hi in (0, 100):
        with mon.sut("compiling the description"):
            t = sut.compile_tree(obj, 0, hi)
            b = t.bytes()
        try:
            items = S.decode(b)
            ev = S.meaning(items, S.LANGUAGE)
        except (S.Malformed, S.Invalid) as e:
            raise Violation("compiled descriptor is not valid: %s" % e, output=hexs(b))
        mon.count("compilations")
        yield ("optimized" if hi else "unoptimized"), items, ev


def compare(want, got, what, items, case):
    d = S.first_difference(want, got)
    if d:
        raise Violation("%s: %s instead of %s" % (what, d[2], d[1]), output=S.show(items)[:3000])


def shrink(case):
    for t in trees.smaller(case["tree"]):
        yield dict(case, tree=t)


def val(u, **k):
    d = {"t": "val", "way": "Input", "size": 8, "logicalMin": 0, "logicalMax": 1, "usage": u}
    d.update(k)
    if d.get("namedArray") and "logicalMax" not in k:
        del d["logicalMax"]
    return d


def app(*m, usage=0x10002, kind=1):
    return {"t": "coll", "kind": kind, "usage": usage, "m": list(m)}


def rep(i, *m):
    return {"t": "report", "id": i, "m": list(m)}


def page_runs():
    """On every page and at the edges of the usage numbers: runs of consecutive and other usages, as
    neighbouring values and as named arrays."""
    for p in gen.PAGES + gen.ODD_PAGES:
        for u in (0, 1, 0xfe, 0x7ffe, 0xfffa):
            for n in (2, 3, 4, 5):
                us = [p << 16 | u + i for i in range(n)]
                yield app(*[val(x, size=1) for x in us])
                yield app(val(None, namedArray={"list": us}), val(us[0]))
            yield app(*[val(p << 16 | u + 2 * i, size=4) for i in range(3)], *[val(0x10030 + i) for i in range(3)])
            yield app(*[val(p << 16 | u + i, designator=i, string=3 - i) for i in range(4)])
            yield app(val(p << 16 | u, namedArray={"range": [p << 16 | u, p << 16 | u + 4]}, way="Feature"),
                      val(p << 16 | u, count=3, way="Feature"), usage=p << 16 | u)
    for p in (1, 8, 9, 0xff42, 0xfffe):
        for a in (1, 2, 3):
            us = [(p + 1 << 16) - a + i for i in range(a + 3)]
            yield app(*[val(x, size=1) for x in us])
            yield app(val(None, namedArray={"list": us}), val(us[0], namedArray={"list": us[::-1]}))


def twins():
    """Neighbouring values that differ in one attribute by little, there and back."""
    for k in ("logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent", "designator", "string"):
        signed = k not in ("unit", "designator", "string")
        for a, b in gen.near_pairs(signed):
            m = []
            for n, x in enumerate((a, a, b, a, b, b)):
                v = val(0x10030 + n, physicalMin=-7, physicalMax=70)
                if k == "logicalMin":
                    v["logicalMax"] = 2 ** 31 - 1
                elif k == "logicalMax":
                    v["logicalMin"] = -2 ** 31
                v[k] = x
                m.append(v)
            yield app(*m)
    for k, vs in (("size", (1, 8, 0x100, 0x101, 0x108)), ("count", (1, 2, 0x100, 0x101, 0x102)),
                  ("alignment", (1, 8, 0x100, 0x101)), ("flags", (0, 2, 6, 0x42, 0x102, 0x106, 0x82, 3, 1))):
        for a in vs:
            for b in vs:
                if a != b:
                    yield app(*[val(0x10030 + n, **{k: x}) for n, x in enumerate((a, a, b, a, b, b))])
                    yield app(*[val(0x10030 + n, way=w, **{k: x}) for n, (x, w) in enumerate((
                        (a, "Input"), (b, "Input"), (b, "Output"), (a, "Output"), (a, "Feature"), (a, "Input"), (b, "Input")))])
    ids = (1, 2, 0x7f, 0x80, 0x81, 0xff)
    for a in ids:
        for b in ids:
            yield app(rep(a, val(0x10030, size=3)), rep(b, val(0x10031, size=5)), rep(a, val(0x10032), rep(b, val(0x10033)),
                                                                                    val(0x10034)), rep(b, val(0x10035)))
