"""Monitor: the attributes of every compiled field, as an independent interpreter reads them,
against those of the value it was compiled from."""
from .. import gen, spec as S, trees
from ..treecheck import compiled, compare, page_runs, shrink, twins, val, app, rep

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("values sweeping each attribute over its boundary values, pairs of values differing in one attribute (leaks), "
        "and random trees, compiled with and without passes; non-trivial: a distinct tuple of attributes found equal "
        "in the compiled field")
ASSUMPTIONS = ["the physical range and unit of a named array, and attributes of constant values, have no meaning"]
BUDGET = {"quick": 18000, "thorough": 120000}
FLOORS = {"fields": 60000, "nontrivial": 4000}
COVER = ["descriptor/streamer.py", "descriptor/descriptor.py"]

SWEEP = {
    "size": [1, 2, 7, 8, 9, 16, 24, 32, 33, 64, 255, 256, 1000, 65535, 65536, 0x10001],
    "count": [1, 2, 3, 127, 128, 255, 256, 257, 1000, 4097, 32768, 65536, 70000],
    "flags": [f for f in range(0, 512) if not f & 1],
    "logicalMin": gen.S32, "logicalMax": gen.S32,
    "physicalMin": gen.S32, "physicalMax": gen.S32,
    "unit": [v for v in gen.U32] + [0x11, 0x12, 0x13, 0x14, 0x1001, 0xf011, 0xe011, 0xe121, 0x00f0d121],
    "unitExponent": list(range(-8, 16)) + [-128, 127, 128],
    "designator": [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 32 - 1],
    "string": [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 32 - 1],
    "usage": [p << 16 | u for p in gen.PAGES + gen.ODD_PAGES for u in (0, 1, 2, 0x30, 0xff, 0x100, 0x7fff, 0x8000,
                                                                        0xffff)],
    "way": ["Input", "Output", "Feature"],
}


def full(k, v):
    d = val(0x10030, physicalMin=-5, physicalMax=50, unit=0x11, unitExponent=-1, designator=3, string=4, flags=6,
            alignment=1)
    if k in ("logicalMin", "logicalMax"):
        d["logicalMin"] = -2 ** 31 if k == "logicalMax" else 0
        d["logicalMax"] = 2 ** 31 - 1
    d[k] = v
    return d


def fixed(tier):
    for k, vs in SWEEP.items():
        for v in vs:
            if k.startswith("logical"):
                bare = val(0x10031, logicalMin=-2 ** 31, logicalMax=2 ** 31 - 1)
                bare[k] = v
            else:
                bare = val(0x10031, **{k: v})
            yield {"tree": app(bare)}
            yield {"tree": app(full(k, v), val(0x10031, alignment=1), bare)}
            if k != "way":
                for way in ("Output", "Feature"):
                    yield {"tree": app(dict(full(k, v), way=way), dict(bare, way=way)), "notation": len(str(v))}
            yield {"tree": app(rep(1, bare, full(k, v)), rep(2, val(0x10032, way="Feature")))}
    for t in page_runs():
        yield {"tree": t}
    for t in twins():
        yield {"tree": t}
    # bounds the wrong way round are the user's business
    for a, b in ((1, 0), (0, -1), (255, 0), (127, -127), (5, 4), (70000, -70000), (1, -2 ** 31)):
        for k in ({}, {"physicalMin": 3, "physicalMax": 1}, {"physicalMin": b, "physicalMax": a}, {"physicalMax": -4}):
            for way in ("Input", "Output", "Feature"):
                yield {"tree": app(val(0x10030, logicalMin=a, logicalMax=b, way=way, **k), val(0x10031, way=way),
                                   val(0x10032, logicalMin=a, logicalMax=b, way=way, count=2, **k))}
    # physical range given by one end only, zero ends, equal to the logical one, restated
    for a in (None, 0, 1, -5, 100):
        for b in (None, 0, 1, 7, 100):
            for lo, hi in ((0, 1), (0, 100), (1, 7), (-5, 7)):
                k = {n: x for n, x in (("physicalMin", a), ("physicalMax", b)) if x is not None}
                yield {"tree": app(val(0x10030, logicalMin=lo, logicalMax=hi, **k), val(0x10031),
                                   val(0x10032, logicalMin=lo, logicalMax=hi, physicalMin=2, physicalMax=3),
                                   val(0x10033, logicalMin=2, logicalMax=3, **k))}


def generate(rng, i, tier):
    return {"tree": trees.tree(rng, force=rng.sample(("units", "phys", "desig", "string", "flags", "runs"), 2)),
            "notation": rng.getrandbits(20)}


def project(ev):
    return [e[:3] + e[4:] for e in ev if e[0] in ("var", "arr", "buf")] \
        + sorted({e[:3] for e in ev if e[0] == "pad"})


def run(case, mon):
    want = project(trees.expected(case["tree"]))
    for what, items, ev in compiled(case, mon):
        compare(want, project(ev), what + " field", items, case)
        # nothing but described fields and constant padding
        for it in items:
            if it.kind == S.MAIN and it.tag in S.DATA_TAGS and it.value & S.CONSTANT and it.value & ~3 and not any(
                    (n.get("flags") or 0) & 1 for n in trees.leaves(case["tree"])):
                from ..core import Violation
                raise Violation("padding with flags 0x%x" % it.value)
    for e in want:
        mon.nontrivial(e)
        mon.count("fields")
    mon.sample({"fields": [list(map(repr, e)) for e in want[:2]]})
