"""Monitor: bit positions of fields and padding per (direction, report), against a layout model."""
from .. import spec as S, trees
from ..treecheck import compiled, compare, shrink, val, app, rep, twins

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("sequences of values over sizes, alignments, counts and directions, with Padding and Align, in several "
        "interleaved reports, and random trees, compiled with and without passes; the layout is recomputed bit by bit; "
        "non-trivial: a distinct (direction, report, layout) observed")
ASSUMPTIONS = ["a value's bits start at offset 0 of its own report and direction"]
BUDGET = {"quick": 24000, "thorough": 120000}
FLOORS = {"positions": 30000, "pads": 3000, "nontrivial": 5000}
COVER = ["descriptor/streamer.py"]


def fixed(tier):
    for t in twins():
        yield {"tree": t}
    sizes = (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 32)
    for a in sizes:
        for b in sizes:
            yield {"tree": app(val(0x10030, size=a), val(0x10031, size=b), val(0x10032, size=a))}
            for c in (2, 3):
                yield {"tree": app(val(0x10030, size=a, count=c), val(0x10031, size=b))}
        for al in (0, 1, 2, 3, 4, 5, 7, 8, 16, 24, 32, 64):
            yield {"tree": app(val(0x10030, size=a), val(0x10031, size=a, alignment=al))}
            yield {"tree": app(val(0x10030, size=a), {"t": "align", "way": "Input", "boundary": al},
                               val(0x10031, size=1), {"t": "align", "way": "Output", "boundary": al},
                               {"t": "align", "way": "Input", "boundary": al})}
            yield {"tree": app(rep(1, val(0x10030, size=a)), rep(2, val(0x10031, size=1, alignment=al)),
                               rep(1, val(0x10032, size=1, alignment=al)), rep(255, val(0x10033, size=1, alignment=al)))}
        for p in (1, 2, 7, 8, 9, 31, 255, 256, 1000):
            yield {"tree": app(val(0x10030, size=a), {"t": "pad", "way": "Input", "size": p}, val(0x10031, size=1),
                               val(0x10032, size=8))}
            yield {"tree": app(val(0x10030, size=a), {"t": "pad", "way": "Input", "size": p}, val(0x10031, size=a, alignment=(
                3, 5, 7, 48, 100, 256)[(a + p) % 6]), {"t": "pad", "way": "Input", "size": p + 127 * a}, {
                "t": "align", "way": "Input", "boundary": 3}, val(0x10032, size=8, alignment=11))}
        for big in ((255, 1), (256, 1), (65535, 1), (65536, 1), (1 << 24, 1), (8, 300), (32, 8192), (64, 3000)):
            yield {"tree": app(val(0x10030, size=big[0], count=big[1], flags=0x102), val(0x10031, size=a),
                               {"t": "align", "way": "Input", "boundary": (3, 7, 24, 1000, 65536, 100000)[a % 6]},
                               val(0x10032, size=a, alignment=12))}
        yield {"tree": app(val(0x10030, size=a, way="Output"), val(0x10031, size=8), val(0x10032, size=8, way="Feature"),
                           val(0x10033, size=8, way="Output"))}
        yield {"tree": app(val(None, size=a, namedArray={"list": [0x80001, 0x80002]}, count=3), val(0x10031, size=8),
                           val(0x80003, size=a, namedArray={"range": [0x80001, 0x80020]}), val(0x10031, size=8))}
        yield {"tree": app(val(0x10030, size=a, flags=1), val(0x10031, size=8), val(0x10030, size=a, flags=3, count=2),
                           val(0x10031, size=8), val(0x10033, size=a, flags=0x102, count=4), val(0x10031, size=8))}


def generate(rng, i, tier):
    return {"tree": trees.tree(rng, force=rng.sample(("sizes", "aligns", "pads", "alignments", "counts", "outs",
                                                      "reports", "nested"), 4)), "notation": rng.getrandbits(20)}


def layout(ev):
    """Per report: list of (offset, bits, what)."""
    out = {}
    for e in ev:
        if e[0] == "pad":
            l = out.setdefault(e[1:3], [])
            if l and l[-1][2] == "pad":
                l[-1] = (l[-1][0], l[-1][1] + e[4], "pad")
            else:
                l.append((e[3], e[4], "pad"))
        elif e[0] in ("var", "arr"):
            out.setdefault(e[1:3], []).append((e[3], e[4], e[5]))
        elif e[0] == "buf":
            out.setdefault(e[1:3], []).append((e[3], (e[4], e[5]), e[6]))
    return [(k, tuple(x)) for k, l in sorted(out.items()) for x in l] + [ev[-1]]


def run(case, mon):
    want = layout(trees.expected(case["tree"]))
    for what, items, ev in compiled(case, mon):
        compare(want, layout(ev), what + " layout", items, case)
    lay = {}
    for e in want[:-1]:
        mon.count("positions")
        mon.count("pads", e[1][2] == "pad")
        lay.setdefault(e[0], []).append(e[1])
    for k, l in lay.items():
        mon.nontrivial((k, l))
    mon.sample({"layout": [repr(e) for e in want[:4]]})
