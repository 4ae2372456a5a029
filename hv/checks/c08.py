"""Monitor: one description compiled through every window of passes; the device each result
describes is compared with the model of the description and with the unoptimized compilation."""
from .. import gen, spec as S, sut, trees
from ..core import Violation
from ..treecheck import page_runs, twins
from ..util import hexs, same_meaning, shrink_field

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("description trees with randomly enabled features, and every sequence of one, two and some of three value "
        "shapes, each compiled through no pass, all passes, every single pass and random (minimum, maximum) windows; "
        "generated descriptors and ones random edits left valid through the same windows; "
        "non-trivial: a distinct (tree, window) whose events were compared")
ASSUMPTIONS = ["fields outside any report are not mixed with reports (HID forbids it)"]
BUDGET = {"quick": 5000, "thorough": 60000}
FLOORS = {"compilations": 20000, "events_compared": 200000, "windows": 30, "streams": 6000, "descriptor_windows": 5000, "damaged": 300}
COVER = ["stream/optimizer/", "descriptor/streamer.py"]
EDGES = (0, 5, 15, 25, 33, 37, 45, 55, 65, 75, 100)
WINDOWS = [(a, b) for i, a in enumerate(EDGES) for b in EDGES[i + 1:]]
SINGLE = list(zip(EDGES, EDGES[1:]))

SHAPES = [
    {"usage": 0x10030}, {"usage": 0x10031}, {"usage": 0x10035, "count": 3}, {"usage": 0xc00e9},
    {"usage": 0x10032, "flags": 6}, {"usage": 0x10033, "logicalMax": 7, "logicalMin": -7},
    {"usage": 0x10034, "physicalMin": -10, "physicalMax": 10}, {"usage": 0x10036, "physicalMin": 0, "physicalMax": 1},
    {"usage": 0x10037, "unit": 0x11, "unitExponent": -2}, {"usage": 0x10038, "designator": 2},
    {"usage": 0x10039, "string": 4}, {"usage": 0x1003a, "designator": 3, "string": 5},
    {"usage": None, "namedArray": {"list": [0x80001, 0x80002, 0x80003]}}, {"usage": 0x20001, "way": "Output"},
    {"usage": 0x1003b, "size": 3}, {"t": "pad", "size": 4}, {"t": "align", "boundary": 16},
    {"t": "coll"}, {"t": "report"}, {"usage": 0x1003c, "flags": 0x102, "count": 5}, {"usage": None},
]


def shape(i):
    s = dict(SHAPES[i])
    t = s.get("t", "val")
    if t in ("pad", "align"):
        return dict(s, way="Input")
    inner = {"t": "val", "way": "Input", "usage": 0x1003d, "size": 8, "logicalMin": 0, "logicalMax": 1}
    if t == "coll":
        return {"t": "coll", "kind": 2, "usage": 0x10001, "m": [inner]}
    if t == "report":
        return {"t": "report", "id": 9, "m": [inner]}
    d = {"t": "val", "way": "Input", "size": 8, "logicalMin": 0, "logicalMax": 1}
    d.update(s)
    if "namedArray" in d:
        del d["logicalMax"]
    return d


def word(w):
    return {"t": "coll", "kind": 1, "usage": 0x10002, "m": [{"t": "report", "id": 3, "m": [shape(i) for i in w]}]}


def fixed(tier):
    for k, t in enumerate(page_runs()):
        yield {"tree": t, "windows": [(0, 100), (0, 15), (15, 25)]}
    for k, t in enumerate(twins()):
        yield {"tree": t, "windows": [(0, 100), SINGLE[k % len(SINGLE)]]}
    k = 0
    for w in gen.fragment_words("quick"):
        k += 1
        if len(w) < 3:
            yield {"words": w, "windows": SINGLE + [WINDOWS[k % len(WINDOWS)]]}
        elif tier == "thorough" or k % 9 == 0:
            yield {"words": w, "windows": [SINGLE[k % len(SINGLE)], WINDOWS[k % len(WINDOWS)]]}
    for st in gen.twin_streams():
        k += 1
        yield {"stream": st, "windows": [SINGLE[k % len(SINGLE)], WINDOWS[k % len(WINDOWS)]]}
    for d in (1, 2, 3, 5, 9, 33):
        for back, mid in ((None, 0), (2, 0), (3, 2), (None, 1)):
            yield {"stream": gen.nested_push(d, back, mid), "windows": WINDOWS}
    n = len(SHAPES)
    for a in range(n):
        yield {"tree": word([a]), "windows": WINDOWS}
        for b in range(n):
            yield {"tree": word([a, b]), "windows": SINGLE + [(0, 100)]}
    for a in range(n):
        for b in range(n):
            for c in range(n):
                if tier == "thorough" or (a + b * 3 + c * 7) % 4 == 0:
                    yield {"tree": word([a, b, c]), "windows": [(0, 100), SINGLE[(a + b + c) % len(SINGLE)]]}


def generate(rng, i, tier):
    ws = [[0, 100]] + [list(w) for w in rng.sample(SINGLE, 3)] + [list(w) for w in rng.sample(WINDOWS, 3)]
    a = rng.randrange(0, 101)
    ws.append([a, rng.randrange(a, 101)])
    if i % 6 == 4:
        return {"stream": gen.valid_damaged(rng), "windows": ws, "damaged": True}
    if i % 3 == 2:
        return {"stream": gen.descriptor(rng), "windows": ws}
    return {"tree": trees.tree(rng), "windows": ws, "notation": rng.getrandbits(20)}


def descriptor(case, mon):
    data = gen.to_bytes(gen.from_fragments(case["words"]) if "words" in case else case["stream"])
    try:
        want = S.meaning(S.decode(data))
    except S.Invalid:
        mon.count("invalid_input")
        return
    if case.get("damaged"):
        if not gen.plain(S.decode(data)):
            return
        mon.count("damaged")
    for lo, hi in case["windows"]:
        if hi <= lo:
            continue
        what = "passes within (%d, %d) of a descriptor" % (lo, hi)
        with mon.sut(what):
            t = sut.optimize_bytes(data, lo, hi)
            b = t.bytes()
        if t.closed != 1 or t.late:
            raise Violation("%s: output closed %d times, %d items after the first" % (what, t.closed, t.late))
        try:
            items = S.decode(b)
            got = S.meaning(items)
        except (S.Invalid, S.Malformed) as e:
            raise Violation("%s: not a valid descriptor: %s" % (what, e), output=hexs(b))
        same_meaning(want, got, None, what, input=S.show(S.decode(data)), output=S.show(items))
        mon.see("windows", (lo, hi))
        mon.count("descriptor_windows")
        mon.count("events_compared", len(want))
        mon.nontrivial((data, lo, hi))
        mon.see("streams", b)


def run(case, mon):
    if "tree" not in case:
        return descriptor(case, mon)
    import random
    want = trees.expected(case["tree"])
    with mon.sut("building and compiling a description"):
        obj = trees.build(case["tree"], random.Random(case.get("notation", 0)))
        plain = sut.compile_tree(obj, 0, 0)
        pb = plain.bytes()
    check(pb, plain, want, None, "unoptimized", mon, case)
    strict = S.meaning(S.decode(pb))
    for lo, hi in case["windows"]:
        if hi <= lo:
            continue
        what = "passes within (%d, %d)" % (lo, hi)
        with mon.sut("compiling with " + what):
            t = sut.compile_tree(obj, lo, hi)
            b = t.bytes()
        mon.see("windows", (lo, hi))
        check(b, t, want, strict, what, mon, case)
        if len(want) > 3:
            mon.nontrivial(repr((case["tree"], lo, hi)))
        mon.see("streams", b)
    mon.sample({"unoptimized": S.show(S.decode(pb))[:200], "optimized": S.show(S.decode(b))[:200]})


def check(b, t, want, strict, what, mon, case):
    if t.closed != 1 or t.late:
        raise Violation("%s: output closed %d times, %d items after the first" % (what, t.closed, t.late))
    try:
        items = S.decode(b)
        got = S.meaning(items, S.LANGUAGE)
    except (S.Invalid, S.Malformed) as e:
        raise Violation("%s: not a valid descriptor: %s" % (what, e), output=hexs(b))
    same_meaning(want, got, None, what, output=S.show(items))
    if strict is not None:
        same_meaning(strict, S.meaning(items), None, what + " against no pass", output=S.show(items))
    mon.count("compilations")
    mon.count("events_compared", len(want))


def shrink(case):
    if len(case["windows"]) > 1:
        for w in case["windows"]:
            yield dict(case, windows=[w])
    if "words" in case:
        yield from shrink_field(case, "words")
        yield {"stream": gen.from_fragments(case["words"]), "windows": case["windows"]}
    elif "stream" in case:
        yield from shrink_field(case, "stream")
    else:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
