"""Monitor: the value-to-usage mapping of every compiled named array."""
from .. import gen, spec as S, trees
from ..core import Violation
from ..treecheck import compiled, page_runs, shrink, val, app, rep

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("named arrays given as lists and ranges of 1 to 65536 usages over one or several pages, with and without their "
        "own usage, minimum values of both signs, counts and flags, alone and among other values, compiled with and "
        "without passes; non-trivial: a distinct (usages, minimum, own usage) whose whole mapping was compared")
ASSUMPTIONS = []
BUDGET = {"quick": 12000, "thorough": 100000}
FLOORS = {"mappings": 6000, "logical_values": 100000, "wrapped": 2000, "bare": 2000, "multipage": 400}
COVER = ["descriptor/streamer.py", "descriptor/descriptor.py", "usage/usage.py"]


def fixed(tier):
    for n in list(range(1, 20)) + [100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 700]:
        for lo in (0, 1, -1, -128, 127, 200, 32767, 100000):
            for own in (None, 0x10039, 0xc0002):
                for na in ({"range": [0x70004, 0x70004 + n - 1]}, {"list": [0x90001 + i for i in range(n)]}):
                    yield {"tree": app(val(own, size=16, logicalMin=lo, namedArray=na))}
    for n in (1023, 1024, 1025, 4000, 5000, 32769, 65536):
        us = [0xff420000 + i for i in range(n)]
        yield {"tree": app(val(None, size=17, namedArray={"range": [us[0], us[-1]]}), val(0x10030))}
        if n <= 5000:
            yield {"tree": app(val(0x10039, size=17, namedArray={"list": us}), val(0x10030))}
            us[n // 2], us[-1] = us[-1], us[n // 2]
            yield {"tree": app(val(None, size=17, namedArray={"list": us}), val(0x10030))}
    for p in (1, 8, 0xff, 0xffff - 1):
        for a, b in ((1, 0), (1, 1), (2, 0), (1, 5), (5, 1), (3, 300)):
            for own in (None, 0x10039):
                yield {"tree": app(val(own, size=10, namedArray={"range": [(p + 1 << 16) - a, (p + 1 << 16) + b]}), val(0x10030))}
    for t in page_runs():
        yield {"tree": t}
    lists = [[0x10030, 0xc00e9, 0x80001], [0x10030, 0x10031, 0xc00e9, 0xc00ea, 0x10032], [0x1ffff, 0x20000, 0x20001],
             [0x10002, 0x10001], [0x10001, 0x10001], [0xff430001, 0x10001], [0x10005, 0x10007, 0x10009],
             [0x10001, 0x10002, 0x10004], [0x10001, 0x10003, 0x10004], [0x80001, 0x80002, 0x80003, 0x10001]]
    for l in lists:
        for own in (None, 0x10039, 0xc0036):
            for k in ({}, {"count": 4}, {"flags": 0x42}, {"flags": 0}, {"flags": 0x40, "count": 2}, {"designator": 3},
                      {"string": 2}, {"size": 3}, {"way": "Output"}, {"way": "Feature"}, {"unit": 0x11},
                      {"physicalMin": 1, "physicalMax": 9}, {"logicalMax": 1}, {"logicalMax": 255},
                      {"logicalMin": 0, "logicalMax": 0}):
                yield {"tree": app(val(0x10030), val(own, namedArray={"list": l}, **k), val(0x10031),
                                   val(own, namedArray={"list": l[::-1]}, **k))}
                yield {"tree": app(rep(4, val(own, namedArray={"list": l}, **k)), rep(5, val(0x10031)))}


def generate(rng, i, tier):
    return {"tree": trees.tree(rng, force=["arrays"] + rng.sample(("ranges", "multipage", "runs", "counts", "reports"), 2)),
            "notation": rng.getrandbits(20)}


def arrays(ev):
    """(way, report, size, {logical value: usage}, flags, wrapping collection or None) in order."""
    out = []
    for n, e in enumerate(ev):
        if e[0] == "arr":
            lo, hi = e[6][1]
            us = e[5]
            m = tuple((lo + k, us[k] if k < len(us) else None) for k in range(max(len(us), hi - lo + 1)
                                                                               if hi - lo < 100000 else len(us)))
            around = None
            a, b = n - 1, n + 1
            while a >= 0 and ev[a][0] == "arr" and ev[a][:3] + ev[a][4:] == e[:3] + e[4:]:
                a -= 1
            while b < len(ev) and ev[b][0] == "arr" and ev[b][:3] + ev[b][4:] == e[:3] + e[4:]:
                b += 1
            if a >= 0 and ev[a][0] == "open" and ev[b] == ("close",):
                around = ev[a]
            out.append((e[1], e[2], e[4], m, e[6][0], (lo, hi), around))
    return out


def run(case, mon):
    if not any("namedArray" in n for n in trees.walk(case["tree"])):
        return
    want = arrays(trees.expected(case["tree"]))
    for what, items, ev in compiled(case, mon):
        got = arrays(ev)
        d = S.first_difference(want, got)
        if d:
            raise Violation("%s array %d: %s instead of %s" % (what, d[0], str(d[2])[:600], str(d[1])[:600]),
                            output=S.show(items)[:2000])
        nest = [e for e in ev if e[0] in ("open", "close")]
        exp = [e for e in trees.expected(case["tree"]) if e[0] in ("open", "close")]
        d = S.first_difference(exp, nest)
        if d:
            raise Violation("%s: collection event %s instead of %s" % (what, d[2], d[1]), output=S.show(items)[:2000])
    for n in trees.leaves(case["tree"]):
        if "namedArray" in n:
            us = trees.array_usages(n["namedArray"])
            mon.count("mappings")
            mon.count("logical_values", len(us))
            mon.count("wrapped" if n["usage"] else "bare")
            mon.count("multipage", len({u >> 16 for u in us}) > 1)
            mon.nontrivial((us, n.get("logicalMin", 1), n["usage"]))
            mon.sample({"usages": us[:5], "own": n["usage"], "minimum": n.get("logicalMin", 1)})
