"""Monitor over optimized descriptors: a trace specification of what must not appear in them."""
import itertools
import random

from .. import gen, spec as S, sut, trees, real, proc, text
from ..core import Violation
from ..treecheck import page_runs, twins
from ..util import hexs, shrink_field, stream_of

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("description trees rich in repeated attributes, restated physical ranges, runs of similar values and "
        "consecutive usages, compiled with all passes, and hand-written descriptors (push/pop included) through all "
        "passes; the item trace is checked item by item, that of descriptions also optimized again; non-trivial: a "
        "distinct optimized stream")
ASSUMPTIONS = ["a global item not set yet is in force with its HID default for the physical range, unit and exponent "
               "only", "fields merge when they are neighbours in one collection or report of the description"]
BUDGET = {"quick": 15000, "thorough": 150000}
FLOORS = {"items": 100000, "merged_pairs": 2000, "range_items": 500, "reoptimized": 5000, "handwritten": 2000, "commands": 18, "index_ranges": 100}
FMT = ("binary", "hex", "code")
COVER = ["stream/optimizer/"]


def v(u, **k):
    d = {"t": "val", "way": "Input", "size": 8, "logicalMin": 0, "logicalMax": 1, "usage": u}
    d.update(k)
    return d


def app(*m):
    return {"t": "coll", "kind": 1, "usage": 0x10002, "m": list(m)}


def fixed(tier):
    for t in page_runs():
        yield {"tree": t}
    for t in twins():
        yield {"tree": t}
    for h in real.REAL.values():
        yield {"stream": stream_of(bytes.fromhex(h))}
    for n, h in enumerate(sorted(real.REAL.values()) * 2):
        yield {"stream": stream_of(bytes.fromhex(h)), "cli": n}
    for n, w in enumerate((["x", "y"], ["phy", "physame", "unit"], ["full", "full2", "page"], ["des0", "push", "rng"]) * 3):
        yield {"stream": gen.from_fragments(w), "cli": n}
    for n, st in enumerate(itertools.chain(gen.twin_streams(), gen.page_streams())):
        if tier == "thorough" or n % 2 == 0:
            yield {"stream": st}
    B = (-70000, -300, -10, -1, 0, 1, 9, 255, 70000)
    g = [[1, 0, 1, 1], [2, 0, 1, 2], [0, 10, 1, 1], [1, 7, 1, 8], [1, 9, 1, 1]]
    f = [[[2, 0, 1, 0x30 + i], [0, 8, 1, 2]] for i in range(3)]
    L = lambda a, b: [[1, 1, 4, a], [1, 2, 4, b]]
    P = lambda a, b: [[1, 3, 4, a], [1, 4, 4, b]]
    for a in B:
        for b in B:
            if a <= b:
                yield {"stream": g + L(a, b) + P(a, b) + f[0] + P(0, 0) + f[1] + L(-5, 9) + f[2] + [[0, 12, 0, 0]]}
                yield {"stream": g + P(a, b) + L(-5, 9) + f[0] + L(a, b) + f[1] + [[1, 10, 0, 0]] + P(3, 4) + L(3, 4) + f[2]
                       + [[1, 11, 0, 0]] + f[0] + [[0, 12, 0, 0]]}
    for d in (1, 2, 3, 5, 9, 33):
        for back, mid in ((None, 0), (2, 0), (3, 2), (None, 1)):
            yield {"stream": gen.nested_push(d, back, mid)}
    for n in list(range(2, 20)) + [127, 128, 255, 256, 300]:
        yield {"tree": app(*[v(0x90000 + i + 1, size=1) for i in range(n)])}
        yield {"tree": app(*[v(0x90000 + 2 * i, size=1) for i in range(n)])}
        yield {"tree": app(*[v(0x90000 + i, size=1, designator=4, string=2) for i in range(n)])}
        yield {"tree": app(*[v(0x90000 + i * 2, size=1, designator=i + 1) for i in range(n)])}
        yield {"tree": app(*[v(0x90000 + i, size=1, string=i + 9) for i in range(n)])}
        yield {"tree": app(*[v(0x10030, string=i + 250, designator=400 - i) for i in range(n)])}
        yield {"tree": app(*[v(0x10030, string=65200 + i, designator=251 + i) for i in range(n)])}
        yield {"tree": app({"t": "val", "way": "Output", "size": 8, "usage": None, "logicalMin": 1,
                            "namedArray": {"list": [0x80001 + i for i in range(n)]}})}
    for lo, hi in ((0, 1), (0, 255), (-127, 127), (0, 65535), (-2 ** 31, 2 ** 31 - 1), (5, 5), (0, 0)):
        for k in ({}, {"physicalMin": lo, "physicalMax": hi}, {"physicalMin": 0, "physicalMax": 0},
                  {"physicalMin": 3, "physicalMax": 9}):
            for k2 in ({}, {"physicalMin": lo, "physicalMax": hi}, {"physicalMin": 3, "physicalMax": 9}):
                yield {"tree": app(v(0x10030, logicalMin=lo, logicalMax=hi, **k),
                                   v(0x10031, logicalMin=3, logicalMax=9, **k2), v(0x10032, **k2))}
    for p in gen.PAGES + gen.ODD_PAGES:
        for u in (0, 1, 0xff, 0x100, 0xffff):
            yield {"tree": {"t": "coll", "kind": 1, "usage": p << 16 | u, "m": [v(p << 16 | u), v(p << 16 | 7)]}}
            yield {"tree": app(v(p << 16 | u), {"t": "coll", "kind": 2, "usage": p << 16 | u, "m": [v(p << 16 | 8)]})}


def generate(rng, i, tier):
    if i % 4 == 3:
        return {"stream": gen.descriptor(rng, force=rng.sample(("redundant", "phys", "full", "desig", "pushpop", "runs"), 2))}
    force = rng.sample(("runs", "phys", "units", "reports", "nested", "desig", "ranges"), 3)
    return {"tree": trees.tree(rng, force=force), "notation": rng.getrandbits(20)}


def trace(items, mon, handwritten=False):
    """Online checker; returns the data items as (events they make, usages, item)."""
    g = {S.PHYMIN: 0, S.PHYMAX: 0, S.UNIT: 0, S.UNITEXP: 0}
    stack, page_usages, desig, strings = [], [], [], []
    for n, it in enumerate(items):
        mon.count("items")
        name = S.KINDS[(it.kind, it.tag)]
        if it.kind == S.GLOBAL:
            if it.tag in (S.PUSH, S.POP) and not handwritten:
                raise Violation("compiled descriptor holds a %s" % name)
            if it.tag == S.PUSH:
                stack.append(dict(g))
                continue
            if it.tag == S.POP:
                g = stack.pop()
                continue
            if g.get(it.tag) == it.value:
                raise Violation("item %d restates %s(%d), which is in force already" % (n, name, it.value))
            g[it.tag] = it.value
        elif it.kind == S.LOCAL:
            if it.tag in S.USAGE_TAGS:
                if it.size == 4:
                    raise Violation("item %d is a 32-bit %s 0x%x" % (n, name, it.value))
                page_usages.append((it.tag, g.get(S.USAGE_PAGE, 0), it.value))
            if it.tag in (S.DIDX, S.DMIN, S.DMAX):
                desig.append((it.tag, it.value))
            if it.tag in (S.SIDX, S.SMIN, S.SMAX):
                strings.append((it.tag, it.value))
        else:
            if desig == [(S.DIDX, 0)] or not handwritten and (S.DIDX, 0) in desig:
                raise Violation("the item before %d is a designator of zero" % n)
            for what, lst, one in (("designators", desig, S.DIDX), ("strings", strings, S.SIDX)):
                if len(lst) >= 3 and not handwritten and lst[-1][1] < 65536 and all(t == one for t, _ in lst) and all(
                        a[1] + 1 == b[1] for a, b in zip(lst, lst[1:])):
                    raise Violation("data item %d lists %d consecutive %s one by one" % (n, len(lst), what))
                mon.count("index_ranges", any(t != one for t, _ in lst))
            desig, strings = [], []
            if it.tag in S.DATA_TAGS:
                log = (g.get(S.LOGMIN, 0), g.get(S.LOGMAX, 0))
                phy = (g[S.PHYMIN], g[S.PHYMAX])
                if log == phy and phy != (0, 0) and not it.value & S.CONSTANT:
                    raise Violation("data item %d has an explicit physical range %s equal to the logical one" % (n, phy))
                us = [(p, u) for t, p, u in page_usages if t == S.USAGE]
                if not handwritten and len(us) == len(page_usages) >= 3 and all(
                        a[0] == b[0] and a[1] + 1 == b[1] for a, b in zip(us, us[1:])):
                    raise Violation("data item %d lists %d consecutive usages one by one" % (n, len(us)))
                mon.count("range_items", any(t == S.UMIN for t, _, _ in page_usages))
            page_usages = []


def stream(case, mon):
    data = gen.to_bytes(case["stream"])
    try:
        S.meaning(S.decode(data))
    except S.Invalid:
        mon.count("invalid_input")
        return
    if "cli" in case:
        out = command(case["cli"], data, mon)
    else:
        with mon.sut("optimizing"):
            out = sut.optimize_bytes(data).bytes()
    try:
        items = S.decode(out)
        S.meaning(items)
    except (S.Malformed, S.Invalid) as e:
        raise Violation("optimized descriptor is not valid: %s" % e, output=hexs(out))
    try:
        trace(items, mon, True)
    except Violation as x:
        x.detail.update(input=S.show(S.decode(data)), output=S.show(items))
        raise
    mon.count("handwritten")
    mon.nontrivial(out)


def command(n, data, mon):
    """Optimized by the converter command."""
    a, b = FMT[n % 3], FMT[n // 3 % 3]
    contents = {"binary": data, "hex": data.hex(" ").encode(), "code": b"".join(b"0x%02x, " % x for x in data)}[a]
    opts = [["-i", a], ["-o", b], [("-O", "--optimize")[n % 2]]]
    random.Random(n).shuffle(opts)
    args = proc.CONVERTER + [x for o in opts for x in o]
    rc, out, err = proc.run(args, contents)
    if rc:
        raise Violation("converter exits with %d" % rc, args=args, stderr=err.decode(errors="replace")[-600:])
    mon.count("commands")
    try:
        return text.any_bytes(b, out)
    except Exception as e:
        raise Violation("%s output is not readable: %s" % (b, e), output=repr(out[:600]))


def run(case, mon):
    if "stream" in case:
        return stream(case, mon)
    marks = []
    want = trees.expected(case["tree"], marks)
    with mon.sut("compiling"):
        obj = trees.build(case["tree"], random.Random(case.get("notation", 0)))
        out = sut.compile_tree(obj).bytes()
        plain = sut.compile_tree(obj, 0, 0).bytes()
    if len(out) > len(plain) and not any(u >> 24 for u in usages(case["tree"])):
        raise Violation("the optimized descriptor is longer: %d bytes, %d without" % (len(out), len(plain)), output=hexs(out),
                        unoptimized=hexs(plain))
    mon.count("bytes_saved", len(plain) - len(out))
    try:
        items = S.decode(out)
    except S.Malformed as e:
        raise Violation("optimized descriptor is malformed: %s" % e, output=hexs(out))
    try:
        trace(items, mon)
        merged(items, want, marks, case["tree"], mon)
    except Violation as x:
        x.detail.setdefault("output", S.show(items))
        raise
    with mon.sut("optimizing the optimized descriptor"):
        again = sut.optimize_bytes(out).bytes()
        third = sut.optimize_bytes(again).bytes()
    if groups(again) != groups(out):
        raise Violation("optimizing again changes the descriptor", first=S.show(items), second=S.show(S.decode(again)))
    if third != again:
        raise Violation("optimizing a third time changes the descriptor", first=S.show(S.decode(again)),
                        second=S.show(S.decode(third)))
    mon.count("reoptimized")
    mon.nontrivial(out)
    mon.sample({"optimized": S.show(items)[:300]})


def usages(tree):
    for n in trees.walk(tree):
        yield n.get("usage") or 0
        yield from trees.array_usages(n["namedArray"]) if n.get("namedArray") else ()


def groups(data):
    """Items up to each main item, without the order of those of different tags."""
    out, cur = [], []
    for it in S.decode(data):
        cur.append(it)
        if it.kind == S.MAIN:
            out.append(sorted(cur, key=lambda i: i[:2]))
            cur = []
    return out + [sorted(cur, key=lambda i: i[:2])]


def merged(items, want, marks, tree, mon):
    """Neighbouring single-count variables that differ in usages only share their data item."""
    fields = [e for e in want if e[0] in ("var", "arr", "buf")]
    index = {id(e): n for n, e in enumerate(fields)}
    # data item of every field: fields in order, as spec.meaning produces them
    owner = []
    g = {}
    for n, it in enumerate(items):
        if it.kind == S.GLOBAL:
            g[it.tag] = it.value
        elif it.kind == S.MAIN and it.tag in S.DATA_TAGS and not it.value & S.CONSTANT:
            owner += [n] * (1 if it.value & S.BUFFERED else g.get(S.RCOUNT, 0))
    if len(owner) != len(fields):
        raise Violation("%d fields compiled for %d described" % (len(owner), len(fields)))
    ranged(items, owner, fields, mon)
    first = {}
    for node, at in marks:
        j = at
        while j < len(want) and want[j][0] not in ("var", "arr", "buf"):
            j += 1
        first[id(node)] = j
    for parent in trees.walk(tree):
        m = parent.get("m", ())
        for a, b in zip(m, m[1:]):
            if a["t"] != "val" or b["t"] != "val" or id(a) not in first or id(b) not in first:
                continue
            if a.get("count", 1) != 1 or b.get("count", 1) != 1 or not a["usage"] or not b["usage"]:
                continue
            i, j = first[id(a)], first[id(b)]
            x, y = want[i], want[j]
            if j != i + 1 or x[0] != "var" or y[0] != "var" or x[1:3] != y[1:3] or x[4] != y[4] or x[6:] != y[6:]:
                continue
            p, q = owner[index[id(x)]], owner[index[id(y)]]
            if p != q:
                raise Violation("fields 0x%x and 0x%x differ in usage only, and make two data items" % (x[5], y[5]))
            mon.count("merged_pairs")


def ranged(items, owner, fields, mon):
    """A data item for three or more consecutive usages carries one minimum/maximum pair."""
    of = {}
    for n, f in zip(owner, fields):
        of.setdefault(n, []).append(f)
    for n, fs in of.items():
        us = list(fs[0][5]) if fs[0][0] == "arr" else [f[5] for f in fs] if fs[0][0] == "var" else []
        if len(us) < 3 or None in us or any(a + 1 != b or a >> 16 != b >> 16 for a, b in zip(us, us[1:])):
            continue
        tags = []
        for it in reversed(items[:n]):
            if it.kind == S.MAIN:
                break
            if it.kind == S.LOCAL and it.tag in S.USAGE_TAGS:
                tags.append(it.tag)
        if sorted(tags) != sorted((S.UMIN, S.UMAX)):
            raise Violation("data item %d for usages 0x%x to 0x%x does not carry them as one range" % (n, us[0], us[-1]))
        mon.count("ranges_required")


def shrink(case):
    if "stream" in case:
        yield from shrink_field(case, "stream")
        return
    for t in trees.smaller(case["tree"]):
        yield dict(case, tree=t)
