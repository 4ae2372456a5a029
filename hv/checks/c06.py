"""Monitor over code listings: every line is one item, and its comment, resolved through the
constant tables, names the value in its bytes."""
import random
import re

from .. import gen, spec as S, sut, text, names, trees
from ..core import Violation
from ..treecheck import app, val
from ..util import shrink_field

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("listings of parsed random item sequences, of parsed descriptors (optimized and not) and of compiled "
        "description trees; every line is decoded and its comment resolved; non-trivial: a distinct (item kind, value, "
        "usage page, comment) seen")
ASSUMPTIONS = ["a comment is the item name followed by its value in parentheses, as in the documentation",
               "data item flags are within the nine bits HID defines"]
BUDGET = {"quick": 20000, "thorough": 100000}
FLOORS = {"lines": 100000, "usage_names": 1200, "kinds_seen": 27}
COVER = ["stream/formatter/code.py", "stream/item.py", "stream/parser/base.py", "usage/usage.py"]


def fixed(tier):
    # every usage of every page, named on its page, and as a full usage
    for m, d in sorted(names.GOLDEN.items()):
        if m == "arcade":
            continue
        st = []
        for n, v in sorted(d["names"].items()):
            st.append([1, 0, 2, v >> 16])
            st.append([2, 0, 2, v & 0xffff])
            st.append([2, 0, 4, v])
            if len(st) > 120:
                yield {"kind": "parsed", "stream": st}
                st = []
        yield {"kind": "parsed", "stream": st}
    for d in list(range(1, 10)) + [17, 40]:
        for back, mid in ((None, 0), (2, 0), (None, 1)):
            yield {"kind": "parsed", "stream": gen.nested_push(d, back, mid)}
    for p in (9, 10):
        yield {"kind": "parsed", "stream": [[1, 0, 1, p]] + [[2, 0, 2, n] for n in range(0, 260)]}
    for p in sorted(set(names.PAGE_NAMES.values())) + gen.ODD_PAGES:
        yield {"kind": "parsed", "stream": [[1, 0, 2, p]] + [[2, t, 2, n] for n in range(0, 0x120) for t in (0,)]
               + [[2, 1, 2, 1], [2, 2, 2, 3], [2, 0, 4, p << 16 | 0x31]]}
    for p in (9, 10):
        for n in (1, 2, 126, 127, 128, 129, 255, 256, 1000, 0x7fff, 0x8000, 0xffff):
            for k in range(4):
                us = [p << 16 | max(0, n - i) for i in range(3)]
                yield {"kind": ("compiled", "unoptimized")[k % 2], "notation": k * 7 + n, "tree": app(
                    *[val(u) for u in us + us[::-1]], val(None, namedArray={"list": us}), usage=us[0])}
    yield {"kind": "parsed", "stream": [[0, 10, 1, v] for v in range(256)] + [[0, 12, 0, 0]] * 256}
    for t in S.DATA_TAGS:
        yield {"kind": "parsed", "stream": [[0, t, 2, v] for v in range(512)]}
    yield {"kind": "parsed", "stream": [[1, S.UNIT, 4, v] for v in list(names.UNITS.values())
                                        + [0, 1, 2, 3, 4, 0xf, 0x21, 0xffffffff]]}
    yield {"kind": "parsed", "stream": [[1, 0, 1, 1], [2, 0, 1, 0x30], [1, 10, 0, 0], [1, 0, 1, 9], [2, 0, 1, 1],
                                        [1, 11, 0, 0], [2, 0, 1, 0x31]]}


def generate(rng, i, tier):
    r = rng.random()
    if r < 0.35:
        st = [x for x in gen.balanced_raw_stream(rng, rng.choice((3, 10, 40, 80)))]
        for x in st:
            if x[0] == 0 and x[1] in S.DATA_TAGS and x[3] >= 512:
                x[3] %= 512
                x[2] = 2
            if x[0] == 1 and x[1] == 0 and rng.random() < 0.6:
                x[3] = rng.choice(gen.PAGES)
                x[2] = 2
            if x[0] == 2 and x[1] < 3 and rng.random() < 0.6:
                x[3] = rng.randrange(0, 300)
                x[2] = 2
        if rng.random() < 0.7:
            # keep pop balanced
            d, out = 0, []
            for x in st:
                if x[:2] == [1, S.PUSH]:
                    d += 1
                if x[:2] == [1, S.POP]:
                    if not d:
                        continue
                    d -= 1
                out.append(x)
            st = out
        else:
            st = [x for x in st if x[:2] != [1, S.POP]]
        return {"kind": "parsed", "stream": st}
    if r < 0.7:
        return {"kind": rng.choice(("parsed", "optimized")), "stream": gen.descriptor(rng)}
    return {"kind": rng.choice(("compiled", "unoptimized")), "tree": trees.tree(rng), "notation": rng.getrandbits(20)}


KNOWN = {v for m, d in names.GOLDEN.items() for v in d["names"].values() if m != "arcade"} \
    | {p << 16 | n for p in (9, 10) for n in range(1, 128)}


def has_name(k, t, v, page):
    """Whether the constant tables have a name for the value of an item."""
    if k == S.MAIN:
        return v < 512 if t in S.DATA_TAGS else v in names.COLLECTIONS.values()
    if k == S.GLOBAL:
        return t == S.UNIT and v in names.UNITS.values() or t == S.USAGE_PAGE and v in names.PAGE_NAMES.values()
    return t in S.USAGE_TAGS and (v if v >> 16 else page << 16 | v) in KNOWN


def check_listing(txt, mon):
    try:
        lines = text.listing(txt)
    except ValueError as e:
        raise Violation("listing: %s" % e)
    page, stack, depth = 0, [], 0
    indents = {}
    out = []
    for data, ind, com in lines:
        try:
            its = S.decode(data)
        except S.Malformed as e:
            raise Violation("line with %s: %s" % (data.hex(), e))
        if len(its) != 1:
            raise Violation("line with %s holds %d items" % (data.hex(), len(its)))
        it = its[0]
        k, t, v = it.kind, it.tag, it.value
        name = S.KINDS[(k, t)]
        m = re.match(r"^([A-Za-z]+)(?: \((.*)\))?$", com)
        if not m or m.group(1) != name:
            raise Violation("comment %r on a line holding %s(%d)" % (com, name, v))
        arg = m.group(2)
        if (k, t) in S.NODATA:
            if arg is not None and names.number(arg) != 0:
                raise Violation("comment %r on a %s" % (com, name))
        else:
            if arg is None:
                got = 0 if (k, t) == (S.MAIN, S.INPUT) else None
            elif k == S.MAIN and t in S.DATA_TAGS:
                got = names.flags(arg)
            elif k == S.MAIN:
                got = names.table(arg, names.COLLECTIONS)
            elif k == S.GLOBAL and t == S.UNIT:
                got = names.table(arg, names.UNITS)
            elif k == S.GLOBAL and t == S.USAGE_PAGE:
                got = names.table(arg, names.PAGE_NAMES)
            elif k == S.LOCAL and t in S.USAGE_TAGS:
                got = names.usage(arg, page)
                if names.number(arg) is None:
                    mon.see("usage_names", (arg, v, page if v < 1 << 16 else None))
            else:
                got = names.number(arg)
            if arg is not None and names.number(arg) is not None and has_name(k, t, v, page):
                raise Violation("comment %r gives a number where the tables have a name%s" % (
                    com, " on usage page 0x%x" % page if k == S.LOCAL else ""))
            if got != v:
                raise Violation("comment %r on a line holding %s(%d = 0x%x)%s" % (
                    com, name, v, v, " on usage page 0x%x" % page if k == S.LOCAL else ""))
        if k == S.GLOBAL and t == S.USAGE_PAGE:
            page = v
        elif k == S.GLOBAL and t == S.PUSH:
            stack.append(page)
        elif k == S.GLOBAL and t == S.POP and stack:
            page = stack.pop()
        if (k, t) == (S.MAIN, S.END):
            depth -= 1
        indents.setdefault(depth, set()).add(ind)
        if (k, t) == (S.MAIN, S.COLLECTION):
            depth += 1
        mon.count("lines")
        mon.see("kinds_seen", (k, t))
        mon.nontrivial((k, t, v, page if k == S.LOCAL else 0, com))
        out.append(it)
    for d, s in indents.items():
        if len(s) != 1:
            raise Violation("lines at nesting depth %d are indented by %s" % (d, sorted(s)))
    if 0 in indents and 1 in indents:
        b = min(indents[0])
        w = min(indents[1]) - b
        if w <= 0:
            raise Violation("no indentation inside collections")
        for d, s in indents.items():
            if min(s) != b + d * w:
                raise Violation("depth %d is indented by %d, depth 1 by %d" % (d, min(s), b + w))
        mon.count("indented_listings")
    mon.sample({"listing": txt[:240]})
    return out


def run(case, mon):
    if case["kind"] in ("parsed", "optimized"):
        data = gen.to_bytes(case["stream"])
        with mon.sut("listing a parsed stream"):
            t = sut.parse("binary", data) if case["kind"] == "parsed" else sut.optimize_bytes(data)
            txt = sut.render("code", t.items)
            want = t.bytes()
    else:
        with mon.sut("listing a compiled description"):
            o = trees.build(case["tree"], random.Random(case["notation"]) if "notation" in case else None)
            t = sut.compile_tree(o, 0, 100 if case["kind"] == "compiled" else 0)
            txt = sut.render("code", t.items)
            want = t.bytes()
    check_listing(txt, mon)
    if text.code_bytes(txt) != want:
        raise Violation("listing does not hold the bytes of the stream")


def shrink(case):
    if "stream" in case:
        yield from shrink_field(case, "stream")
    else:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
