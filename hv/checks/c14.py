"""Monitor: a descriptor is decompiled and compiled again; an independent interpreter compares the
devices the first and last byte strings describe."""
import random

from .. import gen, spec as S, sut, trees, real
from ..core import Violation
from ..util import hexs, shrink_field, stream_of, same_meaning

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("real descriptors, words of descriptor fragments, random valid descriptors within the description language, those that random edits left valid, and "
        "compiled random trees (optimized or not), decompiled then compiled with and without passes; non-trivial: a "
        "distinct descriptor whose events were compared after the round trip")
ASSUMPTIONS = ["expressible: no delimiters, arrays either name every logical value or have at most one usage, no more "
               "usages than elements, no zero counts, no usages of the undefined page 0; usages, physical range and unit of constants and named arrays, "
               "and designators or strings of collections have no notation in the language"]
BUDGET = {"quick": 16000, "thorough": 200000}
FLOORS = {"roundtrips": 10000, "events_compared": 80000, "event_arr": 500, "event_buf": 300, "event_pad": 2000, "damaged": 800}
COVER = ["descriptor/extractor.py"]


def fixed(tier):
    for n, h in sorted(real.REAL.items()):
        yield {"stream": stream_of(bytes.fromhex(h))}
    for w in gen.fragment_words(tier, exclude=("delim",)):
        yield {"words": w}
    for st in gen.page_streams():
        yield {"stream": st}
    for st in gen.twin_streams():
        yield {"stream": st}
    for st in gen.selector_streams():
        yield {"stream": st}
    for d in list(range(1, 10)) + [17, 40]:
        for back, mid in ((None, 0), (2, 0), (None, 1)):
            yield {"stream": gen.nested_push(d, back, mid)}
    yield {"stream": []}
    yield {"stream": [[1, 0, 1, 1]]}
    # padding of no bits
    for size, cnt in ((0, 0), (0, 1), (8, 0), (1, 0), (0, 7), (3, 0)):
        for fl in (1, 3, 5):
            g0 = [[1, 0, 1, 1], [2, 0, 1, 2], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 8], [1, 9, 1, 1]]
            z = [[1, 7, 1, size], [1, 9, 1, cnt], [0, 8, 1, fl], [1, 7, 1, 8], [1, 9, 1, 1]]
            x = [[2, 0, 1, 0x30], [0, 8, 1, 2]]
            yield {"stream": g0 + x + z + x + [[0, 12, 0, 0]]}
            yield {"stream": g0 + z + x + z + [[0, 12, 0, 0]] + z}
            yield {"stream": g0 + [[1, 8, 1, 4]] + x + [[1, 8, 1, 5]] + z + [[1, 8, 1, 4]] + x + [[0, 12, 0, 0]]}
            for a in (1, 3, 5, 9):
                w = [[1, 7, 1, a]] + x + [[1, 7, 1, 8]]
                yield {"stream": g0 + w + z + x + x + [[0, 12, 0, 0]]}
                yield {"stream": g0 + w + z + [[1, 7, 1, 16]] + x + z + w + z + [[1, 9, 1, 3]] + x + [[0, 12, 0, 0]]}
    # long ranges and many elements
    big = [[1, 0, 2, 0xff42], [2, 0, 1, 2], [0, 10, 1, 1], [1, 7, 1, 17], [1, 1, 1, 1]]
    for n in (255, 256, 257, 1023, 1025, 4095, 4097, 5000, 32769, 65535):
        r = [[2, 1, 2, 1], [2, 2, 2, n]]
        yield {"stream": big + [[1, 2, 4, n], [1, 9, 1, 2]] + r + [[0, 8, 1, 0], [0, 12, 0, 0]]}
        if n <= 5000:
            yield {"stream": big + [[1, 2, 4, 5], [1, 9, 2, n]] + r + [[0, 8, 1, 2], [0, 12, 0, 0]]}
            yield {"stream": big + [[1, 2, 4, 5], [1, 9, 2, n + 3]] + r + [[0, 9, 1, 2], [2, 0, 1, 9], [0, 0xb, 1, 2], [0, 12, 0, 0]]}
            yield {"stream": big + [[1, 2, 4, n]] + [[1, 9, 1, 1]] + [[2, 0, 2, 1 + i * 3 % 65000] for i in range(n)] + [
                [0, 8, 1, 0], [1, 9, 2, n], [0, 8, 2, 0x102], [0, 12, 0, 0]]}
    # fields before, between and after the collections
    g = [[1, 0, 1, 1], [1, 2, 1, 1], [1, 7, 1, 8], [1, 9, 1, 1]]
    f = [[[2, 0, 1, 0x30 + i], [0, 8, 1, 2]] for i in range(3)]
    c = [[2, 0, 1, 2], [0, 10, 1, 1], [2, 0, 1, 0x38], [0, 8, 1, 2], [0, 12, 0, 0]]
    for m in range(8):
        for ids in ([[]] * 3, [[[1, 8, 1, i + 1]] for i in range(3)]):
            a = [ids[i] + f[i] if m >> i & 1 else [] for i in range(3)]
            r = ids[0]
            yield {"stream": g + a[0] + r + c + a[1] + r + c + a[2]}
            yield {"stream": g + a[0] + r + c + a[2] + [[0, 8, 1, 1]] * (m & 1)}
            yield {"stream": g + a[0] + a[1] + a[2]}
    # layouts the compiler would not choose itself: unaligned, odd sizes
    for a in (1, 3, 5, 8, 11, 16):
        for b in (1, 4, 7, 8, 12, 16, 32):
            st = [[1, 0, 1, 1], [2, 0, 1, 2], [0, 10, 1, 1], [1, 2, 1, 1], [1, 9, 1, 1], [1, 7, 1, a], [2, 0, 1, 0x30],
                  [0, 8, 1, 2], [1, 7, 1, b], [2, 0, 1, 0x31], [0, 8, 1, 2], [2, 0, 1, 0x32], [0, 8, 1, 2],
                  [1, 9, 1, 3], [2, 0, 1, 0x33], [2, 0, 1, 0x35], [0, 9, 1, 2], [2, 0, 1, 0x38], [0, 8, 1, 6],
                  [0, 12, 0, 0]]
            yield {"stream": st}
            for r in (1, 200):
                yield {"stream": st[:3] + [[1, 8, 1, r]] + st[3:8] + [[1, 8, 1, 7]] + st[8:11] + [[1, 8, 1, r]] + st[11:]}


def generate(rng, i, tier):
    r = rng.random()
    if r > 0.85:
        return {"stream": gen.valid_damaged(rng, strict=True), "damaged": True}
    if r < 0.5:
        return {"stream": gen.descriptor(rng, language=True)}
    if r < 0.7:
        ns = [n for n in gen.FRAGMENTS if n != "delim"]
        return {"words": [rng.choice(ns) for _ in range(rng.randrange(3, 10))]}
    return {"tree": trees.tree(rng), "opt": rng.random() < 0.5}


def expressible(items):
    g, stack = {}, []
    n, lo = 0, {}
    for it in items:
        k, t, v = it.kind, it.tag, it.value
        if k == S.GLOBAL:
            if t == S.PUSH:
                stack.append(dict(g))
            elif t == S.POP:
                g = stack.pop()
            else:
                g[t] = v
        elif k == S.LOCAL:
            if t == S.DELIM:
                return False
            if t in S.USAGE_TAGS and not (v >> 16 or g.get(S.USAGE_PAGE, 0)):
                return False            # undefined page
            if t == S.USAGE:
                n += 1
            elif t in (S.UMIN, S.UMAX):
                lo[t] = v & 0xffff
                if len(lo) == 2:
                    n += lo[S.UMAX] - lo[S.UMIN] + 1
                    lo = {}
        else:
            if t in S.DATA_TAGS and not v & S.CONSTANT:
                c = g.get(S.RCOUNT, 0)
                span = g.get(S.LOGMAX, 0) - g.get(S.LOGMIN, 0) + 1
                if not c or not g.get(S.RSIZE, 0):
                    return False
                if v & S.BUFFERED and n > 1:
                    return False
                if not v & S.BUFFERED and v & S.VARIABLE and n > c:
                    return False
                if not v & (S.BUFFERED | S.VARIABLE) and n > 1 and n != span:
                    return False
            n, lo = 0, {}
    return True


def run(case, mon):
    if "tree" in case:
        with mon.sut("compiling"):
            data = sut.compile_tree(trees.build(case["tree"]), 0, 100 if case["opt"] else 0).bytes()
    else:
        data = gen.to_bytes(gen.from_fragments(case["words"]) if "words" in case else case["stream"])
    try:
        items = S.decode(data)
        before = S.meaning(items, S.LANGUAGE)
        ok = expressible(items)
        if ok and case.get("damaged"):
            ok = gen.plain(items) and gen.conforming(items)
            mon.count("damaged", ok)
    except (S.Invalid, S.Malformed, IndexError):
        ok = False
    if not ok:
        mon.count("not_expressible")
        return
    with mon.sut("decompiling"):
        tree = sut.decompile(data)
    for hi in (0, 100):
        with mon.sut("compiling the decompiled description"):
            t = sut.compile_tree(tree, 0, hi)
            b = t.bytes()
        try:
            out = S.decode(b)
            after = S.meaning(out, S.LANGUAGE)
        except (S.Malformed, S.Invalid) as e:
            raise Violation("recompiled descriptor is not valid: %s" % e, input=S.show(items), output=hexs(b))
        same_meaning(before, after, None, "recompiled descriptor", input=S.show(items), output=S.show(out))
        mon.count("roundtrips")
        mon.count("events_compared", len(before))
    for e in before:
        mon.count("event_" + e[0])
    mon.nontrivial(data)
    mon.sample({"input": S.show(items)[:300], "recompiled": S.show(out)[:300]})


def shrink(case):
    if "tree" in case:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
    elif "words" in case:
        yield from shrink_field(case, "words")
        yield {"stream": gen.from_fragments(case["words"])}
    else:
        yield from shrink_field(case, "stream")
