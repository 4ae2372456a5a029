"""Monitor: the comparison helper used as a test would, on exact and on altered expectations."""
import random
import unittest

from .. import gen, spec as S, sut, trees
from ..core import Violation
from ..treecheck import val, app

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("for each description, its optimized bytes (encoded by the harness from the decoded items) as expected listing in "
        "human layouts with comments must pass; every single-byte change, deletion and insertion at every position for "
        "small ones, and sampled ones plus truncation, extension, reordering and the listings of other descriptions for "
        "random trees, and tokens that are no byte values, must make the test case fail; non-trivial: a distinct (description, altered bytes) rejected")
ASSUMPTIONS = []
BUDGET = {"quick": 1500, "thorough": 30000}
FLOORS = {"accepted": 2500, "rejected": 20000}
COVER = ["descriptor/test.py", "stream/comparer.py"]


def fixed(tier):
    small = [app(), app(val(0x10030)), app(val(0x10030), val(0x10031), val(0x10032)), app(val(0x10030, size=3), val(0x10031)),
             app(val(0xc00e9, logicalMin=-300, logicalMax=70000), kind=0x80), {"t": "top", "m": []},
             app(val(0x10030, unit=0x1000000, logicalMin=-0x1000000, logicalMax=0x1000000, string=0x1000000)),
             app(val(0x10030, physicalMin=0x10000, physicalMax=0x20000), usage=0x10000),
             app(val(0x80001, namedArray={"list": [0x80002, 0x80003]})), {"t": "top", "m": [app(), app(val(0x10030))]}]
    for t in small:
        yield {"tree": t, "mode": "exact", "seed": 1}
        yield {"tree": t, "mode": "every", "seed": 1}
        for s in range(12):
            yield {"tree": t, "mode": "exact", "seed": s}


def generate(rng, i, tier):
    return {"tree": trees.tree(rng), "mode": ("exact", "sample")[i % 2], "seed": rng.getrandbits(30),
            "other": trees.tree(rng) if rng.random() < 0.3 else None}


def verdict(obj, listing):
    """Runs the helper inside a real test; True when the test passes."""
    from hrdc.descriptor.test import descriptor_expected

    class T(unittest.TestCase):
        def runTest(self):
            descriptor_expected(self, obj, listing)
    res = unittest.TestResult()
    T().run(res)
    return res.wasSuccessful() and res.testsRun == 1 and not res.skipped, res


def style(rng, data):
    return gen.noisy_code(rng, data) if rng.random() < 0.7 else "".join("0x%02x, " % b for b in data)


def run(case, mon):
    rng = random.Random(case["seed"])
    with mon.sut("compiling"):
        obj = trees.build(case["tree"])
        data = sut.compile_tree(obj).bytes()
    ok = style(rng, data)
    good, res = verdict(obj, ok)
    if not good:
        raise Violation("the exact listing is rejected", listing=ok[:1500],
                        failure=str((res.failures + res.errors)[:1])[-800:])
    mon.count("accepted")
    if case["mode"] == "exact":
        for _ in range(3):
            ok = style(rng, data)
            if not verdict(obj, ok)[0]:
                raise Violation("the exact listing in another layout is rejected", listing=ok[:1500])
            mon.count("accepted")
        mon.nontrivial(ok.encode("utf-8", "replace"))
        return
    for what, bad in alterations(case, rng, data):
        if bad == data:
            continue
        txt = style(rng, bad)
        if verdict(obj, txt)[0]:
            raise Violation("a listing with %s passes" % what, listing=txt[:1500], expected=data.hex(), listed=bad.hex())
        mon.count("rejected")
        mon.nontrivial((data, bad))
    # the listing holds something that is no byte: it cannot be the expected one
    for what, txt in non_bytes(case, rng, data):
        if verdict(obj, txt)[0]:
            raise Violation("a listing with %s passes" % what, listing=txt[:1500], expected=data.hex())
        mon.count("rejected")
        mon.nontrivial((data, txt))
    mon.sample({"bytes": data.hex()[:80], "listing": ok[:120]})


def non_bytes(case, rng, data):
    n = len(data)
    where = range(n) if case["mode"] == "every" else sorted({rng.randrange(n) for _ in range(3)} | {0, n - 1}) if n else ()
    for i in where:
        for what, tok in (("byte %d given as byte + 0x100", "0x%x" % (data[i] + 0x100)),
                          ("byte %d given as byte + 0x10000", "0x%x" % (data[i] + 0x10000)),
                          ("byte %d given as a negative number", "-0x%x" % (0x100 - data[i])),
                          ("byte %d given as a word", "EndCollection")):
            toks = ["0x%02x" % b for b in data]
            toks[i] = tok
            yield what % i, ",\n".join(toks)
    for tok in ("0x100", "0x1c0", "-0x1", "nothing", "0x"):
        yield "%s after the last byte" % tok, ", ".join(["0x%02x" % b for b in data] + [tok])


def wide(data):
    """The same items, one of them or all encoded with more data bytes than needed, or fewer."""
    its = S.decode(data)
    enc = [S.encode(a.kind, a.tag, a.value, a.size) for a in its]

    def other(a):
        for size in (0, 1, 2, 4):
            if size > a.size or not size and not a.value and a.size:
                try:
                    yield S.encode(a.kind, a.tag, a.value, size)
                except Exception:
                    pass
    for i, a in enumerate(its):
        for e in other(a):
            yield "item %d as %s" % (i, e.hex()), b"".join(enc[:i] + [e] + enc[i + 1:])
    yield "all items wider", b"".join(list(other(a))[-1] if list(other(a)) else e for a, e in zip(its, enc))


def alterations(case, rng, data):
    n = len(data)
    if case["mode"] == "every":
        for i in range(n):
            for m in (1, 0x80, 0xff, 0x10, 3):
                yield "byte %d changed" % i, data[:i] + bytes([data[i] ^ m]) + data[i + 1:]
            yield "byte %d missing" % i, data[:i] + data[i + 1:]
            yield "bytes from %d on missing" % i, data[:i]
            if i:
                yield "bytes before %d missing" % i, data[i:]
        for i in range(n + 1):
            for b in (0, 0xc0, 0x81, data[i - 1] if n else 5):
                yield "byte added at %d" % i, data[:i] + bytes([b]) + data[i:]
        for i in range(n):
            for k in (2, 3):
                yield "byte %d repeated" % i, data[:i] + data[i:i + 1] * k + data[i:]
        yield from wide(data)
        for i in range(n - 1):
            yield "bytes %d and %d swapped" % (i, i + 1), data[:i] + data[i + 1:i + 2] + data[i:i + 1] + data[i + 2:]
    else:
        for _ in range(12):
            i = rng.randrange(n + 1)
            j = min(n, i + rng.choice((1, 1, 2, 3, 8)))
            k = rng.randrange(5)
            if k == 0 and i < n:
                yield "byte %d changed" % i, data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
            elif k == 1:
                yield "bytes %d to %d missing" % (i, j), data[:i] + data[j:]
            elif k == 2:
                yield "bytes added at %d" % i, data[:i] + rng.randbytes(rng.choice((1, 2, 5))) + data[i:]
            elif k == 3:
                yield "bytes %d to %d repeated" % (i, j), data[:j] + data[i:]
            else:
                yield "bytes %d to %d moved to the end" % (i, j), data[:i] + data[j:] + data[i:j]
        for w in list(wide(data)):
            if rng.random() < 0.2:
                yield w
        # whole items
        its = S.decode(data)
        enc = [S.encode(a.kind, a.tag, a.value, a.size) for a in its]
        for _ in range(4):
            if enc:
                i = rng.randrange(len(enc))
                yield "item %d missing" % i, b"".join(enc[:i] + enc[i + 1:])
                yield "item %d twice" % i, b"".join(enc[:i + 1] + enc[i:])
                yield "items after %d missing" % i, b"".join(enc[:i])
        plain = sut.compile_tree(trees.build(case["tree"]), 0, 0).bytes()
        yield "the unoptimized bytes", plain
        if case.get("other"):
            o = sut.compile_tree(trees.build(case["other"])).bytes()
            yield "the bytes of another description", o
            yield "the bytes of another description appended", data + o
    yield "one more byte at the end", data + b"\xc0"
    yield "two more bytes at the end", data + b"\x05\x01"
    yield "nothing", b""
    yield "everything twice", data + data


def shrink(case):
    for t in trees.smaller(case["tree"]):
        yield dict(case, tree=t)
