"""Monitor: every encoded item is decoded again and compared with what was requested."""
from .. import gen, spec as S, sut, names
from ..core import Violation
from hrdc.util import NamedConstant

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("each evaluation is a block of values of one item kind (exhaustive 16-bit neighbourhood in blocks, "
        "all values within 3 of every power of two, random 32-bit values, ints and named constants, and "
        "out-of-range values that must be refused); a (kind, value) pair is non-trivial when it was encoded and "
        "decoded back, and is counted once")
ASSUMPTIONS = ["values are given as ints or named constants, as the library documents"]
BUDGET = {"quick": 400, "thorough": 6000}
FLOORS = {"roundtrips": 1000000, "refusals": 1000}
COVER = ["stream/item.py"]
BLOCK = 4096


def fixed(tier):
    span = 70000 if tier == "quick" else 600000
    for k, t in S.KINDS:
        if (k, t) in S.NODATA:
            yield {"k": k, "t": t, "values": [0], "bad": [1, 2, 255, 65536, -1]}
            continue
        signed = (k, t) in S.SIGNED
        lo = -span // 2 if signed else 0
        hi = span // 2 if signed else span
        for a in range(lo, hi, BLOCK):
            yield {"k": k, "t": t, "range": [a, min(hi, a + BLOCK)]}
        near = sorted({s * (1 << p) + d for p in range(0, 33) for d in range(-3, 4) for s in (1, -1)})
        yield {"k": k, "t": t, "values": [v for v in near if S.in_range(k, t, v)],
               "bad": [v for v in near if not S.in_range(k, t, v)] + [1 << 40, -(1 << 40), 1 << 64]}
        yield {"k": k, "t": t, "named": True, "values": [v for v in near if S.in_range(k, t, v)]}
        # structured values: few non-null nibbles, edge bytes, and neighbours of well-known ones
        vs = structured(signed)
        for a in range(0, len(vs), BLOCK):
            yield {"k": k, "t": t, "values": vs[a:a + BLOCK]}
        for base in known(k, t):
            vs = sorted({base} | {base ^ 1 << b for b in range(32)} | {base ^ n << b for b in range(0, 32, 4)
                                                                      for n in range(1, 16)})
            yield {"k": k, "t": t, "values": [v for v in vs if S.in_range(k, t, v)]}


def structured(signed):
    vs = {n << a | m << b for a in range(0, 32, 4) for b in range(0, a + 1, 4) for n in range(16) for m in range(16)}
    e = (0, 1, 0x7f, 0x80, 0xff)
    vs |= {a | b << 8 | c << 16 | d << 24 for a in e for b in e for c in e for d in e}
    if signed:
        vs = {v - (1 << 32) if v >> 31 else v for v in vs}
    return sorted(vs)


def known(k, t):
    if (k, t) == (S.GLOBAL, 6):
        return sorted(names.UNITS.values())
    if (k, t) == (S.GLOBAL, 0):
        return sorted(set(names.MODULE_PAGE.values()))
    if k == S.LOCAL and t in (0, 1, 2):
        return [0x10030, 0x70004, 0x90001, 0xa0002, 0xc00e9, 0xd0030, 0xf0021, 0x20003f, 0xff000001, 0x850044]
    return []


def generate(rng, i, tier):
    k, t = rng.choice([x for x in S.KINDS if x not in S.NODATA])
    if rng.random() < 0.2:
        vs = [rng.getrandbits(rng.randrange(33, 70)) * rng.choice((1, -1)) for _ in range(20)]
        if (k, t) not in S.SIGNED:
            vs += [-rng.getrandbits(rng.randrange(1, 33)) - 1 for _ in range(20)]
        return {"k": k, "t": t, "values": [], "bad": [v for v in vs if not S.in_range(k, t, v)]}
    vs = []
    for _ in range(400):
        v = rng.getrandbits(32) >> rng.randrange(0, 32)
        if (k, t) in S.SIGNED:
            v = (v >> 1) * rng.choice((1, -1))
        vs.append(v)
    return {"k": k, "t": t, "named": rng.random() < 0.3, "values": vs}


def make(k, t, v, named):
    cls = sut.ITEM_CLASS[(k, t)]
    if (k, t) == (S.MAIN, S.END) or k == S.GLOBAL and t in (S.PUSH, S.POP):
        return cls(v) if v else cls()
    return cls(NamedConstant("n%d" % v, v) if named else v)


def run(case, mon):
    k, t = case["k"], case["t"]
    name = S.KINDS[(k, t)]
    vs = range(*case["range"]) if "range" in case else case["values"]
    seen = mon.distinct.setdefault("nontrivial", set())
    for v in vs:
        with mon.sut("encoding and decoding %s(%d)" % (name, v)):
            i = make(k, t, v, case.get("named"))
            b = i.bytes()
            j = sut.item.Item.parse(b)
            got = (int(j.kind), int(j.tag), int(j.value))
            same = bool(j == i) and bool(i == j)
        if got != (k, t, v):
            raise Violation("%s(%d) encodes as %s which decodes as %s(%s)" % (
                name, v, b.hex(), S.KINDS.get(got[:2], got[:2]), got[2]))
        if not same:
            raise Violation("%s(%d) decoded back from %s does not compare equal" % (name, v, b.hex()))
        mon.count("roundtrips")
        seen.add((k << 4 | t, v))
    for v in case.get("bad", ()):
        mon.expect_raise("%s(%d)" % (name, v), lambda: make(k, t, v, False).bytes())
    mon.sample({"item": name, "values": list(vs)[:3], "refused": case.get("bad", [])[:3]})


def shrink(case):
    if "range" in case:
        a, b = case["range"]
        if b - a > 1:
            m = (a + b) // 2
            yield dict(case, range=[a, m])
            yield dict(case, range=[m, b])
    else:
        for v in case["values"]:
            if len(case["values"]) + len(case.get("bad", ())) > 1:
                yield dict(case, values=[v], bad=[])
        for v in case.get("bad", ()):
            if len(case["values"]) + len(case["bad"]) > 1:
                yield dict(case, values=[], bad=[v])
