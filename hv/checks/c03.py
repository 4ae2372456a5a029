"""Monitor: the items delivered by the binary reader against an independent decoder, for valid
and for damaged input."""
import io

from .. import gen, spec as S, sut
from ..core import Violation
from ..util import hexs, shrink_list

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("random sequences of well-formed short items with every legal data size, whole descriptors, and the same "
        "damaged by truncation, unassigned tags or long items; non-trivial: a distinct byte string whose delivered "
        "items were compared one by one with the independent decoder")
ASSUMPTIONS = ["hv/spec.py decodes HID 1.11 short items correctly"]
BUDGET = {"quick": 30000, "thorough": 250000}
FLOORS = {"items_compared": 100000, "refusals": 2000, "item_shapes": 90}
COVER = ["stream/parser/base.py", "stream/parser/binary.py", "stream/item.py"]

RESERVED = [h for h in range(256) if ((h >> 2) & 3, h >> 4) not in S.KINDS]


def fixed(tier):
    yield {"data": ""}
    for k, t in S.KINDS:
        for n in (0, 1, 2, 4):
            for fill in (0x00, 0x01, 0x7f, 0x80, 0xff, 0xfe):
                if (k, t) in S.NODATA and fill:
                    continue
                h = t << 4 | k << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]
                yield {"data": (bytes([h]) + bytes([fill]) * n).hex()}
                for m in range(0, n):
                    yield {"data": (b"\x05\x01" + bytes([h]) + bytes([fill]) * m).hex()}
    for h in RESERVED:
        n = (0, 1, 2, 4)[h & 3]
        for head in (b"", b"\x05\x01", b"\x75\x08\x95\x01"):
            for tail in (b"", b"\x81\x02", b"\xc0"):
                yield {"data": (head + bytes([h]) + bytes(n) + tail).hex()}
    yield {"data": (b"\x05\x01" + b"\xfe\x02\xf0\xab\xcd" + b"\x81\x02").hex()}
    for n in (1000, 20000):
        yield {"data": (b"\x09\x30\x81\x02" * n).hex()}
    # longer than any buffer, with items of every size at every phase of it
    for n in (255, 256, 1023, 1024, 4096, 8192, 16384, 65536) + ((1 << 17, 1 << 20) if tier == "thorough" else ()):
        for unit in (b"\x09\x30", b"\x0a\x30\x01", b"\x0b\x30\x00\x01\x00", b"\xa4\x09\x01\xb4"):
            for lead in range(0, len(unit)):
                yield {"data": (b"\xc0" * lead + unit * (n // len(unit) + 3)).hex()}
                if n <= 8192:
                    yield {"data": (b"\xc0" * lead + unit * (n // len(unit) + 3))[:n + 1].hex()}
    # what must not be skipped, at the end of and within long input
    for n in (10, 255, 257, 1025, 4097, 5000, 65537):
        base = b"\x09\x30\x81\x02" * (n // 4 + 1)
        for tail in (b"\x00", b"\x00" * 9, b"\x00" * 4096, b"\xff", b"\xff" * 5, b"\x0b", b"\x0b\x00\x00", b"\x0a", b"\xfe\x00\x00",
                     b"\x20", b"\x0a\x0d", b"\xc0" * 3, b"\x08" * 3, b"\xa0\xc0", b"\x09\x00" * 5, b"\x0b\x00\x00\x00\x00",
                     b"\x1a"):
            yield {"data": (base + tail).hex()}
            if n < 6000:
                yield {"data": (base + tail + base).hex()}
                yield {"data": (tail + base).hex()}
    for page in range(0, 0x10000, 97 if tier == "quick" else 7):
        yield {"data": (S.encode(1, 0, page) + S.encode(2, 0, (page * 31) & 0xffff)
                        + S.encode(2, 1, page) + S.encode(2, 2, page << 16 | 5)).hex()}


def generate(rng, i, tier):
    if rng.random() < 0.3:
        st = gen.descriptor(rng)
    else:
        st = gen.raw_stream(rng, rng.choice((1, 2, 5, 10, 30, 60)))
    d = gen.to_bytes(st)
    if rng.random() < 0.3:
        kind = rng.randrange(3)
        if kind == 0 and d:
            d = d[:rng.randrange(0, len(d))]
        elif kind == 1:
            cut = rng.randrange(0, len(st) + 1)
            h = rng.choice(RESERVED)
            d = gen.to_bytes(st[:cut]) + bytes([h]) + bytes(rng.getrandbits(8) for _ in range((0, 1, 2, 4)[h & 3])) \
                + gen.to_bytes(st[cut:])
        else:
            cut = rng.randrange(0, len(st) + 1)
            n = rng.randrange(0, 9)
            d = gen.to_bytes(st[:cut]) + bytes([0xfe, n, rng.getrandbits(8)]) \
                + bytes(rng.getrandbits(8) for _ in range(n)) + gen.to_bytes(st[cut:])
    return {"data": d.hex()}


def run(case, mon):
    data = bytes.fromhex(case["data"])
    try:
        want, bad = S.decode(data), None
    except S.Malformed as e:
        want, bad = e.before, e
    tap = sut.Tap()

    def go():
        sut.Parser.get("binary")(io.BytesIO(data), tap).read()
    if bad is None:
        with mon.sut("reading a well-formed stream"):
            go()
    else:
        mon.expect_raise("input with %s" % bad, go)
    with mon.sut("looking at delivered items"):
        got = tap.tuples()
    ref = [(w.kind, w.tag, w.value) for w in want]
    if bad is None and got != ref:
        d = S.first_difference(ref, got)
        raise Violation("item %d is delivered as %s instead of %s" % (d[0], d[2], d[1]), data=hexs(data)[:600])
    if bad is not None and got != ref[:len(got)]:
        d = S.first_difference(ref, got)
        raise Violation("item %d delivered before the error is %s instead of %s" % (d[0], d[2], d[1]),
                        data=hexs(data)[:600])
    if bad is None and tap.closed != 1:
        raise Violation("end of stream was notified %d times" % tap.closed, data=hexs(data)[:600])
    if tap.late:
        raise Violation("items delivered after end of stream", data=hexs(data)[:600])
    mon.count("items_compared", len(got))
    mon.nontrivial(data)
    for w in want:
        mon.see("item_shapes", (w.kind, w.tag, w.size))
    mon.count("malformed" if bad else "wellformed")
    mon.sample({"data": hexs(data)[:120], "items": len(got), "defect": str(bad) if bad else None})


def shrink(case):
    data = bytes.fromhex(case["data"])
    try:
        items, tail = S.decode(data), b""
    except S.Malformed as e:
        items, tail = e.before, data[e.at:]
    parts = []
    i = 0
    for it in items:
        parts.append(data[i:i + 1 + it.size])
        i += 1 + it.size
    for l in shrink_list(parts):
        yield {"data": (b"".join(l) + tail).hex()}
