"""Monitor: every encoding is read by an independent HID decoder and compared with the
reference shortest encoding."""
from .. import gen, spec as S, sut
from ..core import Violation
from . import c01

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("each evaluation is a block of values of one item kind (exhaustive 16-bit neighbourhood, all values within 3 "
        "of every power of two, random 32-bit values); a (kind, value) pair is non-trivial when its bytes were "
        "read back by the independent decoder and compared with the shortest reference encoding")
ASSUMPTIONS = ["hv/spec.py encodes the HID 1.11 short item format and tag assignment correctly"]
BUDGET = {"quick": 400, "thorough": 6000}
FLOORS = {"encodings": 1000000, "size_class": 80}
COVER = ["stream/item.py"]


def fixed(tier):
    for c in c01.fixed(tier):
        c.pop("bad", None)
        yield c


def generate(rng, i, tier):
    while True:
        c = c01.generate(rng, i, tier)
        if c["values"]:
            c.pop("bad", None)
            return c


def run(case, mon):
    k, t = case["k"], case["t"]
    name = S.KINDS[(k, t)]
    vs = range(*case["range"]) if "range" in case else case["values"]
    seen = mon.distinct.setdefault("nontrivial", set())
    for v in vs:
        with mon.sut("encoding %s(%d)" % (name, v)):
            b = bytes(c01.make(k, t, v, case.get("named")).bytes())
        try:
            r = S.decode(b)
        except S.Malformed as e:
            raise Violation("%s(%d) encodes as %s: %s" % (name, v, b.hex(), e))
        if len(r) != 1 or (r[0].kind, r[0].tag, r[0].value) != (k, t, v):
            raise Violation("%s(%d) encodes as %s, which HID reads as %s" % (name, v, b.hex(), S.show(r)))
        want = S.encode(k, t, v)
        if b != want:
            raise Violation("%s(%d) encodes as %s, shortest encoding is %s" % (name, v, b.hex(), want.hex()))
        mon.count("encodings")
        seen.add((k << 4 | t, v))
        mon.distinct.setdefault("size_class", set()).add((k, t, r[0].size, v < 0))
    mon.sample({"item": name, "values": list(vs)[:3]})


shrink = c01.shrink
