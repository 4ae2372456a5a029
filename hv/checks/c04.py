"""Monitor: items through each writer and reader, against independent text readers, with
layout and comment noise."""
from .. import gen, spec as S, sut, text
from ..core import Violation
from ..util import hexs, shrink_field

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("random item sequences and whole descriptors written in all three formats and read back, human-style "
        "renderings (case, prefixes, line breaks, // and /* */ comments with arbitrary contents) read by the hex and "
        "code readers, and code texts holding a non-byte token; non-trivial: a distinct text or byte string read "
        "back and compared item by item")
ASSUMPTIONS = ["hex text separates bytes by non-word characters, as its writer and Linux debugfs do",
               "text handed to the code reader has properly terminated comments"]
BUDGET = {"quick": 20000, "thorough": 120000}
FLOORS = {"items_compared": 300000, "refusals": 500, "noisy_texts": 4000}
COVER = ["stream/parser/", "stream/formatter/"]
BAD = ["0x100", "0x1ff", "256", "zz", "0xgg", "1.5", "-1", "0x-1", "{", "foo(1)", "\"a\"", "0x05;", "0x", "0x05 0x01",
       "5 1", "1_0", "+5", "x05", "05h", "/", "#", "0b2z", "+-1", "'a'", "uint8_t", "0x0_5", "0x_05", "0_5", "+0x05", "-0x05", "0x+5",
       "0b101", "0o17", "0x05u", "5.", "0x 05", "0 x05", "5L", "(5)", "0x05/**/0x01", "\u0665", "\uff15", "0x\u0665", "0xx5",
       "0x0x5", "00x5", "0x05\\", "0x05,;", "$05", "05 h", "-0", "0x-0", "~0", "!5", "0x05:", "%05", "0x12345", "0x000100"]
# a byte list with the token where its value would make a well-formed item, were it taken for a byte or for several
CONTEXTS = ["%s", "0x05, 0x01, %s", "0x09, %s", "0x09, %s, 0x81, 0x02", "0x0a, %s, 0x01", "0x0a, %s", "0x0a, 0x01, %s, 0xc0",
            "%s, 0x01", "%s, 0x01, 0x02", "0x05, 0x01, %s, 0x09, 0x02", "0x0b, 0x01, %s, 0x01, 0x00", "0x0b, %s, 0x01"]


def fixed(tier):
    yield {"stream": [], "noise": 1}
    for k, t in S.KINDS:
        for v in ([0] if (k, t) in S.NODATA else [0, 1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff]
                  + ([-1, -128, -129, -32769, -2147483648] if (k, t) in S.SIGNED else [0xffffffff])):
            yield {"stream": [[k, t, S.min_size(k, t, v) if (k, t) not in S.NODATA else 0, v]], "noise": 2}
    allb = [[2, 0, 4, a << 24 | b << 16 | c << 8 | d] for a, b, c, d in
            zip(*[iter(range(256))] * 4)]
    for n in range(20):
        yield {"stream": allb, "noise": n}
    for b in BAD:
        for c in CONTEXTS:
            yield {"text": c % b}
            yield {"text": "\n" + c.replace(", ", ",\n") % b + ",\n"}
    for n in (255, 1000, 4096, 20000):
        st = [[2, 0, (1, 2, 4)[i % 3], i % 251] for i in range(n)]
        yield {"stream": st, "noise": n}
    for b in BAD:
        yield {"stream": [[1, 0, 1, 1], [2, 0, 1, 2], [0, 8, 1, 2]], "bad": b, "pos": 0, "noise": 3}
        yield {"stream": [[1, 0, 1, 1], [2, 0, 1, 2], [0, 8, 1, 2]], "bad": b, "pos": 6, "noise": 3}


def generate(rng, i, tier):
    r = rng.random()
    if r < 0.3:
        st = gen.descriptor(rng)
    elif r < 0.7:
        st = gen.balanced_raw_stream(rng, rng.choice((1, 3, 10, 40)))
    else:
        st = gen.raw_stream(rng, rng.choice((1, 3, 10, 40)))
    c = {"stream": st, "noise": rng.getrandbits(30)}
    if rng.random() < 0.1:
        c["bad"] = rng.choice(BAD)
        c["pos"] = rng.randrange(0, 2 * len(st) + 1)
    return c


def same(what, ref, got, **d):
    if ref != got:
        i, a, b = S.first_difference(ref, got)
        raise Violation("%s: item %d is %s instead of %s" % (what, i, b, a), **d)


def run(case, mon):
    import random
    if "text" in case:
        mon.expect_raise("code text %r" % case["text"], sut.parse, "code", case["text"])
        mon.nontrivial(case["text"].encode())
        return
    rng = random.Random(case["noise"])
    st = case["stream"]
    data = gen.to_bytes(st)
    ref = [(k, t, v) for k, t, sz, v in st]
    canon = b"".join(S.encode(k, t, v) for k, t, v in ref)
    if "bad" in case:
        toks = ["0x%02x" % b for b in data]
        p = min(case["pos"], len(toks))
        txt = ", ".join(toks[:p] + [case["bad"]] + toks[p:])
        mon.expect_raise("code text %r" % txt[:200], sut.parse, "code", txt)
        mon.nontrivial(txt.encode())
        return
    with mon.sut("reading binary"):
        items = sut.parse("binary", data)
        same("binary reader", ref, items.tuples(), data=hexs(data)[:300])
        direct = [sut.make(k, t, v) for k, t, v in ref]
    for src, its in (("parsed", items.items), ("constructed", direct)):
        for fmt in ("binary", "hex", "code"):
            with mon.sut("writing %s" % fmt):
                out = sut.render(fmt, its)
            try:
                b = text.any_bytes(fmt, out)
            except Exception as e:
                raise Violation("%s output is not readable: %s" % (fmt, e), output=repr(out)[:500])
            if b != canon:
                raise Violation("%s output of %s items denotes %s instead of %s" % (
                    fmt, src, hexs(b)[:300], hexs(canon)[:300]))
            with mon.sut("reading back %s" % fmt):
                back = sut.parse(fmt, out)
                got = back.tuples()
            same("%s read back" % fmt, ref, got, output=repr(out)[:500])
            if back.closed != 1:
                raise Violation("%s reader notified end of stream %d times" % (fmt, back.closed))
            mon.count("items_compared", len(ref))
            mon.see("formats", (src, fmt))
    for fmt, txt in (("code", gen.noisy_code(rng, data)), ("hex", gen.noisy_hex(rng, data))):
        with mon.sut("reading %s text %r" % (fmt, txt[:300])):
            got = sut.parse(fmt, txt).tuples()
        same("%s reader on human text" % fmt, ref, got, text=txt[:600])
        mon.count("items_compared", len(ref))
        mon.count("noisy_texts")
        mon.nontrivial(txt.encode("utf-8", "replace"))
        mon.sample({"format": fmt, "text": txt[:160]})


def shrink(case):
    if "stream" in case:
        yield from shrink_field(case, "stream")
