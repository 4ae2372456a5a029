"""Monitor: an independent HID interpreter reads the stream before and after the passes and
compares the devices they describe."""
from .. import gen, spec as S, sut, proc, text, real
from ..core import Violation
from ..util import hexs, shrink_field, stream_of, same_meaning

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("real descriptors, every word of one or two (and of three core) descriptor fragments, and random valid "
        "descriptors with randomly enabled features, descriptors that random edits left valid, through the reader and all passes, items fed directly to the "
        "passes, and the converter command; non-trivial: a distinct input with at least one data item whose events "
        "were compared")
ASSUMPTIONS = ["usages of page 0 (undefined) are given as short usages",
               "a physical range of 0..0 stands for the logical range, an index of 0 for none (HID 1.11)"]
BUDGET = {"quick": 24000, "thorough": 250000}
FLOORS = {"events_compared": 60000, "rewritten": 5000, "cli": 20, "damaged": 1500}
COVER = ["stream/optimizer/"]


def fixed(tier):
    for n, h in sorted(real.REAL.items()):
        for via in ("parse", "direct", "cli"):
            yield {"stream": stream_of(bytes.fromhex(h)), "via": via, "fmt": ["hex", "code"]}
    for w in gen.fragment_words(tier):
        yield {"words": w, "via": "parse"}
    for st in gen.page_streams():
        yield {"stream": st, "via": "parse"}
        yield {"stream": st, "via": "direct"}
    for st in gen.selector_streams():
        yield {"stream": st, "via": "parse"}
    for n, st in enumerate(gen.twin_streams()):
        yield {"stream": st, "via": ("parse", "direct")[n % 2]}
    for d in list(range(1, 12)) + [16, 17, 33, 64, 100]:
        for back, mid in ((None, 0), (2, 0), (3, 2), (None, 1)):
            yield {"stream": gen.nested_push(d, back, mid), "via": "parse"}
            yield {"stream": gen.nested_push(d, back, mid), "via": "direct"}
    # runs long enough for wide counts and ranges
    for n in (2, 3, 127, 128, 255, 256, 300):
        yield {"stream": [[1, 0, 1, 9], [2, 0, 1, 1], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 1], [1, 9, 1, 1]]
               + [x for i in range(n) for x in ([2, 0, 2, i + 1], [0, 8, 1, 2])] + [[0, 12, 0, 0]], "via": "parse"}
        yield {"stream": [[1, 0, 1, 9], [2, 0, 1, 1], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 1], [1, 9, 2, n]]
               + [[2, 0, 2, i + 1] for i in range(n)] + [[0, 8, 1, 2], [0, 12, 0, 0]], "via": "direct"}


def generate(rng, i, tier):
    r = rng.random()
    if r > 0.8:
        return {"stream": gen.valid_damaged(rng), "via": "parse", "damaged": True}
    if r < 0.25:
        w = [rng.choice(list(gen.FRAGMENTS)) for _ in range(rng.randrange(3, 12))]
        return {"words": w, "via": "parse"}
    via = "parse"
    if rng.random() < 0.2:
        via = "direct"
    elif i % 150 == 0:
        via = "cli"
    return {"stream": gen.descriptor(rng), "via": via, "fmt": [rng.choice(("binary", "hex", "code")),
                                                              rng.choice(("binary", "hex", "code"))]}


def run(case, mon):
    st = gen.from_fragments(case["words"]) if "words" in case else case["stream"]
    data = gen.to_bytes(st)
    try:
        before = S.meaning(S.decode(data))
    except S.Invalid:
        mon.count("invalid_input")
        return
    if case.get("damaged"):
        if not gen.plain(S.decode(data)):
            return
        mon.count("damaged")
    if case["via"] == "cli":
        out = command(data, case["fmt"], mon)
    else:
        with mon.sut("optimizing"):
            if case["via"] == "parse":
                t = sut.optimize_bytes(data)
            else:
                t = sut.Tap()
                o = sut.Optimizer.new(t)
                for k, tag, sz, v in st:
                    o.append(sut.make(k, tag, v))
                o.close()
            out = t.bytes()
        if t.closed != 1 or t.late:
            raise Violation("optimizer closed its output %d times, %d items after the first" % (t.closed, t.late))
    try:
        after = S.meaning(S.decode(out))
    except (S.Invalid, S.Malformed) as e:
        raise Violation("optimized descriptor is not valid: %s" % e, input=S.show(S.decode(data)), output=hexs(out))
    same_meaning(before, after, None, "optimized descriptor describes another device",
                 input=S.show(S.decode(data)), output=S.show(S.decode(out)))
    mon.count("events_compared", len(before))
    for e in before:
        mon.count("event_" + e[0])
    mon.count("rewritten", out != data)
    if len(before) > 3:
        mon.nontrivial(data)
    mon.see("output_streams", out)
    mon.sample({"input": S.show(S.decode(data))[:300], "output": S.show(S.decode(out))[:300]})


def command(data, fmt, mon):
    a, b = fmt
    c = data if a == "binary" else (data.hex(" ") if a == "hex" else ", ".join("0x%02x" % x for x in data)).encode()
    with proc.Scratch() as sc:
        rc, out, err = proc.run(proc.CONVERTER + ["-O", "-i", a, "-o", b, sc.put("in", c), sc.path("out")])
        if rc or out:
            raise Violation("converter -O exits with %d" % rc, stderr=err.decode(errors="replace")[-500:])
        mon.count("cli")
        return text.any_bytes(b, sc.get("out"))


def shrink(case):
    if "words" in case:
        yield from shrink_field(case, "words")
        yield dict(stream=gen.from_fragments(case["words"]), via=case["via"])
    else:
        yield from shrink_field(case, "stream")
