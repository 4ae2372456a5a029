"""Monitor: the converter command as a process, its exit status, streams and files."""
import os
import random

from .. import gen, spec as S, text, proc
from ..core import Violation
from ..util import hexs, shrink_field

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("whole descriptors and balanced random item sequences converted by the real command over every pair of "
        "formats, file or pipe on either side, with human-style input text, then chained through further conversions; "
        "non-trivial: a distinct (input bytes, format pair, channel pair) whose output was decoded and compared")
ASSUMPTIONS = ["text inputs are UTF-8"]
BUDGET = {"quick": 900, "thorough": 8000}
FLOORS = {"runs": 300, "configurations": 36, "items_compared": 3000}
COVER = []
FMT = ("binary", "hex", "code")


def fixed(tier):
    mouse = "05010902a1011581257f7508950209300931810615002501750195030509190129038102c0"
    wide = gen.to_bytes([[1, 0, 2, 1], [2, 0, 2, 2], [0, 10, 2, 1], [1, 10, 0, 0], [1, 8, 4, 7], [2, 0, 4, 0xff000030],
                         [1, 1, 2, -5], [1, 2, 4, 70000], [1, 7, 1, 32], [1, 9, 2, 1], [0, 8, 1, 2], [1, 11, 0, 0],
                         [2, 0, 4, 0x00010030], [1, 2, 1, 100], [1, 7, 2, 8], [1, 9, 1, 1], [0, 11, 1, 0], [0, 12, 0, 0]]).hex()
    n = 0
    for a in FMT:
        for b in FMT:
            for src in ("file", "pipe"):
                for dst in ("file", "pipe"):
                    for d in (mouse, wide):
                        n += 1
                        yield {"data": d, "in": a, "out": b, "src": src, "dst": dst, "noise": 7, "chain": [],
                               "explicit": True, "style": n}
    yield {"data": mouse, "in": "binary", "out": "binary", "src": "pipe", "dst": "pipe", "noise": 0, "chain": [],
           "explicit": False}
    yield {"data": mouse, "in": "binary", "out": "binary", "src": "file", "dst": "file", "noise": 0, "chain": [],
           "explicit": False}
    # larger than the buffers of files and pipes
    block = bytes.fromhex(mouse) + bytes.fromhex(wide)
    for n, (a, b) in enumerate((x, y) for x in FMT for y in FMT):
        for size in ((3000, 70000, 270000) if a == b or tier == "thorough" else (70000,)):
            yield {"repeat": size // len(block) + 1, "data": block.hex(), "in": a, "out": b,
                   "src": ("file", "pipe")[n % 2], "dst": ("file", "pipe")[n // 2 % 2], "noise": n, "chain": [],
                   "explicit": True}
    yield {"data": "", "in": "hex", "out": "code", "src": "file", "dst": "pipe", "noise": 0, "chain": [],
           "explicit": True}


def generate(rng, i, tier):
    st = gen.descriptor(rng) if rng.random() < 0.6 else gen.balanced_raw_stream(rng, rng.choice((5, 20, 60, 300)))
    return {"data": gen.to_bytes(st).hex(), "in": rng.choice(FMT), "out": rng.choice(FMT),
            "src": rng.choice(("file", "pipe")), "dst": rng.choice(("file", "pipe")), "noise": rng.getrandbits(30),
            "chain": [rng.choice(FMT) for _ in range(rng.choice((0, 0, 1, 2)))], "explicit": rng.random() < 0.8}


NAMES = ["%s%d", "%s%d", "%s%d.hex", "%s %d.bin", "%s%d.c", ".%s%d", "%s%d.\u00e9t\u00e9", "%s%d~", "%s%d.py", "%s%d:x", "@%s%d", "%s=%d"]


def convert(sc, mon, contents, a, b, src, dst, explicit, step, stale=0, options=(), style=0):
    rng = random.Random(style)
    opts = list(options)
    if explicit or a != "binary":
        opts += [[["-i", a], ["--input-format", a], ["-i" + a], ["--input-format=" + a]][(step + style) % 4]]
    if explicit or b != "binary":
        opts += [[["-o", b], ["--output-format", b], ["-o" + b], ["--output-format=" + b]][(step + style // 4) % 4]]
    opts = [[o] if isinstance(o, str) else o for o in opts]
    rng.shuffle(opts)
    name = rng.choice(NAMES)
    inp, oname, files = b"", name % ("out", step), []
    where = sc.path if rng.random() < 0.6 else lambda n: n if not n.startswith("-") else "./" + n
    if src == "file":
        sc.put(name % ("in", step), contents)
        files.append(where(name % ("in", step)))
    else:
        inp = contents
        if dst == "file" or rng.random() < 0.2:
            files.append("-")
    if dst == "file":
        files.append(where(oname))
        if stale:
            sc.put(oname, b"previous contents, 0xff\n" * stale)
    elif files and rng.random() < 0.2:
        files.append("-")
    # options before, between and after the file names
    args = [[f] for f in files]
    at = rng.choice((0, 0, len(args))) if len(args) > 1 else rng.choice((0, 0, 0, len(args)))
    args[at:at] = opts
    args = list(proc.CONVERTER) + [x for o in args for x in o]
    before = sc.snapshot()
    before.pop(oname, None)
    rc, out, err = proc.run(args, inp, cwd=sc.dir, slow=rng.choice((0, 2, 3, 5)) if len(inp) < 30000 else 0)
    mon.count("runs")
    mon.see("configurations", (a, b, src, dst))
    after = sc.snapshot()
    new = after.pop(oname, None) if dst == "file" else None
    if rc != 0:
        raise Violation("converter exits with %d on valid input" % rc, args=args, stderr=err.decode(errors="replace")[-600:])
    if after != before:
        raise Violation("converter touched %s" % sorted(n for n in set(after) | set(before)
                                                        if after.get(n) != before.get(n)), args=args)
    if dst == "file":
        if out:
            raise Violation("converter also wrote on standard output: %r" % out[:200], args=args)
        if new is None:
            raise Violation("no output file", args=args)
        out = new
    return out


def run(case, mon):
    data = bytes.fromhex(case["data"]) * case.get("repeat", 1)
    ref = [(i.kind, i.tag, i.value) for i in S.decode(data)]
    rng = random.Random(case["noise"])
    a, b = case["in"], case["out"]
    if a == "binary":
        contents = data
    else:
        contents = (gen.noisy_code if a == "code" else gen.noisy_hex)(rng, data).encode()
    with proc.Scratch() as sc:
        out = convert(sc, mon, contents, a, b, case["src"], case["dst"], case["explicit"], 0,
                      stale=(0, 1, 5000)[case["noise"] % 3], style=case.get("style", case["noise"]))
        final = check(out, b, ref, mon, contents)
        cur, cf = out, b
        for n, f in enumerate(case["chain"]):
            cur = convert(sc, mon, cur, cf, f, ("file", "pipe")[(n + case["noise"]) % 2],
                          ("pipe", "file")[(n + case["noise"]) % 2], True, n + 1,
                          style=case["noise"] + n)
            cf = f
            if check(cur, f, ref, mon, b"") != final:
                raise Violation("chained conversion to %s denotes other bytes" % f)
            if f == b and cur != out:
                raise Violation("chained conversion back to %s differs from the direct one" % f,
                                direct=repr(out[:400]), chained=repr(cur[:400]))
    mon.nontrivial((data, a, b, case["src"], case["dst"]))
    mon.sample({"from": a, "to": b, "via": [case["src"], case["dst"]], "input": repr(contents[:80]),
                "output": repr(out[:80])})


def check(out, fmt, ref, mon, contents):
    try:
        by = text.any_bytes(fmt, out)
        got = [(i.kind, i.tag, i.value) for i in S.decode(by)]
    except Exception as e:
        raise Violation("%s output is not readable: %s" % (fmt, e), output=repr(out[:600]))
    if got != ref:
        i, x, y = S.first_difference(ref, got)
        raise Violation("output item %d is %s instead of %s" % (i, y, x), input=repr(contents[:600]),
                        output=repr(out[:600]))
    mon.count("items_compared", len(ref))
    return by


def shrink(case):
    if case.get("repeat", 1) > 1:
        yield dict(case, repeat=case["repeat"] // 2)
        yield dict(case, repeat=case["repeat"] - 1)
    data = bytes.fromhex(case["data"])
    items = S.decode(data)
    st = [[i.kind, i.tag, i.size, i.value] for i in items]
    for c in shrink_field({"s": st}, "s"):
        yield dict(case, data=gen.to_bytes(c["s"]).hex())
