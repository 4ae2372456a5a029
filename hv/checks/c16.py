"""Monitor: decompiler command, then the script it wrote, as processes; statuses, streams and the
device described by the final output."""
import random

from .. import gen, spec as S, sut, trees, text, proc, real
from ..core import Violation
from ..util import shrink_field, stream_of, same_meaning
from .c14 import expressible

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("real, random and compiled descriptors decompiled by the real command from every input format and channel, the "
        "script run with every output format and channel, optimized and not, and decompiled again; non-trivial: a "
        "distinct (descriptor, formats, channels, optimization)")
ASSUMPTIONS = ["as for C14, the descriptor is expressible in the description language", "text files are UTF-8"]
BUDGET = {"quick": 600, "thorough": 3000}
FLOORS = {"scripts_run": 150, "events_compared": 2000, "configurations": 40}
COVER = []
FMT = ("binary", "hex", "code")


def fixed(tier):
    h = real.REAL["mouse"]
    n = 0
    for a in FMT:
        for src in ("file", "pipe"):
            for b in FMT:
                for dst in ("file", "pipe"):
                    n += 1
                    yield {"data": h, "in": a, "src": src, "out": b, "dst": dst, "sdst": dst, "plain": src == "pipe",
                           "noise": n, "again": False}
    for h in ("", "0501", "05010930250175089501810209318102", "a1c0", "a101c0a101c0"):
        for a, dst in (("binary", "file"), ("code", "pipe"), ("hex", "file")):
            yield {"data": h, "in": a, "src": dst, "out": a, "dst": dst, "sdst": dst, "plain": h == "",
                   "noise": 1, "again": True}
    # deep nesting, many fields, long ranges
    deep = "0501" + "0902a100" * 90 + "250175089501" + "09308102" + "c0" * 90
    wide = "05010902a1012501" + "75089501" + "".join("09%02x8102" % (i * 2 % 256) for i in range(700)) + "c0"
    long = "0642ff0902a101150126ff0f7510950219012aff0f8100" + "960020" + "8102" + "c0"
    for h in (deep, wide, long):
        yield {"data": h, "in": "hex", "src": "file", "out": "code", "dst": "pipe", "sdst": "file", "plain": False,
               "noise": 1, "again": h != long}
    for n, h in sorted(real.REAL.items()):
        yield {"data": h, "in": "binary", "src": "file", "out": None, "dst": "pipe", "sdst": "file", "plain": False,
               "noise": 1, "again": True}
        yield {"data": h, "in": "code", "src": "file", "out": "code", "dst": "file", "sdst": "pipe", "plain": True,
               "noise": 1, "again": True}


def generate(rng, i, tier):
    while True:
        if rng.random() < 0.5:
            data = gen.to_bytes(gen.descriptor(rng, language=True))
        else:
            data = sut.compile_tree(trees.build(trees.tree(rng)), 0, rng.choice((0, 100))).bytes()
        items = S.decode(data)
        if expressible(items):
            break
    return {"data": data.hex(), "in": rng.choice(FMT), "src": rng.choice(("file", "pipe")), "out": rng.choice(FMT),
            "dst": rng.choice(("file", "pipe")), "sdst": rng.choice(("file", "pipe")), "plain": rng.random() < 0.4,
            "noise": rng.getrandbits(30), "again": rng.random() < 0.3}


def step(sc, args, what, inp, out, mon, slow=0):
    """Run; the result is in file `out` (None: standard output)."""
    before = sc.snapshot()
    rc, o, err = proc.run(args, inp, cwd=sc.dir, slow=slow if len(inp) < 30000 else 0)
    if rc:
        raise Violation("%s exits with %d" % (what, rc), args=args, stderr=err.decode(errors="replace")[-800:])
    after = sc.snapshot()
    res = o
    if out is not None:
        if o:
            raise Violation("%s also wrote on standard output: %r" % (what, o[:200]), args=args)
        res = after.pop(out, None)
        before.pop(out, None)
        if res is None:
            raise Violation("%s wrote no output file" % what, args=args)
    if after != before:
        raise Violation("%s touched other files: %s" % (what, sorted(set(after) ^ set(before)) or "contents"), args=args)
    if err:
        mon.count("stderr_messages")
    return res


NAMES = ["%s", "%s", "%s.x", "%s file", ".%s", "%s.\u00e9t\u00e9", "%s~", "@%s", "%s=1"]


def option(rng, short, long, value):
    return rng.choice(([short, value], [long, value], [short + value], [long + "=" + value]))


def command(rng, prog, opts, files):
    """Options before or after the file names."""
    rng.shuffle(opts)
    opts = [x for o in opts for x in o]
    return list(prog) + (opts + files if rng.random() < 0.7 else files + opts)


def roundtrip(sc, n, contents, a, src, b, dst, sdst, plain, mon, style=0):
    rng = random.Random(style)
    name = rng.choice(NAMES)
    where = sc.path if rng.random() < 0.6 else lambda x: x
    opts = [] if a == "binary" and n % 2 else [option(rng, "-i", "--input-format", a)]
    inp, files = b"", []
    if src == "file":
        sc.put(name % ("in%d" % n), contents)
        files.append(where(name % ("in%d" % n)))
    else:
        inp = contents
        if sdst == "file":
            files.append("-")
    sname = name % ("script%d" % n) + ".py" if sdst == "file" else None
    if sname:
        files.append(where(sname))
    script = step(sc, command(rng, proc.EXTRACTOR, opts, files), "decompiler", inp, sname, mon, rng.choice((0, 2, 3)))
    if not sname:
        sname = "s%d.py" % n
        sc.put(sname, script)
    opts = ([option(rng, "-o", "--output-format", b)] if b else []) + ([[rng.choice(("-N", "--no-optimize"))]] if plain else [])
    oname = name % ("out%d" % n) if dst == "file" else None
    args = command(rng, [where(sname)], opts, [where(oname)] if oname else [])
    out = step(sc, args, "script", b"", oname, mon)
    mon.count("scripts_run")
    mon.see("configurations", (a, src, b, dst, sdst, plain))
    try:
        by = text.any_bytes(b or "binary", out)
        return out, by, script, S.decode(by)
    except Exception as e:
        raise Violation("script output is not readable as %s: %s" % (b, e), output=repr(out[:500]),
                        script=script.decode(errors="replace")[:3000])


def run(case, mon):
    data = bytes.fromhex(case["data"])
    items = S.decode(data)
    try:
        want = S.meaning(items, S.LANGUAGE)
    except S.Invalid:
        return
    a, b = case["in"], case["out"]
    rng = random.Random(case["noise"])
    c = data if a == "binary" else (gen.noisy_code if a == "code" else gen.noisy_hex)(rng, data).encode()
    with proc.Scratch() as sc:
        out, by, script, got = roundtrip(sc, 0, c, a, case["src"], b, case["dst"], case["sdst"], case["plain"], mon,
                                           case["noise"])
        compare(want, got, script, items, mon)
        # optimized unless asked otherwise: as the library compiles the same script
        with mon.sut("compiling the script in process"):
            ref = sut.compile_tree(sut.load_script(script.decode()), 0, 0 if case["plain"] else 100).bytes()
        if ref != by:
            raise Violation("script %s writes %s, its description compiles to %s" % (
                "-N" if case["plain"] else "without option", by.hex(), ref.hex()))
        if case["again"]:
            out2, by2, script2, got2 = roundtrip(sc, 1, out, b or "binary", "pipe", "hex", "file", "pipe",
                                                 case["plain"], mon, case["noise"] + 1)
            compare(want, got2, script2, items, mon)
    mon.nontrivial((case["data"], a, case["src"], b, case["dst"], case["sdst"], case["plain"]))
    mon.sample({"input": S.show(items)[:150], "script": script.decode()[60:300], "output": repr(out[:100])})


def compare(want, got, script, items, mon):
    try:
        after = S.meaning(got, S.LANGUAGE)
    except S.Invalid as e:
        raise Violation("script output is not a valid descriptor: %s" % e, script=script.decode()[:2000])
    same_meaning(want, after, None, "script output", input=S.show(items), output=S.show(got),
                 script=script.decode()[:2000])
    mon.count("events_compared", len(want))


def shrink(case):
    st = stream_of(bytes.fromhex(case["data"]))
    for c in shrink_field({"s": st}, "s"):
        try:
            d = gen.to_bytes(c["s"])
            S.meaning_of_bytes(d)
            if not expressible(S.decode(d)) or b"\xc0" not in d:
                continue
        except Exception:
            continue
        yield dict(case, data=d.hex())
