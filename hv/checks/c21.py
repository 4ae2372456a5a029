"""Monitor: requests that must be refused, planted in otherwise good surroundings, followed by a
good request whose result must be unaffected."""
import copy
import io
import random

from .. import gen, spec as S, sut, trees, jobs, proc
from ..core import Violation

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("each kind of refused request, over its parameters, planted at every kind of place of random descriptions, "
        "streams and listings, in the library (all formats, optimized or not) and through the commands; after each the "
        "same process serves a good request; non-trivial: a distinct refused request")
ASSUMPTIONS = ["asserts are enabled (python is not run with -O)"]
BUDGET = {"quick": 7000, "thorough": 60000}
FLOORS = {"refusals": 3000, "commands": 60, "good_after": 3000, "kinds": 10}
COVER = ["descriptor/descriptor.py", "descriptor/streamer.py", "descriptor/extractor.py", "stream/item.py"]
BIG = [2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 40, -2 ** 31 - 1, -2 ** 32, -2 ** 63, 2 ** 64]
NAMES = ["xml", "", "bin", "Binary", "HEX", "text", "c", "none", "code ", "formatter", "parser", "base", "__class__"]
TOKENS = ["zz", "0x100", "256", "-1", "1.5", "0xg1", "{", "foo", "0x05;", "\"", "05h", "0x05 0x01", "0x0_5", "+0x05", "+5", "1_0",
          "0b101", "0x05u", "(5)", "0x 05", "\u0665"]
# where the token would make a well-formed listing, were it taken for one or several bytes
LISTINGS = ["0x05, 0x01, 0x09, %s, 0x81, 0x02", "0x0a, %s, 0x01", "0x0a, %s", "%s, 0x01", "0x05, 0x01, %s", "0x0b, %s, 0x01, 0x00"]
GOOD = None


def good():
    d = gen.to_bytes(gen.from_fragments(["x", "y", "phy", "push", "des", "three", "coll", "unit"])).hex()
    js = [{"op": o, "data": d} for o in jobs.OPS_BYTES]
    t = {"t": "coll", "kind": 1, "usage": 0x10002, "m": [{"t": "report", "id": 2, "m": [
        {"t": "val", "way": "Input", "usage": 0x10030, "size": 3, "logicalMin": 0, "logicalMax": 5, "string": 2},
        {"t": "val", "way": "Input", "usage": 0x10031, "size": 8, "logicalMin": -5, "logicalMax": 5, "physicalMax": 9}]}]}
    js += [{"op": o, "tree": t, "notation": 1} for o in jobs.OPS_TREE]
    return [jobs.process(j) for j in js]


def setup(tier):
    global GOOD
    GOOD = good()


def fixed(tier):
    for n in NAMES:
        yield {"kind": "format", "name": n}
    for i, n in enumerate(NAMES):
        yield {"kind": "format_cli", "name": n, "cmd": ("converter", "extractor", "script")[i % 3], "side": i % 2}
        yield {"kind": "format_cli", "name": n, "cmd": "converter", "side": 1 - i % 2}
    for t in TOKENS:
        for p in (0, 3, 1000):
            yield {"kind": "token", "token": t, "pos": p}
        yield {"kind": "token_cli", "token": t, "pos": 4, "cmd": ("converter", "extractor")[len(t) % 2]}
        for l in LISTINGS:
            yield {"kind": "listing", "text": l % t}
        yield {"kind": "token_cli", "token": t, "listing": LISTINGS[0], "pos": 0, "cmd": "converter"}
    for n in list(range(1, 9)) + [20, 60]:
        for extra in (0, 1, n - 1):
            d = "05010902a101" + "0901a100" * (n - 1) + "750895010930" + "8102" + "c0" * min(extra, n - 1)
            yield {"kind": "unopened", "data": d}
            yield {"kind": "unopened", "data": "05010902a101c0" + d}
            if n < 4:
                yield {"kind": "unopened_cli", "data": d}
        yield {"kind": "unopened", "data": "05010902a101" + "a4" * n + "b4" * (n + 1) + "c0"}
        yield {"kind": "unopened", "data": "05010902a101" + "0901a100" * n + "c0" * (n + 2)}
    for cls in ("EndCollection", "Push", "Pop"):
        for v in (1, 2, 5, 255, 256, 65535, 65536, 2 ** 32 - 1):
            yield {"kind": "nonempty", "cls": cls, "value": v, "pos": v % 5}
    for h in ("c0", "b4", "05010902a101c0c0", "05010902a10109308102c0c0", "a4b4b4", "05010902a101b4c0",
              "05010902a101a4b40930b48102c0", "05010902a101", "05010902a1010901a100c0"):
        yield {"kind": "unopened", "data": h}
        yield {"kind": "unopened_cli", "data": h}
    for r in (256, 257, 300, 1000, 65535, 65536, 2 ** 32, -1, -2, -255, -256):
        for t in ({"t": "val", "way": "Input", "usage": 0x10030, "size": 8, "logicalMin": 0, "logicalMax": 1},
                  {"t": "val", "way": "Output", "usage": 0x10030, "size": 1, "logicalMin": 0, "logicalMax": 1},
                  {"t": "pad", "way": "Feature", "size": 3},
                  {"t": "val", "way": "Input", "usage": None, "size": 8, "namedArray": {"list": [0x10001, 0x10002]}}):
            yield {"kind": "compile", "bad": {"t": "report", "id": r, "m": [t]}, "where": [0], "what": "report id",
                   "tree": {"t": "coll", "kind": 1, "usage": 0x10002, "m": []}}
        yield {"kind": "compile_cli", "what": "Report(%d, Value(Value.Input, 0x10030, 8, logicalMin = 0, "
                                             "logicalMax = 1))" % r}
    for b in BIG:
        for k in ("logicalMin", "logicalMax", "physicalMin", "physicalMax"):
            yield {"kind": "compile", "bad": bound(k, b), "where": [0], "what": k,
                   "tree": {"t": "coll", "kind": 1, "usage": 0x10002, "m": []}}
            yield {"kind": "compile_cli", "what": "Value(Value.Input, 0x10030, 8, %s)" % ", ".join(
                "%s = %d" % (n, v) for n, v in bound(k, b).items() if n.endswith(("Min", "Max")))}
    for k in ({}, {"logicalMin": 0}, {"logicalMin": None, "logicalMax": 5}, {"logicalMin": None, "logicalMax": None},
              {"logicalMax": None}, {"physicalMin": 0, "physicalMax": 5}, {"namedArray": None}, {"namedArray": []}, {"namedArray": [], "logicalMin": 0},
              {"unit": 0x11},
              {"count": 3}, {"alignment": 8}, {"designator": 1}):
        for fl in (None, 0, 2, 6, 0x42, 0x102, 0x100, 0x80):
            yield {"kind": "unbounded", "kw": dict(k, **({} if fl is None else {"flags": fl}))}
        yield {"kind": "compile_cli", "what": "Value(Value.Input, 0x10030, 8, %s)" % ", ".join(
            "%s = %s" % (n, v) for n, v in k.items())}


def bound(k, b):
    d = {"t": "val", "way": "Input", "usage": 0x10030, "size": 8, "logicalMin": 0, "logicalMax": 1}
    if k.startswith("physical"):
        d.update(physicalMin=0, physicalMax=100)
    d[k] = b
    return d


def generate(rng, i, tier):
    r = rng.random()
    if r < 0.45:
        t = trees.tree(rng, exclude=("reports", "nested"))
        q = rng.random()
        if q < 0.5:
            k = rng.choice(("logicalMin", "logicalMax", "physicalMin", "physicalMax"))
            b = rng.choice(BIG + [rng.choice((1, -1)) * (2 ** 31 + 1 + rng.getrandbits(rng.choice((4, 31, 40))))])
            return {"kind": "compile", "tree": t, "bad": bound(k, b), "what": k, "where": [rng.getrandbits(16)]}
        v = {"t": "val", "way": rng.choice(("Input", "Output", "Feature")), "usage": 0x10030, "logicalMin": 0,
             "logicalMax": 1, "size": rng.choice((1, 8, 16)), "count": rng.choice((1, 2))}
        rid = rng.choice((256, 300, rng.randrange(256, 1 << 20), -rng.randrange(1, 300)))
        return {"kind": "compile", "tree": t, "what": "report id", "where": [rng.getrandbits(16)],
                "bad": {"t": "report", "id": rid, "m": [v]}}
    if r < 0.6:
        kw = {}
        for n, vs in (("physicalMin", (0, 5)), ("physicalMax", (9,)), ("unit", (0x11,)), ("unitExponent", (-1,)),
                      ("designator", (1,)), ("string", (2,)), ("count", (1, 3)), ("alignment", (1, 8)),
                      ("flags", (0, 2, 4, 6, 0x40, 0x80, 0x102))):
            if rng.random() < 0.4:
                kw[n] = rng.choice(vs)
        if rng.random() < 0.5:
            kw["logicalMin"] = rng.choice((0, 1, -1, None))
        if rng.random() < 0.3:
            kw["logicalMin"], kw["logicalMax"] = None, rng.choice((1, 0, 5))
        return {"kind": "unbounded", "kw": kw}
    if r < 0.75:
        return {"kind": "token", "token": rng.choice(TOKENS), "pos": rng.getrandbits(10),
                "stream": gen.descriptor(rng), "noise": rng.getrandbits(20)}
    if r < 0.85:
        return {"kind": "nonempty", "cls": rng.choice(("EndCollection", "Push", "Pop")), "pos": rng.getrandbits(10),
                "value": rng.getrandbits(rng.choice((1, 8, 16, 32))) + 1 & 0xffffffff or 1, "stream": gen.descriptor(rng)}
    st = gen.descriptor(rng, language=True)
    data = gen.to_bytes(st)
    op = rng.randrange(3)
    if op == 0:         # an End Collection too many, after a random End Collection that closes everything or at the start
        st = st + [[0, S.END, 0, 0]]
    elif op == 1:
        st = [[1, S.POP, 0, 0]] + st
    else:
        ends = [n for n, x in enumerate(st) if x[:2] == [0, S.END]]
        del st[rng.choice(ends)]
    return {"kind": "unopened", "data": gen.to_bytes(st).hex()}


def plant(case):
    t = copy.deepcopy(case["tree"])
    places = [n for n in trees.walk(t) if "m" in n and n["t"] != "top"] or [t]
    p = places[case["where"][0] % len(places)]
    i = (case["where"][0] // 7) % (len(p["m"]) + 1)
    p["m"].insert(i, case["bad"])
    return t


def run(case, mon):
    k = case["kind"]
    mon.see("kinds", k)
    mon.nontrivial(repr(sorted(case.items(), key=str)))
    if k == "format":
        mon.expect_raise("reader of format %r" % case["name"], lambda: sut.Parser.get(case["name"])(
            io.StringIO(""), sut.Tap()).read())
        mon.expect_raise("writer of format %r" % case["name"], lambda: sut.Formatter.get(case["name"])(
            io.StringIO()).append(sut.make(0, 8, 2)))
    elif k == "unbounded":
        V = sut.D.Value
        mon.expect_raise("Value with %s" % case["kw"], lambda: V(V.Input, 0x10030, 8, **case["kw"]))
        mon.expect_raise("Value without usage, with %s" % case["kw"], lambda: V(V.Output, None, 3, **case["kw"]))
    elif k == "compile":
        t = plant(case)
        for fmt in ("binary", "hex", "code"):
            for hi in (0, 100):
                closes = []

                def attempt():
                    obj = trees.build(t)
                    out = io.BytesIO() if fmt == "binary" else io.StringIO()
                    f = sut.Formatter.get(fmt)(out)
                    tap = sut.Tap(f)
                    closes.append(tap)
                    o = sut.Optimizer.new(tap) if hi else tap
                    obj.accept(sut.streamer.Streamer(o))
                    o.close()
                    return out.getvalue()[:300]
                mon.expect_raise("%s %s in a description" % (case["what"], case["bad"].get(case["what"], case["bad"].get("id"))),
                                 attempt)
    elif k == "token":
        data = gen.to_bytes(case.get("stream") or gen.from_fragments(["x", "phy", "coll"]))
        toks = ["0x%02x" % b for b in data]
        p = min(case["pos"], len(toks)) if case["pos"] >= 1000 else case["pos"] % (len(toks) + 1)
        txt = ", ".join(toks[:p] + [case["token"]] + toks[p:])
        if case.get("noise", 0) % 2:
            txt = txt.replace(", ", ",\n")
        tap = sut.Tap()
        mon.expect_raise("listing with token %r" % case["token"], sut.parse, "code", txt, tap)
        mon.expect_raise("optimizing a listing with token %r" % case["token"], sut.parse, "code", txt,
                         sut.Optimizer.new(sut.Tap()))
    elif k == "listing":
        mon.expect_raise("listing %r" % case["text"], sut.parse, "code", case["text"])
    elif k == "nonempty":
        cls, v = case["cls"], case["value"]
        mon.expect_raise("%s(%d)" % (cls, v), lambda: getattr(sut.item, cls)(v).bytes())
        st = list(case.get("stream") or gen.from_fragments(["x", "phy", "coll"]))
        kk, tt = S.BYNAME[cls]
        size = 1 if v < 256 else 2 if v < 65536 else 4
        st.insert(case["pos"] % (len(st) + 1), [kk, tt, size, v])
        data = b"".join(S.encode(a, b, x, sz) for a, b, sz, x in st)
        mon.expect_raise("reading a %s with data" % cls, sut.parse, "binary", data)
        mon.expect_raise("decompiling a %s with data" % cls, lambda: jobs.quiet(sut.decompile, data))
    elif k == "unopened":
        data = bytes.fromhex(case["data"])
        try:
            S.meaning_of_bytes(data)
            return
        except (S.Invalid, S.Malformed):
            pass
        mon.expect_raise("decompiling %s" % case["data"], lambda: sut.dump(jobs.quiet(sut.decompile, data)))
    else:
        return cli(case, mon)
    now = good()
    mon.count("good_after")
    if now != GOOD:
        n = [i for i, (a, b) in enumerate(zip(GOOD, now)) if a != b][0]
        raise Violation("after the refusal, a good request gives %r instead of %r" % (now[n][:300], GOOD[n][:300]))
    mon.sample({"refused": str(case)[:200]})


def cli(case, mon):
    k = case["kind"]
    mouse = bytes.fromhex("05010902a10109308102c0")
    script = """from hrdc.usage import *
from hrdc.descriptor import *
descriptor = Collection(Collection.Application, desktop.Mouse, %s)
if __name__ == "__main__":
    compile_main(descriptor)
"""
    simple = "Value(Value.Input, desktop.X, 8, logicalMin = 0, logicalMax = 1)"
    for dst in ("file", "pipe"):
        with proc.Scratch() as sc:
            out = [sc.path("out")] if dst == "file" else []
            if k == "format_cli":
                if case["cmd"] == "converter":
                    args = proc.CONVERTER + [("-i", "-o")[case["side"]], case["name"], sc.put("in", mouse)] + out
                elif case["cmd"] == "extractor":
                    args = proc.EXTRACTOR + ["-i", case["name"], sc.put("in", mouse)] + out
                else:
                    args = [sc.put("s.py", (script % simple).encode()), "-o", case["name"]] + out
            elif k == "token_cli":
                toks = ["0x%02x" % b for b in mouse]
                toks.insert(case["pos"], case["token"])
                if "listing" in case:
                    toks = [case["listing"] % case["token"]]
                args = (proc.CONVERTER if case["cmd"] == "converter" else proc.EXTRACTOR) \
                    + ["-i", "code", sc.put("in", ", ".join(toks).encode())] + out
            elif k == "unopened_cli":
                args = proc.EXTRACTOR + [sc.put("in", bytes.fromhex(case["data"]))] + out
            else:
                args = [sc.put("s.py", (script % (simple + ", " + case["what"])).encode())] + out
                if dst == "file":
                    args.insert(1, "-N")
            rc, o, err = proc.run(args, cwd=sc.dir)
            mon.count("commands")
            if rc == 0:
                raise Violation("command exits with 0 on a request that cannot be honoured: %s" % case, args=args,
                                output=repr(o[:300]))
            if not err:
                raise Violation("command fails without a message", args=args)
            res = o if dst == "pipe" else (sc.get("out") if "out" in sc.snapshot() else b"")
            if res and k != "unopened_cli" and k != "token_cli":
                try:
                    m = S.meaning_of_bytes(res)
                    if len(m) > 1:
                        raise Violation("refused request left a complete looking descriptor %s" % res.hex(), args=args)
                except (S.Invalid, S.Malformed):
                    pass
            if k == "unopened_cli" and b"compile_main" in res:
                raise Violation("refused decompilation left a complete looking script", args=args)
    mon.count("refusals")


def shrink(case):
    if "tree" in case:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
    if case.get("stream"):
        from ..util import shrink_field
        yield from shrink_field(case, "stream")
