"""Monitor: the dumped script is executed and both trees are compiled; the bytes must agree."""
import random

from .. import gen, spec as S, sut, trees, names, proc
from ..core import Violation
from ..util import hexs
from ..treecheck import val, app, rep, twins, page_runs

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("trees sweeping every attribute and constant table, random trees in int and named-constant notation, and "
        "decompiled descriptors, dumped, executed and compiled with and without passes, then dumped again; "
        "non-trivial: a distinct script that was executed")
ASSUMPTIONS = ["data item flags are within the nine bits HID defines"]
BUDGET = {"quick": 8000, "thorough": 100000}
FLOORS = {"scripts": 5000, "bytes_compared": 300000, "usages_dumped": 1200}
COVER = ["descriptor/dumper.py"]


def fixed(tier):
    from .c10 import SWEEP, full
    for k, vs in SWEEP.items():
        for v in vs:
            for nt in (3, 4, 7, 10):
                yield {"tree": app(full(k, v)), "notation": nt}
            if not k.startswith("logical"):
                yield {"tree": app(val(0x10031, **{k: v})), "notation": 5}
    for m, d in sorted(names.GOLDEN.items()):
        if m == "arcade":
            continue
        us = sorted(set(d["names"].values()))
        for i in range(0, len(us), 12):
            c = us[i:i + 12]
            yield {"tree": app(*[val(u) for u in c], usage=c[0])}
            yield {"tree": app(val(c[-1], namedArray={"list": c}), val(None, namedArray={"range": [c[0], c[0] + 3]}))}
    for n in range(0, 300, 7):
        yield {"tree": app(val(0x90000 + n), val(0xa0000 + n), val(None, namedArray={"range": [0x90000, 0x90000 + n]}))}
    for k in list(range(0, 20)) + [0x7f, 0x80, 0x81, 0xfe, 0xff, 256]:
        for nt in range(1, 9):
            yield {"tree": {"t": "coll", "kind": k, "usage": 0x10002, "m": [app(val(0x10030), kind=k)]}, "notation": nt}
    for u in list(names.UNITS.values()) + [0xf021, 0x1111, 0x12, 0x22, 0xfffffff1]:
        yield {"tree": app(val(0x10030, unit=u, unitExponent=-3))}
        yield {"tree": app(val(0x10030, unit=u, unitExponent=4)), "named_unit": True}
    for b in (0, 1, 2, 3, 8, 16, 32):
        for w in ("Input", "Output", "Feature"):
            yield {"tree": app(val(0x10030, size=3, way=w), {"t": "align", "way": w, "boundary": b},
                               {"t": "pad", "way": w, "size": b + 1}, val(0x10031, way=w, alignment=b, size=5))}
    for a in (None, 0, 1, -5, 100):
        for b in (None, 0, 1, 7, 100):
            for lo, hi in ((0, 1), (0, 100), (1, 7), (-5, 7), (0, 0), (-5, 0)):
                k = {n: x for n, x in (("physicalMin", a), ("physicalMax", b)) if x is not None}
                yield {"tree": app(val(0x10030, logicalMin=lo, logicalMax=hi, **k))}
    for k, t in enumerate(twins()):
        yield {"tree": t, "notation": k}
    for k, t in enumerate(page_runs()):
        if k % 3 == 0:
            yield {"tree": t, "notation": k}
    for fl in range(512):
        yield {"tree": app(val(0x10030, flags=fl), val(0x10031, flags=fl, namedArray={"list": [0x10032, 0x10035]}),
                           val(None, flags=fl, namedArray={"range": [0x10032, 0x10035]})), "notation": fl}
    for n in (30, 60, 90):
        t = val(0x10030)
        for i in range(n):
            t = app(val(0x10031), t, val(0x10032), kind=i % 7, usage=0x10001 + i)
        yield {"tree": t}
    for n in (256, 1025, 3000):
        yield {"tree": app(*[val(0x10030 + i % 9, size=i % 11 + 1) for i in range(n)])}
        yield {"tree": app(*[app(val(0x10030 + i % 9), kind=i % 3) for i in range(n)])}
    for al in (None, 0, 1, 4, 8, 16):
        for c in (1, 2):
            z = val(0x10031, size=0, count=c)
            if al is not None:
                z["alignment"] = al
            yield {"tree": app(val(0x10030, size=3), z, val(0x10032, size=1), {"t": "pad", "way": "Input", "size": 0},
                               {"t": "align", "way": "Input", "boundary": 0})}
    ns = sorted(names.GOLDEN["arcade"]["names"])
    for i in range(0, len(ns), 7):
        yield {"vendor": ns[i:i + 7]}
    yield {"tree": {"t": "top", "m": []}}
    yield {"tree": {"t": "top", "m": [app(rep(1)), app()]}}
    yield {"tree": rep(7, app(val(0x10030)))}
    yield {"tree": app(val(0x10030, flags=1), val(0x10030, flags=3, logicalMin=0, logicalMax=5, count=3))}


def generate(rng, i, tier):
    if rng.random() < 0.25:
        return {"stream": gen.descriptor(rng, language=True)}
    return {"tree": trees.tree(rng), "notation": rng.getrandbits(20), "named_unit": rng.random() < 0.3}


def name_units(obj):
    U = sut.D.Unit
    if isinstance(obj, (sut.D.TopLevel, sut.D.Report, sut.D.Collection)):
        for m in obj:
            name_units(m)
    elif hasattr(obj, "unit"):
        for n, v in names.UNITS.items():
            if int(obj.unit) == v:
                obj.unit = getattr(U, n)


VENDOR = """
import sys
from hrdc.usage import *
from hrdc.usage import arcade
from hrdc.descriptor import *
from hrdc.descriptor.dumper import Dumper
u = [%s]
d = Collection(Collection.Application, u[0], *[Value(Value.Input, x, 8, logicalMin = 0, logicalMax = 1) for x in u])
d.append(Value(Value.Input, u[-1], 8, namedArray = [desktop.X] + u))
d.append(Value(Value.Input, None, 8, namedArray = UsageRange(u[0], int(u[0]) + 3)))
if sys.argv[1:2] == ["dump"]:
    d.accept(Dumper(sys.stdout))
else:
    compile_main(d)
"""


def vendor(case, mon):
    """A description with constants of a module that scripts do not import, in processes of its own."""
    code = VENDOR % ", ".join("arcade." + n for n in case["vendor"])
    with proc.Scratch() as sc:
        def call(name, *args):
            rc, out, err = proc.run([sc.path(name)] + list(args))
            if rc or err:
                raise Violation("%s exits with %d" % (name, rc), stderr=err.decode(errors="replace")[-500:], args=args)
            return out
        sc.put("source.py", code.encode())
        script = call("source.py", "dump")
        sc.put("dumped.py", script)
        for opts in ((), ("-N",)):
            a, b = call("source.py", *opts), call("dumped.py", *opts)
            if a != b or not a:
                raise Violation("the rebuilt description compiles to other bytes", script=script.decode(), args=opts,
                                original=hexs(a), rebuilt=hexs(b))
            mon.count("bytes_compared", len(a))
    mon.count("scripts")
    mon.count("processes", 3)
    mon.nontrivial(script)


def run(case, mon):
    if "vendor" in case:
        return vendor(case, mon)
    if "stream" in case:
        data = gen.to_bytes(case["stream"])
        with mon.sut("decompiling"):
            obj = sut.decompile(data)
    else:
        with mon.sut("building"):
            n = case.get("notation")
            obj = trees.build(case["tree"], random.Random(n) if n is not None else None)
            if case.get("named_unit"):
                name_units(obj)
    with mon.sut("compiling the original description"):
        ref = [sut.compile_tree(obj, 0, hi).bytes() for hi in (0, 100)]
    with mon.sut("dumping"):
        script = sut.dump(obj)
    try:
        with mon.sut("executing the dumped script"):
            back = sut.load_script(script)
        with mon.sut("compiling the rebuilt description"):
            got = [sut.compile_tree(back, 0, hi).bytes() for hi in (0, 100)]
    except Violation as v:
        v.detail["script"] = script[:3000]
        raise
    for a, b, what in zip(ref, got, ("unoptimized", "optimized")):
        if a != b:
            raise Violation("the rebuilt description compiles (%s) to other bytes" % what, script=script[:3000],
                            original=S.show(S.decode(a)), rebuilt=S.show(S.decode(b)))
        mon.count("bytes_compared", len(a))
    with mon.sut("dumping the rebuilt description"):
        again = sut.dump(back)
        third = sut.compile_tree(sut.load_script(again), 0, 0).bytes()
    if third != ref[0]:
        raise Violation("second dump rebuilds another description", script=again[:3000])
    mon.count("scripts")
    for it in S.decode(ref[0]):
        if it.kind == S.LOCAL and it.tag == S.USAGE:
            mon.see("usages_dumped", it.value)
    mon.nontrivial(script)
    mon.sample({"script": script[60:400]})


def shrink(case):
    if "vendor" in case:
        for i in range(len(case["vendor"])):
            if len(case["vendor"]) > 1:
                yield {"vendor": case["vendor"][:i] + case["vendor"][i + 1:]}
    elif "tree" in case:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
    else:
        from ..util import shrink_field
        for c in shrink_field(case, "stream"):
            try:
                S.meaning(S.decode(gen.to_bytes(c["stream"])))
            except (S.Invalid, S.Malformed):
                continue
            yield c
