"""Monitor: descriptions put together against the same descriptions alone."""
import copy
import math
import random

from .. import spec as S, sut, trees, proc
from ..core import Violation
from ..treecheck import val, app, rep
from ..util import hexs

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("random and directed descriptions compiled alone, then in every order below one TopLevel, below a Report, below "
        "a Collection, one after the other in the same report, as objects, as scripts loaded again and as scripts "
        "importing each other, with and without passes; non-trivial: a distinct meaning of a whole")
ASSUMPTIONS = ["parts put side by side use different report IDs, or the former part ends on the alignment of the latter"]
BUDGET = {"quick": 9000, "thorough": 80000}
FLOORS = {"wholes": 10000, "parts": 8000, "events": 100000, "processes": 20, "nontrivial": 2000}
COVER = ["descriptor/streamer.py", "descriptor/descriptor.py", "descriptor/dumper.py"]
LAWS = ("side", "side", "report", "collection", "follow", "script")
GRID = 3 * 5 * 7 * 32       # alignments are made divisors of it


def fixed(tier):
    x = val(0x10030, size=3)
    y = val(0x90001, size=1, string=2, designator=1, unit=0x11, unitExponent=-2, physicalMin=-5, physicalMax=5)
    z = val(0xc0001, namedArray={"list": [0xc0040, 0xc0041, 0xff000001]}, logicalMin=0)
    w = val(0x10031, way="Output", size=16, logicalMin=-100, logicalMax=100)
    f = val(0xff430001, way="Feature", flags=S.VARIABLE | S.BUFFERED, count=9)
    some = [app(x), app(y, y), app(z), app(w, x), app(f), app(x, y, z, w, f), app(app(x, kind=0), y), app(z, kind=2),
            app(), {"t": "top", "m": [app(y), app(x)]}]
    n = 0
    for a in some:
        for b in some:
            for law in ("side", "report", "collection", "follow", "script"):
                n += 1
                if law in ("report", "collection") and b is not some[0]:
                    continue
                yield {"law": law, "parts": [a, b], "ids": [1, 255] if n % 2 else [200, 3], "notation": n,
                       "kind": n % 7, "usage": (0x10001, 0xc0001, None, 0xff430001)[n % 4]}
    for n in range(24 if tier == "quick" else 400):
        rng = random.Random("process %d" % n)
        yield {"law": "process", "parts": [tree(rng) for _ in range(rng.choice((1, 2, 3)))], "ids": [1, 7], "notation": n,
               "args": [[], ["-N"]][n % 2]}


def tree(rng):
    return trees.tree(rng, exclude=rng.sample(("reports", "top", "nested"), rng.choice((0, 1, 1, 2))))


def generate(rng, i, tier):
    law = rng.choice(LAWS)
    parts = [tree(rng) for _ in range(rng.choice((2, 2, 3)))]
    if law in ("report", "collection"):
        parts = [trees.tree(rng, exclude=("reports", "nested") if law == "report" else ())]
    return {"law": law, "parts": parts, "notation": rng.getrandbits(20), "ids": rng.sample(range(1, 256), 2),
            "kind": rng.choice((0, 1, 2, 3, 4, 5, 6, 0x80)), "usage": rng.choice((None, 0x10001, 0x90003, 0xffff0001))}


def distinct(t, first):
    """The tree with its report IDs renumbered from first on; a tree without any below a report."""
    t = copy.deepcopy(t)
    ids = {}
    for n in trees.walk(t):
        if n["t"] == "report":
            n["id"] = ids.setdefault(n["id"], first + len(ids))
    if not ids or bare(t):
        return rep(first, strip(t))
    return t


def bare(t):
    """Whether a field stands outside of any report."""
    if t["t"] == "report":
        return False
    return "m" not in t or any(bare(c) for c in t["m"])


def strip(t):
    if "m" not in t:
        return t
    t = dict(t, m=[strip(c) for c in t["m"]])
    return {"t": "top", "m": t["m"]} if t["t"] == "report" else t


def meaning(obj, opt, mon, what):
    with mon.sut("compiling %s" % what):
        b = sut.compile_tree(obj, 0, 100 if opt else 0).bytes()
    return interpret(b, what)


def interpret(b, what):
    try:
        return [e for e in S.meaning(S.decode(b), S.LANGUAGE) if e[0] != "totals"]
    except (S.Malformed, S.Invalid) as e:
        raise Violation("%s does not compile to a valid descriptor: %s" % (what, e), output=hexs(b)[:3000])


def field(e):
    return e[0] not in ("open", "close")


def same(want, got, what, mon, **detail):
    d = S.first_difference(want, got)
    if d:
        raise Violation("%s: event %d is %s, alone it is %s" % (what, d[0], d[2], d[1]), **detail)
    mon.count("wholes")
    mon.count("events", len(want))
    mon.nontrivial(want)


def run(case, mon):
    D = sut.D
    law = case["law"]
    rng = random.Random(case["notation"])
    if law in ("side", "script", "process"):
        parts = [distinct(t, 1 + 60 * i) for i, t in enumerate(case["parts"])]
    elif law == "follow":
        case = copy.deepcopy(case)
        for n in [n for t in case["parts"] for n in trees.walk(t)]:
            for k in ("alignment", "boundary"):
                if n.get(k):
                    n[k] = math.gcd(n[k], GRID)
        parts = [distinct(t, case["ids"][0]) if bare(t) else t for t in case["parts"]]
        if any(n["t"] == "report" and n["id"] == 0 for t in parts for n in trees.walk(t)):
            parts = [rep(case["ids"][0], strip(t)) for t in parts]
    elif law == "report":
        parts = [strip(t) for t in case["parts"][:1]]
    else:
        parts = case["parts"][:1]
    with mon.sut("building the parts"):
        objs = [trees.build(t, rng) for t in parts]
    if law == "process":
        return process(case, objs, mon)
    for opt in (False, True):
        alone = [meaning(o, opt, mon, "a part") for o in objs]
        mon.count("parts", len(objs))
        if law in ("side", "script"):
            use = objs
            if law == "script":
                with mon.sut("dumping and loading the parts"):
                    use = [sut.load_script(sut.dump(o)) for o in objs]
            order = list(range(len(use)))
            for _ in range(2):
                rng.shuffle(order)
                with mon.sut("putting the parts together"):
                    whole = group(D, [use[k] for k in order], rng)
                same([e for k in order for e in alone[k]], meaning(whole, opt, mon, "the whole"),
                     "parts %s side by side, optimized %s" % (order, opt), mon)
        elif law == "report":
            rid = case["ids"][0]
            whole = D.Report(rid, objs[0])
            want = [e if not field(e) else e[:2] + (rid,) + e[3:] for e in alone[0]]
            same(want, meaning(whole, opt, mon, "the report"), "the description as report %d, optimized %s" % (rid, opt), mon)
        elif law == "collection":
            whole = D.Collection(case["kind"], trees.usage_object(rng, case["usage"]), objs[0])
            want = [("open", case["kind"], case["usage"])] + alone[0] + [("close",)]
            same(want, meaning(whole, opt, mon, "the collection"), "the description in a collection, optimized %s" % opt, mon)
        else:
            follow(D, parts, objs, alone, opt, mon)
        # the parts still are what they were
        for o, ev in zip(objs, alone):
            same(ev, meaning(o, opt, mon, "a part afterwards"), "a part after having been used in a whole", mon)
    mon.sample({"law": law, "events": [repr(e) for e in alone[0][:4]]})


def group(D, parts, rng):
    """A TopLevel of the parts, at once, one by one or nested."""
    r = rng.random()
    if r < 0.4:
        return D.TopLevel(*parts)
    if r < 0.7:
        t = D.TopLevel()
        for p in parts:
            t.append(p)
        return t
    return D.TopLevel(parts[0], D.TopLevel(*parts[1:]))


def follow(D, parts, objs, alone, opt, mon):
    """In the same reports: what follows is laid out as alone, further on."""
    keys = sorted({(e[1], e[2]) for ev in alone for e in ev if field(e)})
    names = {v: k for k, v in trees.WAYS.items()}
    filler = {"t": "coll", "kind": 2, "usage": 0x10001, "m": [
        rep(r, {"t": "align", "way": names[w], "boundary": GRID}) if r else {"t": "align", "way": names[w], "boundary": GRID}
        for w, r in keys]}
    with mon.sut("putting the parts one after the other"):
        whole = D.TopLevel()
        for o in objs:
            whole.append(o)
            whole.append(trees.build(filler))
    got = meaning(whole, opt, mon, "the whole")
    at, off = 0, {}
    for n, ev in enumerate(alone):
        want = [e if not field(e) else e[:3] + (e[3] + off.get((e[1], e[2]), 0),) + e[4:] for e in ev]
        same(want, got[at:at + len(ev)], "part %d after %d others in the same report, optimized %s" % (n, n, opt), mon)
        at += len(ev)
        length = dict(off)
        for e in want:
            if field(e):
                length[(e[1], e[2])] = max(length.get((e[1], e[2]), 0), e[3] + extent(e))
        off = {k: -(-v // GRID) * GRID for k, v in length.items()}
        # the filler: one collection, a padding for each report that needs one
        if got[at:at + 1] != [("open", 2, 0x10001)]:
            raise Violation("part %d is followed by %s" % (n, got[at:at + 1]))
        while at < len(got) and got[at] != ("close",):
            at += 1
        at += 1


def extent(e):
    return e[4] * (e[5] if e[0] == "buf" else 1)


def process(case, objs, mon):
    alone = []
    for o in objs:
        alone += meaning(o, "-N" not in case["args"], mon, "a part")
    with proc.Scratch() as sc:
        for i, o in enumerate(objs):
            with mon.sut("dumping"):
                sc.put("part_%d.py" % i, sut.dump(o).encode())
        names = ["part_%d" % i for i in range(len(objs))]
        lines, terms, style = [], [], case["notation"] // 2 % 4
        for n in names:
            if style == 0:
                lines, terms = lines + ["import " + n], terms + [n + ".descriptor"]
            elif style == 1:
                lines, terms = lines + ["from %s import descriptor as %s" % (n, n)], terms + [n]
            elif style == 2:
                lines, terms = lines + ["from %s import descriptor" % n, "_%s = descriptor" % n], terms + ["_" + n]
            else:
                lines, terms = lines + ["import importlib", "_%s = importlib.import_module('%s').descriptor" % (n, n)], \
                    terms + ["_" + n]
        var = ("descriptor", "device")[case["notation"] // 8 % 2]
        sc.put("whole.py", ("%s\nfrom hrdc.descriptor import *\n%s = TopLevel(%s)\nif __name__ == '__main__':\n"
                            "    compile_main(%s)\n" % ("\n".join(lines), var, ", ".join(terms), var)).encode())
        before = sc.snapshot()
        rc, out, err = proc.run(["whole.py"] + case["args"], cwd=sc.dir)
        mon.count("processes")
        if rc:
            raise Violation("a script that imports descriptions exits with %d" % rc, stderr=err.decode(errors="replace")[-800:])
        if sc.snapshot() != before or err:
            raise Violation("a script that imports descriptions wrote something else", stderr=err.decode(errors="replace")[-800:])
    same(alone, interpret(out, "the composite script"), "a script importing the parts", mon)


def shrink(case):
    if len(case["parts"]) > 1 and case["law"] != "follow":
        for i in range(len(case["parts"])):
            yield dict(case, parts=case["parts"][:i] + case["parts"][i + 1:])
    for i, t in enumerate(case["parts"]):
        for s in trees.smaller(t):
            yield dict(case, parts=case["parts"][:i] + [s] + case["parts"][i + 1:])
