"""Monitor: the result of a unit of work in a pristine process against its result repeated, in a
used process, re-entrantly inside other work, from threads, and under other hash seeds."""
import json
import os
import random
import sys
import threading

from .. import gen, spec as S, sut, trees, jobs, proc, names
from ..core import Violation, VERIF, REPO

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("batches of parse, list, optimize, compile, decompile and dump work, some of it refused, executed (a) each alone "
        "in a fork of a process that did nothing else, then in one process (b) in sequence and reverse, repeated, (c) one "
        "piece of work run inside every output event of another, (d) from four threads with 1 us switch interval, (e) in "
        "new processes with other hash seeds; trees and constants are snapshotted around; non-trivial: a distinct "
        "(work, setting) with a non-error result compared")
ASSUMPTIONS = ["threads work on objects of their own"]
BUDGET = {"quick": 800, "thorough": 8000}
FLOORS = {"compared": 4000, "reentrant_steps": 5000, "thread_jobs": 800, "hash_seeds": 4, "trees_unchanged": 300}
COVER = []
ZYGOTE = None
CONSTANTS = None


def setup(tier):
    global ZYGOTE, CONSTANTS
    ZYGOTE = jobs.Zygote()
    CONSTANTS = constants()


def constants():
    import hrdc.usage
    from hrdc.stream import item
    out = {}
    for m in sorted(names.GOLDEN):
        mod = getattr(hrdc.usage, m, None)
        for n in dir(mod) if mod else ():
            c = getattr(mod, n)
            if isinstance(c, sut.Usage):
                out[m, n] = (str(c), int(c))
    for cls in (item.DataItem, item.Collection, item.Unit, sut.D.Value, sut.D.Collection):
        for n in dir(cls):
            c = getattr(cls, n)
            if type(c).__name__ == "NamedConstant":
                out[cls.__name__, n] = (str(c), int(c))
    for v in list(range(0x10000, 0x10100)) + list(range(0x90000, 0x900a0)) + list(range(0xa0000, 0xa00a0)) + [0xff430001]:
        out[v] = str(sut.Usage.lookup(v))
    for n in range(0, 0x30):
        out["page", n] = str(sut.Usage.page(n))
    return out


def fixed(tier):
    for i in range(3 if tier == "quick" else 40):
        rng = random.Random("hashseed %d" % i)
        yield {"kind": "process", "jobs": [jobs.make(rng) for _ in range(60)], "seeds": ["0", "1", "random", str(77 + i)]}
    # state left behind: unbalanced push, open collections, refused streams, then ordinary work
    ordinary = [{"op": o, "data": gen.to_bytes(gen.from_fragments(["x", "phy", "push", "des", "arr", "coll"])).hex()}
                for o in jobs.OPS_BYTES]
    dirty = ["a4a4a4", "05090901a101a1010509", "b4", "c0", "05", "fe0102", "a4050919012903", "8501a4c0b4b4", "0901a901",
             "750895011500250109308102", "2901", "55ffa102", "450a350565ff"]
    for d in dirty:
        yield {"kind": "batch", "jobs": [{"op": o, "data": d} for o in jobs.OPS_BYTES] + ordinary}
        yield {"kind": "nested", "jobs": ordinary + [{"op": o, "data": d} for o in jobs.OPS_BYTES]}


def generate(rng, i, tier):
    kind = ("batch", "nested", "threads")[i % 3]
    return {"kind": kind, "jobs": [jobs.make(rng) for _ in range({"batch": 10, "nested": 5, "threads": 8}[kind])],
            "seed": rng.getrandbits(30)}


def check(job, got, want, setting, mon):
    mon.count("compared")
    if got != want:
        a, b = want.split("\n"), got.split("\n")
        d = S.first_difference(a, b)
        raise Violation("%s gives another result %s: line %s is %r instead of %r" % (
            job["op"], setting, d[0], (d[2] or "")[:300], (d[1] or "")[:300]), job=job)
    if not want.startswith("raises"):
        mon.nontrivial((json.dumps(job, sort_keys=True), setting))
    else:
        mon.count("refused_jobs")


def snapshot(o):
    d = {}
    for k, v in sorted(vars(o).items()):
        if k.startswith("_"):
            continue            # not part of the description
        if k == "members":
            d[k] = [snapshot(m) for m in v]
        elif isinstance(v, (list, tuple)):
            d[k] = [(type(x).__name__, str(x), int(x)) for x in v]
        elif isinstance(v, sut.UsageRange):
            d[k] = (str(v), len(v))
        else:
            d[k] = (type(v).__name__, str(v))
    return (type(o).__name__, d)


def run(case, mon):
    js = case["jobs"]
    if case["kind"] == "process":
        return processes(case, mon)
    want = [ZYGOTE(j) for j in js]
    for w in want:
        if w is None or w.startswith("died"):
            raise Violation("work in a pristine process gave no result: %s" % w)
    if case["kind"] == "batch":
        for setting, order in (("after other work", range(len(js))), ("repeated", range(len(js))),
                               ("in reverse order", reversed(range(len(js))))):
            for n in order:
                with mon.sut(js[n]["op"]):
                    got = jobs.quiet(jobs.process, js[n])
                check(js[n], got, want[n], setting, mon)
        for j, w in zip(js, want):
            if "tree" in j:
                unchanged(j, w, mon)
    elif case["kind"] == "nested":
        for n, j in enumerate(js):
            for m in range(len(js)):
                inner, bad = js[m], []
                left = [6]

                def step():
                    if left[0] <= 0:
                        return
                    left[0] -= 1
                    mon.count("reentrant_steps")
                    g = jobs.quiet(jobs.process, inner)
                    if g != want[m]:
                        bad.append(g)
                with mon.sut(j["op"]):
                    got = jobs.quiet(jobs.process, j, jobs.Hook(step))
                check(j, got, want[n], "around other work", mon)
                if bad:
                    check(inner, bad[0], want[m], "inside other work", mon)
    else:
        threads(case, js, want, mon)
    now = constants()
    if now != CONSTANTS:
        k = [k for k in now if now[k] != CONSTANTS.get(k)] or [k for k in CONSTANTS if k not in now]
        raise Violation("use altered constant %s: %s instead of %s" % (k[0], now.get(k[0]), CONSTANTS.get(k[0])))
    mon.sample({"kind": case["kind"], "jobs": [j["op"] for j in js], "results": [w[:60] for w in want[:3]]})


def unchanged(j, w, mon):
    obj = trees.build(j["tree"], random.Random(j["notation"]))
    before = snapshot(obj)
    ops = ["compile", "dump", "plain", "listing", "dump", "compile", j["op"]]
    results = {}
    for o in ops:
        with mon.sut(o):
            r = jobs.process(dict(j, op=o), None, obj)
        if snapshot(obj) != before:
            raise Violation("%s changed the description" % o, job=j)
        if results.setdefault(o, r) != r:
            raise Violation("%s of one description object gives another result the second time" % o, job=j)
    check(j, results[j["op"]], w, "on a reused description object", mon)
    # the same member objects as part of another description
    lead = {"t": "val", "way": "Input", "size": 3, "logicalMin": 0, "logicalMax": 1, "usage": 0x10030}
    m = j["tree"].get("m", [])
    for tree, kids in (({"t": "coll", "kind": 1, "usage": 0x10002, "m": [lead, j["tree"]]}, [obj]),
                       ({"t": "coll", "kind": 1, "usage": 0x10002, "m": [lead] + m[::-1]}, list(obj)[::-1])):
        k = {"op": "compile" if j["op"] == "compile" else "plain", "tree": tree, "notation": 0}
        other = trees.build(tree, random.Random(0))
        del other.members[1:]
        other.members.extend(kids)
        with mon.sut(j["op"]):
            got = jobs.process(k, None, other)
        check(k, got, ZYGOTE(k), "with members that were part of another description", mon)
    mon.count("trees_unchanged")


def threads(case, js, want, mon):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    results = {}
    stdout, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        def work(t):
            order = list(range(len(js)))
            random.Random(case["seed"] + t).shuffle(order)
            for n in order:
                try:
                    results[t, n] = jobs.process(js[n])
                except BaseException as e:
                    results[t, n] = "thread raises %r" % e
        ts = [threading.Thread(target=work, args=(t,)) for t in range(4)]
        with mon.sut("threads"):
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
    finally:
        sys.setswitchinterval(old)
        sys.stdout.close()
        sys.stdout = stdout
    if any(t.is_alive() for t in ts):
        raise Violation("threads on separate objects do not finish")
    for (t, n), got in sorted(results.items()):
        check(js[n], got, want[n], "from several threads", mon)
        mon.count("thread_jobs")


def processes(case, mon):
    import hashlib
    want = [hashlib.sha256(ZYGOTE(j).encode()).hexdigest() for j in case["jobs"]]
    inp = json.dumps(case["jobs"]).encode()
    for s in case["seeds"]:
        rc, out, err = proc.run(["-m", "hv.jobs", REPO], inp, cwd=VERIF, extra_env={"PYTHONHASHSEED": s})
        got = out.decode().split()
        if rc or len(got) != len(want):
            raise Violation("a fresh process fails on the work", stderr=err.decode(errors="replace")[-800:])
        mon.see("hash_seeds", s)
        for j, g, w in zip(case["jobs"], got, want):
            mon.count("compared")
            if g != w:
                raise Violation("%s gives another result in a fresh process with PYTHONHASHSEED=%s" % (j["op"], s), job=j)


def shrink(case):
    n = len(case["jobs"])
    if n > 1:
        for k in (n // 2, 1):
            for i in range(0, n, k):
                yield dict(case, jobs=case["jobs"][:i] + case["jobs"][i + k:])
    for i, j in enumerate(case["jobs"]):
        if "tree" in j:
            for t in trees.smaller(j["tree"]):
                yield dict(case, jobs=case["jobs"][:i] + [dict(j, tree=t)] + case["jobs"][i + 1:])
