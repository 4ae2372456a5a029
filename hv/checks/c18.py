"""Monitor: every observation of a usage range against the list it stands for."""
from .. import gen, sut, names
from ..core import Violation

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("ranges over every page, ends as ints, constants and looked-up usages, lengths from 1 to beyond a page, indexed "
        "at every position and outside, iterated (also twice at once), rebuilt from their text; lists, consecutive or "
        "broken at every position, turned into ranges; non-trivial: a distinct (minimum, maximum) or list")
ASSUMPTIONS = ["the minimum of a range does not exceed its maximum"]
BUDGET = {"quick": 15000, "thorough": 120000}
FLOORS = {"ranges": 4000, "positions": 80000, "lists_accepted": 1000, "refusals": 1000}
COVER = ["usage/usage.py"]


def fixed(tier):
    for n in range(1, 40):
        for a in (0x10030, 0x70004, 0x90001, 0x8fffe, 0xffff0000, 0xffffffff - n, 0x90000 + 120, 1, 0):
            for form in range(4):
                yield {"min": a, "max": a + n - 1, "form": form}
    for a, n in ((0x90000, 0x10000), (0x8fffe, 0x10003), (1, 0x10001), (0xff420000, 40000), (0x70000, 0x20005)):
        for form in range(4):
            yield {"min": a, "max": a + n - 1, "form": form}
    # from the end of a page to the start of another
    for p in (1, 7, 9, 0xff42):
        for q in (p + 1, p + 2, p - 1, p, 0xff43):
            if q >= 0:
                for a in (1, 2, 5):
                    for b in (1, 2, 5):
                        yield {"list": [(p << 16 | 0x10000 - a) + i for i in range(a)] + [(q << 16) + i for i in range(b)],
                               "form": (a + b) % 3}
    for m, d in sorted(names.GOLDEN.items()):
        if m != "arcade" and d["names"]:
            vs = sorted(d["names"].values())
            yield {"min": vs[0], "max": vs[-1], "form": 1}
    for n in range(0, 12):
        base = list(range(0x90001, 0x90001 + n))
        yield {"list": base, "form": 0}
        yield {"list": base, "form": 1}
        for i in range(n):
            for d in (-2, -1, 1, 2, 0x10000):
                l = list(base)
                l[i] += d
                yield {"list": l, "form": i % 3}
            yield {"list": base[:i] + base[i + 1:], "form": 0}
            yield {"list": base[:i] + [base[i]] + base[i:], "form": 1}
        yield {"list": base[::-1], "form": 1}
    for n in (40, 64, 65, 100, 128, 129, 200, 256, 257, 300, 1000):
        base = list(range(0x90001, 0x90001 + n))
        yield {"list": base, "form": n % 3}
        for i in range(0, n, 1 if n < 300 else 37):
            l = list(base)
            l[i] += (1, -1, 2, 0x10000)[i % 4]
            yield {"list": l, "form": i % 3}
            if i % 3 == 0 and i < n - 1 and i:
                yield {"list": base[:i] + base[i + 1:], "form": 0}
    for n in range(0, 12):
        for hi in (0x10000, 0x20000, 0xa0000, 0xff440000):
            for k in range(n):
                yield {"list": list(range(hi - k, hi - k + n)), "form": k % 3}
                yield {"min": hi - k, "max": hi - k + n - 1, "form": k % 4}


def generate(rng, i, tier):
    p = rng.choice(gen.PAGES + gen.ODD_PAGES)
    a = p << 16 | rng.choice((0, 1, rng.randrange(0x300), rng.randrange(0x10000), 0xfff0))
    n = rng.choice((1, 2, 3, 5, 16, 50, 200))
    if rng.random() < 0.5:
        return {"min": a, "max": min(a + n - 1, 0xffffffff), "form": rng.randrange(4)}
    l = list(range(a, a + n))
    if rng.random() < 0.6 and l:
        i = rng.randrange(len(l))
        op = rng.randrange(5)
        if op == 0:
            l[i] = (l[i] + rng.choice((-1, 1, 2, 7, 0x10000))) & 0xffffffff
        elif op == 1:
            del l[i]
        elif op == 2:
            l.insert(i, l[i])
        elif op == 3:
            rng.shuffle(l)
        else:
            l.append(rng.getrandbits(32))
    return {"list": l, "form": rng.randrange(3)}


def obj(v, form):
    if form == 0:
        return v
    if form == 1:
        return sut.Usage.lookup(v)
    return sut.Usage("hv.u%x" % v, v, register=False)


def observe(r, want, mon, what):
    with mon.sut("observing %s" % what):
        n = len(r)
        it = [int(x) for x in r]
        it2 = [(int(x), int(y)) for x, y in zip(r, r)]
        names_ = [str(x) for x in list(r)[:3]]
        idx = [int(r[i]) for i in range(len(want))]
        neg = [int(r[i]) for i in range(-1, -len(want) - 1, -1)]
    if n != len(want):
        raise Violation("%s has length %d instead of %d" % (what, n, len(want)))
    if it != want:
        raise Violation("%s iterates over %s... instead of %s..." % (what, it[:6], want[:6]))
    if it2 != [(x, x) for x in want]:
        raise Violation("%s iterated twice at once gives other usages" % what)
    if idx != want:
        raise Violation("%s is indexed as %s... instead of %s..." % (what, idx[:6], want[:6]))
    if neg != want[::-1]:
        raise Violation("%s is indexed from its end as %s... instead of %s..." % (what, neg[:6], want[::-1][:6]))
    for i in (len(want), len(want) + 1, -len(want) - 1):
        try:
            x = r[i]
        except IndexError:
            continue
        raise Violation("%s of %d usages has an element %d: %s" % (what, len(want), i, x))
    mon.count("positions", len(want))
    mon.count("ranges")


def run(case, mon):
    import hrdc.usage
    f = case["form"]
    if "min" in case:
        a, b = case["min"], case["max"]
        want = list(range(a, b + 1))
        with mon.sut("making a range"):
            r = sut.UsageRange(obj(a, f % 3), obj(b, (f + f // 3) % 3 if f < 3 else 1))
        what = "UsageRange(0x%x, 0x%x)" % (a, b)
        if len(want) < 150000:
            observe(r, want, mon, what)
        if f in (0, 1, 3):
            with mon.sut("evaluating the text of " + what):
                ns = dict(vars(hrdc.usage))
                r2 = eval(str(r), ns)
                l2 = [int(x) for x in r2]
            if l2 != want:
                raise Violation("%s reads %s, which is another range" % (what, r))
        mon.nontrivial((a, b))
        mon.sample({"range": what, "text": str(r)})
        return
    l = case["list"]
    ok = len(l) >= 2 and all(x + 1 == y for x, y in zip(l, l[1:]))
    arg = [obj(v, f) for v in l]
    mon.nontrivial(l)
    if not ok:
        mon.expect_raise("a range from %s" % [hex(x) for x in l], sut.UsageRange.from_array, arg)
        return
    with mon.sut("making a range from %s" % l):
        r = sut.UsageRange.from_array(arg)
    observe(r, l, mon, "the range of %s" % [hex(x) for x in l])
    if [int(x) for x in arg] != l:
        raise Violation("making a range changed the list")
    mon.count("lists_accepted")
