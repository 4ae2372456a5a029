"""Monitor: usage constants against a golden table, and lookups by value and by name."""
from .. import gen, spec as S, sut, names
from ..core import Violation
from hrdc.util import NamedConstant

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("every golden constant of every page module, every constant a module defines, every button and ordinal index, "
        "every defined value with its neighbours, and random numbers up to 32 bits, looked up in random order with the "
        "names of earlier lookups watched; non-trivial: a distinct value looked up")
ASSUMPTIONS = ["the golden table holds the HID usage tables' values for the names the library publishes, transcribed at "
               "the pinned commit and reviewed; constants added later are checked for consistency only"]
BUDGET = {"quick": 4000, "thorough": 30000}
FLOORS = {"golden_constants": 1250, "lookups": 200000, "parametric": 2000, "named_lookups": 10000, "defined": 1250}
COVER = ["usage/usage.py", "usage/button.py", "usage/ordinal.py"]
MODULES = sorted(names.GOLDEN)


def setup(tier):
    import hrdc.usage
    import importlib
    for m in MODULES:
        importlib.import_module("hrdc.usage." + m)


def fixed(tier):
    for m in MODULES:
        yield {"kind": "module", "module": m}
    step = 512
    for m, page in (("button", 9), ("ordinal", 10)):
        for a in range(0, 65536, step):
            yield {"kind": "parametric", "module": m, "page": page, "range": [a, a + step, 1 if tier == "thorough"
                                                                             else (1 if a < 1024 else 17)]}
    for p in sorted(set(names.MODULE_PAGE.values()) | set(gen.ODD_PAGES)):
        for a in range(0, 65536, 8192 if tier == "thorough" else 16384):
            yield {"kind": "sweep", "page": p, "range": [a, a + 8192, 1 if tier == "thorough" or a == 0 else 37]}
    yield {"kind": "order"}


def generate(rng, i, tier):
    vs = []
    known = [v for d in names.GOLDEN.values() for v in d["names"].values()]
    for _ in range(150):
        r = rng.random()
        if r < 0.4:
            vs.append(rng.choice(known))
        elif r < 0.6:
            vs.append((rng.choice(known) + rng.choice((-1, 1, 0x10000, -0x10000, 0x100))) & 0xffffffff)
        elif r < 0.8:
            vs.append(rng.choice(gen.PAGES) << 16 | rng.randrange(0x300))
        else:
            vs.append(rng.getrandbits(rng.choice((4, 8, 16, 17, 24, 32))))
    return {"kind": "values", "values": vs, "make": [rng.randrange(0, 70000) for _ in range(5)]}


def space():
    import hrdc.usage
    ns = {"UsageRange": sut.UsageRange}
    for m in MODULES:
        ns[m] = __import__("hrdc.usage." + m, fromlist=["x"])
    return ns


def evaluate(name, ns, what):
    try:
        return int(eval(name, {"__builtins__": {}}, ns))
    except Exception as e:
        raise Violation("%s has a name that does not evaluate: %r (%s)" % (what, name, e))


def check_value(v, mon, ns):
    with mon.sut("looking up 0x%x" % v):
        u = sut.Usage.lookup(v)
        got, name = int(u), str(u)
    mon.count("lookups")
    if got != v:
        raise Violation("looking up 0x%x gives %s = 0x%x" % (v, name, got))
    if evaluate(name, ns, "usage 0x%x" % v) != v:
        raise Violation("looking up 0x%x gives the name %s, which is 0x%x" % (v, name, evaluate(name, ns, "")))
    mon.see("nontrivial", v.to_bytes(4, "little"))
    return name


def run(case, mon):
    ns = space()
    k = case["kind"]
    if k == "module":
        module(case["module"], ns, mon)
    elif k == "parametric":
        m = case["module"]
        f = getattr(ns[m], m.capitalize())
        before = check_value(case["page"] << 16 | 5, mon, ns)
        for n in range(*case["range"]):
            with mon.sut("%s(%d)" % (m, n)):
                u = f(n)
                v, name = int(u), str(u)
            mon.count("parametric")
            want = case["page"] << 16 | n
            if v != want:
                raise Violation("%s(%d) is 0x%x" % (m.capitalize(), n, v))
            if name != "%s.%s(%d)" % (m, m.capitalize(), n):
                raise Violation("%s(%d) is named %s" % (m.capitalize(), n, name))
            if evaluate(name, ns, name) != want:
                raise Violation("name %s evaluates to another value" % name)
            check_value(want, mon, ns)
        if check_value(case["page"] << 16 | 5, mon, ns) != before:
            raise Violation("using %s changed the name of another usage" % m)
    elif k == "sweep":
        page = case["page"]
        for n in range(*case["range"]):
            check_value(page << 16 | n, mon, ns)
            if n % 61 == 0:
                in_page(page, n, mon, ns)
    elif k == "values":
        first = {}
        for v in case["values"]:
            first.setdefault(v, check_value(v, mon, ns))
        for n in case["make"]:
            with mon.sut("making parametric usages"):
                ns["button"].Button(n), ns["ordinal"].Ordinal(n)
                sut.Usage.page(n & 0xffff)
                sut.Usage.inpage(n & 0xffff, 3)
        for j, v in enumerate(case["values"][::3]):
            # a number that comes with a name of its own, or inside items and ranges
            with mon.sut("looking up a named number 0x%x" % v):
                c = NamedConstant("Other%d" % j, v)
                got = [int(sut.Usage.lookup(c)), int(sut.Usage.lookup(sut.Usage.lookup(c))),
                       int(sut.item.Usage(c).value), int(sut.item.UsageMaximum(v).value),
                       int(sut.UsageRange(c, c)[0]), int(list(sut.UsageRange(v, c))[0])]
                sut.Usage.lookup(v).split(), sut.Usage.lookup(c).split()
            if set(got) != {v}:
                raise Violation("looking up a constant of value 0x%x gives %s" % (v, [hex(x) for x in got]))
            mon.count("named_lookups")
        for v in reversed(case["values"]):
            if check_value(v, mon, ns) != first[v]:
                raise Violation("usage 0x%x is named %s, then %s" % (v, first[v], check_value(v, mon, ns)))
            in_page(v >> 16, v & 0xffff, mon, ns)
        mon.sample({"looked up": ["0x%x: %s" % (v, first[v]) for v in case["values"][:5]]})
    else:
        for p, n in ((p, n) for n, p in names.PAGE_NAMES.items()):
            with mon.sut("naming page 0x%x" % p):
                c = sut.Usage.page(p)
                iv = int(c)
            if iv != p:
                raise Violation("page 0x%x is %s = 0x%x" % (p, c, iv))
            if names.table(str(c), names.PAGE_NAMES) not in (p,):
                raise Violation("page 0x%x is named %s" % (p, c))


def in_page(page, n, mon, ns):
    with mon.sut("usage %d in page %d" % (n, page)):
        c = sut.Usage.inpage(page, n)
        v, name = int(c), str(c)
    if v != n:
        raise Violation("usage 0x%x of page 0x%x is found as %s = 0x%x" % (n, page, name, v))
    got = names.number(name)
    if got is None:
        got = names.usage(name, page)
    if got != n:
        raise Violation("usage 0x%x of page 0x%x is named %s" % (n, page, name))


def module(m, ns, mon):
    mod = ns[m]
    g = names.GOLDEN[m]["names"]
    for n, v in sorted(g.items()):
        c = getattr(mod, n, None)
        if c is None:
            raise Violation("%s.%s is missing" % (m, n))
        if int(c) != v:
            raise Violation("%s.%s is 0x%x, HID assigns 0x%x" % (m, n, int(c), v))
        mon.count("golden_constants")
    page = names.MODULE_PAGE[m]
    for n in dir(mod):
        c = getattr(mod, n)
        if not isinstance(c, sut.Usage):
            continue
        v = int(c)
        mon.count("defined")
        if v >> 16 != page:
            raise Violation("%s.%s = 0x%x is not on page 0x%x" % (m, n, v, page))
        if str(c) != "%s.%s" % (m, n):
            raise Violation("%s.%s is named %s" % (m, n, c))
        if evaluate(str(c), ns, "%s.%s" % (m, n)) != v:
            raise Violation("%s does not evaluate to itself" % c)
        name = check_value(v, mon, ns)
        if not name.startswith(m + "."):
            raise Violation("looking up %s.%s gives %s" % (m, n, name))
        with mon.sut("splitting %s" % c):
            p, u = c.split()
            ok = int(p) == page and int(u) == v & 0xffff
        if not ok:
            raise Violation("%s splits into page %d, usage %d" % (c, int(p), int(u)))
        in_page(page, v & 0xffff, mon, ns)
