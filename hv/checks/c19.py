"""Monitor: units and flags against HID's values; operators of named constants against int."""
import operator as op

from .. import gen, sut, names
from ..core import Violation
from hrdc.util import NamedConstant

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("every dimension with every exponent from -20 to 20, every well-known constant by attribute, and each operator "
        "on pairs of constants and ints on either side over boundary and random values; non-trivial: a distinct "
        "(operator, sides, values) computed")
ASSUMPTIONS = ["sums, products and shifts with a plain integer are supported on the right-hand side, comparisons "
               "< and > between constants and < with an integer on the right"]
BUDGET = {"quick": 4000, "thorough": 30000}
FLOORS = {"operations": 200000, "constants": 60, "exponents": 90}
COVER = ["util/named_constant.py", "stream/item.py"]

# operator: notations that are supported (constant-constant, constant-int, int-constant)
OPS = {"add": (op.add, "cc ci"), "mul": (op.mul, "cc ci"), "and": (op.and_, "cc ci ic"), "or": (op.or_, "cc ci ic"),
       "lshift": (op.lshift, "cc ci"), "rshift": (op.rshift, "cc ci"), "eq": (op.eq, "cc ci ic"),
       "ne": (op.ne, "cc ci ic"), "lt": (op.lt, "cc ci"), "gt": (op.gt, "cc"),
       "sub": (op.sub, ""), "xor": (op.xor, ""), "le": (op.le, ""), "ge": (op.ge, ""),
       "mod": (op.mod, ""), "floordiv": (op.floordiv, "")}


def fixed(tier):
    yield {"kind": "constants"}
    for d in names.DIMENSIONS:
        yield {"kind": "dimension", "name": d}
    vs = sorted({0, 1, 2, 3, 7, 8, 15, 16, 127, 128, 255, 256, -1, -2, -128, 0xffff, 0x10000, 2 ** 31, 2 ** 32 - 1, 2 ** 40})
    for a in vs:
        yield {"kind": "pairs", "pairs": [[a, b] for b in vs]}
    f = list(names.FLAGS.values())
    for a in f:
        yield {"kind": "pairs", "pairs": [[a, b] for b in f] + [[b, a] for b in f]}


def generate(rng, i, tier):
    ps = []
    for _ in range(40):
        a = rng.getrandbits(rng.choice((1, 4, 8, 16, 32))) * rng.choice((1, 1, 1, -1))
        b = rng.choice((a, a + 1, a - 1, rng.getrandbits(rng.choice((1, 4, 8, 16, 32)))))
        ps.append([a, b])
    return {"kind": "pairs", "pairs": ps}


def run(case, mon):
    k = case["kind"]
    if k == "constants":
        return constants(mon)
    if k == "dimension":
        return dimension(case["name"], mon)
    for a, b in case["pairs"]:
        pair(a, b, mon)
    mon.sample({"pairs": case["pairs"][:3]})


def pair(a, b, mon):
    ca, cb = NamedConstant("a", a), NamedConstant("b", b)
    ua, ub = sut.Usage("hv.a", a, register=False), sut.Usage("hv.b", b, register=False)
    # names play no role: the same one, those of numbers
    sa, sb = NamedConstant("b", a), sut.Usage("hv.a", b, register=False)
    na, nb = NamedConstant(str(b), a), NamedConstant(str(a), b)
    for name, (f, sup) in OPS.items():
        if "shift" in name and not 0 <= b < 64:
            continue
        if name in ("mod", "floordiv") and b == 0:
            continue
        want = f(a, b)
        for form, x, y in (("cc", ca, cb), ("ci", ca, b), ("ic", a, cb), ("cc", ua, ub), ("cc", ca, ub), ("ci", ua, b),
                           ("ic", a, ub), ("cc", sa, cb), ("cc", ua, sb), ("cc", na, nb), ("ci", na, b), ("ic", a, nb)):
            try:
                got = f(x, y)
            except Exception as e:
                if form in sup.split():
                    raise Violation("%s of %d and %d (%s) raises %s: %s" % (name, a, b, form, type(e).__name__, e))
                mon.count("unsupported")
                continue
            if isinstance(want, bool):
                ok = bool(got) == want
            else:
                ok = int(got) == want
            if not ok:
                raise Violation("%s of %d and %d (%s) is %s instead of %s" % (name, a, b, form, got, want))
            mon.count("operations")
            mon.nontrivial((name, form, a, b))
    with mon.sut("unary operations on %d" % a):
        inv, i, h, s = ~ca, int(ca), hash(ca), str(ca)
        found = {a: 1}.get(ca), {ca: 1}.get(a)
    if int(inv) != ~a:
        raise Violation("inverse of %d is %s" % (a, inv))
    if i != a or h != hash(a) or found != (1, 1):
        raise Violation("constant %d does not convert or hash as its value" % a)
    if s != "a" or (int(ca), str(ca), int(cb)) != (a, "a", b):
        raise Violation("operations altered the constant %d" % a)


def constants(mon):
    from hrdc.stream import item
    tabs = []
    for owner in (item.DataItem, item.Input, item.Output, item.Feature, sut.D.Value):
        tabs += [(owner, n, v) for n, v in names.FLAGS.items()]
    tabs += [(sut.D.Value, n, v) for n, v in (("Input", 8), ("Output", 9), ("Feature", 11))]
    for owner in (item.Collection, sut.D.Collection):
        tabs += [(owner, n, v) for n, v in names.COLLECTIONS.items()]
    for owner in (item.Unit, sut.D.Unit):
        tabs += [(owner, n, v) for n, v in list(names.UNITS.items()) + list(names.SYSTEMS.items())]
    for owner, n, v in tabs:
        c = getattr(owner, n, None)
        if c is None:
            raise Violation("%s.%s is missing" % (owner.__name__, n))
        if int(c) != v:
            raise Violation("%s.%s is 0x%x instead of 0x%x" % (owner.__name__, n, int(c), v))
        if str(c) != n and n not in ("Data", "Array", "Absolute", "NoWrap", "Linear", "PreferredState"):
            raise Violation("%s.%s is named %s" % (owner.__name__, n, c))
        mon.count("constants")
        mon.nontrivial((owner.__name__, n))


def dimension(name, mon):
    f = getattr(sut.D.Unit, name)
    pos = names.DIMENSIONS[name] * 4
    for e in range(-8, 8):
        with mon.sut("Unit.%s(%d)" % (name, e)):
            v = int(f(e))
        if v != (e & 15) << pos:
            raise Violation("Unit.%s(%d) is 0x%x instead of 0x%x" % (name, e, v, (e & 15) << pos))
        mon.count("exponents")
        mon.nontrivial((name, e))
    for e in list(range(-40, -8)) + list(range(8, 40)) + [100, -100, 255, 256, 1 << 20]:
        mon.expect_raise("Unit.%s(%d)" % (name, e), f, e)
    # combinations: every dimension nibble lands in its own place
    for e in range(-8, 8):
        for other, p in names.DIMENSIONS.items():
            if other != name:
                with mon.sut("combining units"):
                    g = getattr(sut.D.Unit, other)
                    v = int(sut.D.Unit.SILinear | f(e) | g(-e if e > -8 else 7))
                if v != 1 | (e & 15) << pos | ((-e if e > -8 else 7) & 15) << p * 4:
                    raise Violation("SILinear with %s(%d) and %s is 0x%x" % (name, e, other, v))


def shrink(case):
    if case["kind"] == "pairs" and len(case["pairs"]) > 1:
        for p in case["pairs"]:
            yield dict(case, pairs=[p])
