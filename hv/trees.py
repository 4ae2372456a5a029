"""Description trees as JSON, their construction with hrdc, and what they must mean.

Nodes:
  {"t": "top"|"report"|"coll", ..., "m": [children]}
  {"t": "val", "way", "usage", "size", optional attributes}
  {"t": "pad", "way", "size"}   {"t": "align", "way", "boundary"}

`expected` computes the events of spec.meaning(LANGUAGE) from the JSON alone: it is the model
of the compiler (layout, scoping, attributes), written from doc/descriptor.rst.
"""
from . import spec as S
from . import gen

WAYS = {"Input": S.INPUT, "Output": S.OUTPUT, "Feature": S.FEATURE}
DEFAULTS = dict(flags=None, logicalMin=None, logicalMax=None, physicalMin=None, physicalMax=None,
                namedArray=None, unit=0, unitExponent=0, designator=0, string=0, count=1,
                alignment=None)


# ----------------------------------------------------------------------- generation

class TreeGen:
    FEATURES = ("reports nested arrays units phys desig string flags counts aligns pads "
                "alignments outs features buffered vendor runs consts empty top ranges "
                "multipage sizes bigvals nousage restatephys wild").split()

    def __init__(self, rng, size, exclude=(), force=()):
        p = rng.choice((0.25, 0.5, 0.75))
        self.rng = rng
        self.on = {f: rng.random() < p for f in self.FEATURES}
        for f in exclude:
            self.on[f] = False
        for f in force:
            self.on[f] = True
        self.left = size
        self.pages = rng.sample(gen.PAGES, rng.randrange(1, 4))
        if self.on["vendor"]:
            self.pages += [rng.choice(gen.ODD_PAGES)]
        self.last = None
        self.lastval = None
        self.ids = rng.sample(range(1, 256), 4)
        if rng.random() < 0.15:
            self.ids = [0]
        elif rng.random() < 0.3:
            self.ids[0] = rng.choice((1, 255, 128))
        self.ways = ["Input"] + (["Output"] if self.on["outs"] else []) \
            + (["Feature"] if self.on["features"] else [])
        self.sizes = rng.sample([1, 1, 2, 3, 4, 6, 7, 8, 8, 9, 12, 16, 24, 32, 40], 3)
        if not self.on["sizes"]:
            self.sizes = [rng.choice((1, 8)), 8, 16]
        if self.on["wild"]:
            self.pages.append(gen.wild(rng, 16, least=1))
            self.sizes.append(gen.wild(rng, 8, least=1))

    def usage(self):
        rng = self.rng
        if self.last and rng.random() < 0.6:
            u = self.last + rng.choice((1, 1, 1, 1, 0, 2, -1))
            if not 0x10000 <= u <= 0xffffffff:
                u = self.last
        else:
            u = rng.choice(self.pages) << 16 | rng.choice(
                (rng.randrange(0, 12), rng.randrange(0x20, 0x60), rng.randrange(0, 0x10000),
                 0, 1, 0xff, 0x100, 0xffff, 0xfffe))
        self.last = u
        return u

    def named_array(self):
        rng = self.rng
        r = rng.random()
        if self.on["ranges"] and r < 0.5:
            p = rng.choice(self.pages)
            a = rng.choice((0, 1, 4, rng.randrange(0, 0xfe00)))
            n = rng.choice((1, 2, 3, 10, 100, 222, 256, 300))
            return {"range": [p << 16 | a, p << 16 | (a + n - 1)]}
        n = rng.choice((1, 2, 3, 4, 8))
        lst = []
        if r < 0.75:
            u = self.usage()
            p = u >> 16
            if (u & 0xffff) + n > 0xffff:
                u = p << 16 | 1
            lst = [u + i for i in range(n)]
            self.last = lst[-1]
        else:
            for _ in range(n):
                lst.append(self.usage() if self.on["multipage"] else
                           self.pages[0] << 16 | rng.randrange(0, 300))
        return {"list": lst}

    def value(self):
        rng, on = self.rng, self.on
        if on["runs"] and self.lastval is not None and rng.random() < 0.6:
            v = dict(self.lastval)
            if v.get("usage"):
                v["usage"] = self.usage()
            if rng.random() < 0.25:
                self.mutate(v)
            self.lastval = dict(v)
            return v
        v = {"t": "val", "way": rng.choice(self.ways), "usage": self.usage(),
             "size": rng.choice(self.sizes)}
        if on["nousage"] and rng.random() < 0.1:
            v["usage"] = None
        r = rng.random()
        if on["arrays"] and r < 0.3:
            v["namedArray"] = self.named_array()
            if rng.random() < 0.5:
                v["usage"] = None
            v["logicalMin"] = rng.choice((0, 0, 1, 1, 1, -3, 5, 100, 255))
            if v["logicalMin"] == 1 and rng.random() < 0.5:
                del v["logicalMin"]
        elif on["consts"] and r < 0.38:
            v["flags"] = S.CONSTANT | rng.choice((0, S.VARIABLE))
            if rng.random() < 0.5:
                v["logicalMin"], v["logicalMax"] = self.bounds()
        else:
            lo, hi = self.bounds()
            v["logicalMin"], v["logicalMax"] = lo, hi
            if lo == 1 and rng.random() < 0.5:
                del v["logicalMin"]
            if on["buffered"] and rng.random() < 0.2:
                v["flags"] = S.VARIABLE | S.BUFFERED
                v["count"] = rng.choice((1, 2, 8, 64))
        if on["flags"] and rng.random() < 0.5:
            base = v.get("flags", S.VARIABLE)
            if "namedArray" not in v and rng.random() < 0.15 and not base & S.CONSTANT:
                base &= ~S.VARIABLE
            v["flags"] = base | rng.choice((S.RELATIVE, S.WRAP, S.NONLINEAR, S.NOPREF,
                                            S.NULLSTATE, S.VOLATILE, 0xfc, 0, 0x44))
        self.mutate(v, 0.5)
        self.lastval = dict(v)
        return v

    def bounds(self):
        rng = self.rng
        if self.on["wild"] and rng.random() < 0.3:
            return tuple(sorted((gen.wild(rng, 32, True), gen.wild(rng, 32, True))))
        if self.on["bigvals"] and rng.random() < 0.4:
            a, b = rng.choice(gen.S32), rng.choice(gen.S32)
            return min(a, b), max(a, b)
        return rng.choice(((0, 1), (0, 255), (-127, 127), (1, 8), (0, 0), (0, 100),
                           (-32768, 32767), (5, 10)))

    def mutate(self, v, p=0.9):
        rng, on = self.rng, self.on
        named = "namedArray" in v
        if on["phys"] and not named and rng.random() < p:
            lo, hi = v.get("logicalMin", 1), v.get("logicalMax", 1)
            a, b = rng.choice(((lo, hi), (0, 0), (0, 1000), (-90, 90), (lo, 77), (None, 5), (3, None),
                               (None, None), (0, hi), (5, 10)))
            for k, x in (("physicalMin", a), ("physicalMax", b)):
                if x is None:
                    v.pop(k, None)
                else:
                    v[k] = x
        if on["units"] and rng.random() < p:
            v["unit"] = rng.choice((0, 0x11, 0x1001, 0xf011, 0x00f0d121, 0xe111, 0x12, 0x12345,
                                    0x01000000))
            v["unitExponent"] = rng.choice((0, -1, -3, 2, 7, -8))
        if on["desig"] and rng.random() < p:
            v["designator"] = rng.choice((0, 0, 1, 2, 3, 255))
        if on["string"] and rng.random() < p:
            v["string"] = rng.choice((0, 0, 1, 2, 3, 4, 300))
        if on["counts"] and rng.random() < p:
            v["count"] = rng.choice((1, 1, 2, 3, 6, 13))
        if on["alignments"] and rng.random() < p:
            v["alignment"] = rng.choice((1, 2, 3, 4, 8, 8, 16, 32))
        if on["wild"] and rng.random() < p / 2:
            # any one attribute, any magnitude
            k = rng.choice(("unit", "unitExponent", "designator", "string", "count", "alignment", "physicalMin", "physicalMax"))
            if on[{"unit": "units", "unitExponent": "units", "designator": "desig", "count": "counts",
                   "alignment": "alignments"}.get(k, k if k == "string" else "phys")]:
                if k[:4] != "phys":
                    v[k] = gen.wild(rng, {"count": 7, "alignment": 7}.get(k, 32), k == "unitExponent",
                                    int(k in ("count", "alignment")))
                elif not named:
                    v[k] = gen.wild(rng, 32, True)

    def leaf(self):
        rng, on = self.rng, self.on
        r = rng.random()
        if on["pads"] and r < 0.12:
            return {"t": "pad", "way": rng.choice(self.ways), "size": rng.choice((1, 2, 3, 5, 7, 8, 9, 24)) if not on["wild"]
                    else gen.wild(rng, 12, least=1)}
        if on["aligns"] and r < 0.24:
            return {"t": "align", "way": rng.choice(self.ways),
                    "boundary": rng.choice((1, 2, 4, 8, 8, 8, 16, 32, 3))}
        return self.value()

    def coll(self, depth, ctx):
        rng = self.rng
        kind = 1 if depth == 0 else rng.choice((0, 1, 2, 2, 3, 4, 5, 6, 7, 0x80, 0xfe))
        u = self.usage() if rng.random() < 0.95 else None
        return {"t": "coll", "kind": kind, "usage": u, "m": self.members(depth + 1, ctx)}

    def members(self, depth, ctx):
        """ctx: are values allowed here (a report is open, or no reports are used)"""
        rng, on = self.rng, self.on
        out = []
        n = rng.choice((1, 2, 3, 6)) if not (on["empty"] and rng.random() < 0.2) else 0
        for _ in range(n):
            if self.left <= 0:
                break
            r = rng.random()
            if on["reports"] and depth >= 1 and (not ctx and r < 0.6 or ctx and on["nested"] and r < 0.15):
                out.append({"t": "report", "id": rng.choice(self.ids),
                            "m": self.members(depth + 1, True)})
            elif r < 0.75 and ctx:
                k = rng.choice((1, 1, 2, 3, 8)) if on["runs"] else 1
                for _ in range(k):
                    out.append(self.leaf())
                    self.left -= 1
            elif depth < 6:
                self.left -= 1
                out.append(self.coll(depth, ctx))
        return out

    def build(self):
        rng = self.rng
        ctx = not self.on["reports"]
        if self.on["top"] or rng.random() < 0.2:
            tree = {"t": "top", "m": [self.coll(0, ctx) for _ in range(rng.choice((1, 2, 3)))]}
        else:
            tree = self.coll(0, ctx)
        if self.on["reports"] and rng.random() < 0.3:
            # reports around collections rather than inside
            t = {"t": "top", "m": []}
            for i in rng.sample(self.ids, min(len(self.ids), rng.choice((1, 2)))):
                c = self.coll(0, True)
                t["m"].append({"t": "report", "id": i, "m": [c]})
            tree = t
        return tree


def tree(rng, **k):
    t = TreeGen(rng, rng.choice((2, 4, 8, 8, 16, 30)), **k).build()
    if rng.random() < 0.15:
        # the same member again, later built as the same object or as an equal one
        import copy
        par = rng.choice([n for n in walk(t) if n.get("m")] or [t])
        if par.get("m"):
            i = rng.randrange(len(par["m"]))
            par["m"].insert(rng.choice((i + 1, len(par["m"]))), copy.deepcopy(par["m"][i]))
    if rng.random() < 0.15:
        # some members of a level grouped in a TopLevel of their own
        par = rng.choice([n for n in walk(t) if n.get("m")] or [t])
        if par.get("m"):
            i = rng.randrange(len(par["m"]))
            j = rng.randrange(i, len(par["m"])) + 1
            par["m"][i:j] = [{"t": "top", "m": par["m"][i:j]}]
    if rng.random() < 0.07:
        # a group without members
        par = rng.choice([n for n in walk(t) if "m" in n])
        par["m"].insert(rng.randrange(len(par["m"]) + 1), {"t": "top", "m": []})
    return t


def walk(t):
    yield t
    for c in t.get("m", ()):
        yield from walk(c)


def leaves(t):
    return [n for n in walk(t) if "m" not in n]


# ----------------------------------------------------------------------- construction

def usage_object(rng, u):
    """The same usage as an int or as a constant of the library."""
    from . import sut
    if u is None:
        return None
    if rng is not None and u >> 16 in (9, 10) and rng.random() < 0.5:
        from hrdc.usage import button, ordinal
        return (button.Button if u >> 16 == 9 else ordinal.Ordinal)(u & 0xffff)
    if rng is None or rng.random() < 0.5:
        return sut.Usage.lookup(u)
    return u


def flag_object(rng, fl):
    from . import sut
    V = sut.D.Value
    if rng is not None and rng.random() < 0.4:
        return fl
    acc = V.Data
    for name, bit in (("Constant", 1), ("Variable", 2), ("Relative", 4), ("Wrap", 8),
                      ("NonLinear", 16), ("NoPreferred", 32), ("NullState", 64),
                      ("Volatile", 128), ("BufferedBytes", 256)):
        if fl & bit:
            acc = acc | getattr(V, name)
    return acc


def unit_object(rng, u):
    """The same unit as an int or, when there is one, as the unit constant of the library."""
    from . import sut
    if rng is None or rng.random() < 0.5:
        return u
    for n in ("Centimeter", "Radian", "Inch", "Degree", "Gram", "Second", "Kelvin", "Ampere", "Candela", "CmPerSec",
              "Newton", "Volt"):
        c = getattr(sut.item.Unit, n)
        if int(c) == u:
            return c
    return u


def build(t, rng=None):
    """Construct the hrdc objects of a tree; rng picks among equivalent notations, one of which is to
    use one object wherever equal members stand."""
    return _build(t, rng, {} if rng is not None and rng.random() < 0.3 else None)


def _build(t, rng, memo):
    if memo is None:
        return _make(t, rng, None)
    import json
    key = json.dumps(t, sort_keys=True)
    if key not in memo:
        memo[key] = _make(t, rng, memo)
    return memo[key]


def _fill(cls, args, t, rng, memo):
    """The members given to the constructor, appended one by one, or some of each; members that are
    appended in between and taken away again leave nothing."""
    m = t["m"]
    at = len(m) if rng is None or rng.random() < 0.7 else rng.choice((0, 0, rng.randrange(len(m) + 1)))
    obj = cls(*args, *[_build(c, rng, memo) for c in m[:at]])
    for c in m[at:]:
        c = _build(c, rng, memo)
        if rng.random() < 0.1:
            obj.append(c)
            obj.pop()
        obj.append(c)
    return obj


# the arguments of Value after the size, in order, with the values they have when not given
POSITIONS = (("flags", 2), ("logicalMin", 1), ("logicalMax", None), ("physicalMin", None), ("physicalMax", None),
             ("namedArray", None), ("unit", 0), ("unitExponent", 0), ("designator", 0), ("string", 0), ("count", 1),
             ("alignment", None))


def _make(t, rng, memo):
    from . import sut
    D = sut.D
    k = t["t"]
    if k == "top":
        return _fill(D.TopLevel, (), t, rng, memo)
    if k == "report":
        return _fill(D.Report, (t["id"],), t, rng, memo)
    if k == "coll":
        names = ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch",
                 "UsageModifier"]
        kind = t["kind"]
        if kind < 7 and (rng is None or rng.random() < 0.8):
            kind = getattr(D.Collection, names[kind])
        return _fill(D.Collection, (kind, usage_object(rng, t["usage"])), t, rng, memo)
    way = getattr(D.Value, t["way"])
    if k == "pad":
        return D.Padding(way, t["size"])
    if k == "align":
        return D.Align(way, t["boundary"])
    kw = {n: t[n] for n in DEFAULTS if n in t}
    if "flags" in kw:
        kw["flags"] = flag_object(rng, kw["flags"])
    if kw.get("unit"):
        kw["unit"] = unit_object(rng, kw["unit"])
    if kw.get("namedArray") is not None:
        na = kw["namedArray"]
        if "range" in na:
            kw["namedArray"] = sut.UsageRange(usage_object(rng, na["range"][0]),
                                              usage_object(rng, na["range"][1]))
        else:
            kw["namedArray"] = [usage_object(rng, u) for u in na["list"]]
            if rng is not None and rng.random() < 0.2:
                kw["namedArray"] = tuple(kw["namedArray"])
        if rng is not None and "logicalMax" not in kw and rng.random() < 0.1:
            # follows from the list, whatever is given
            kw["logicalMax"] = kw.get("logicalMin", 1) + rng.choice((-1, 0, 1, 2, 7, 255))
    args = []
    if rng is not None and rng.random() < 0.15:
        # by position, as far as that goes
        n = rng.randrange(len(POSITIONS) + 1)
        args = [kw.pop(k, v) for k, v in POSITIONS[:n]]
    return D.Value(way, usage_object(rng, t["usage"]), t["size"], *args, **kw)


# ----------------------------------------------------------------------- the model

def array_usages(na):
    if "range" in na:
        return list(range(na["range"][0], na["range"][1] + 1))
    return list(na["list"])


def expected(tree, marks=None):
    """marks, when given, receives (node, index of its first event) of every field."""
    ev, off = [], {}

    def pad(way, rid, bits):
        o = off.get((way, rid), 0)
        off[(way, rid)] = o + bits
        if not bits:
            return
        last = ev[-1] if ev else None
        if last and last[0] == "pad" and last[1:3] == (way, rid):
            ev[-1] = ("pad", way, rid, last[3], last[4] + bits, 0)
        else:
            ev.append(("pad", way, rid, o, bits, 0))

    def align(way, rid, to):
        if to > 1:
            pad(way, rid, -off.get((way, rid), 0) % to)

    def go(t, rid):
        k = t["t"]
        if k == "top":
            for c in t["m"]:
                go(c, rid)
        elif k == "report":
            for c in t["m"]:
                go(c, t["id"])
        elif k == "coll":
            ev.append(("open", t["kind"], t["usage"]))
            for c in t["m"]:
                go(c, rid)
            ev.append(("close",))
        else:
            way = WAYS[t["way"]]
            if k == "pad":
                pad(way, rid, t["size"])
            elif k == "align":
                align(way, rid, t["boundary"])
            else:
                val(t, way, rid)

    def val(t, way, rid):
        size, count = t["size"], t.get("count", 1)
        al = t.get("alignment")
        align(way, rid, min(8, size) if al is None else al)
        fl = t.get("flags")
        if fl is None:
            fl = S.VARIABLE
        if fl & S.CONSTANT:
            return pad(way, rid, size * count)
        if marks is not None:
            marks.append((t, len(ev)))
        o = off.get((way, rid), 0)
        off[(way, rid)] = o + size * count
        lo, hi = t.get("logicalMin", 1), t.get("logicalMax")
        d, s = t.get("designator", 0), t.get("string", 0)
        na = t.get("namedArray")
        if na is not None:
            us = array_usages(na)
            fl &= ~S.VARIABLE
            log = (lo, lo + len(us) - 1)
            if t["usage"]:
                ev.append(("open", 2, t["usage"]))
            for i in range(count):
                ev.append(("arr", way, rid, o + i * size, size, tuple(us), (fl, log), d, s))
            if t["usage"]:
                ev.append(("close",))
            return
        log = (lo, hi)
        ph = (t.get("physicalMin") or 0, t.get("physicalMax") or 0)
        if ph == (0, 0):
            ph = log
        att = (fl, log, ph, t.get("unit", 0), t.get("unitExponent", 0))
        u = t["usage"]
        us = (u,) if u else ()
        if fl & S.BUFFERED:
            ev.append(("buf", way, rid, o, size, count, us, att, d, s))
        elif fl & S.VARIABLE:
            for i in range(count):
                ev.append(("var", way, rid, o + i * size, size, u or None, att, d, s))
        else:
            if len(us) == hi - lo + 1:
                att = (fl, log)
            for i in range(count):
                ev.append(("arr", way, rid, o + i * size, size, us, att, d, s))
    go(tree, 0)
    ev.append(("totals", tuple(sorted((k, n) for k, n in off.items() if n))))
    return ev


# ----------------------------------------------------------------------- shrinking

def smaller(t):
    """Trees with one node or attribute less."""
    import copy
    paths = []

    def rec(n, path):
        paths.append(path)
        for i, c in enumerate(n.get("m", ())):
            rec(c, path + [i])
    rec(t, [])

    def get(root, path):
        for i in path:
            root = root["m"][i]
        return root
    # drop a node / hoist its children
    for p in paths:
        if not p:
            continue
        r = copy.deepcopy(t)
        del get(r, p[:-1])["m"][p[-1]]
        yield r
    for p in paths:
        n = get(t, p)
        if p and "m" in n and n["m"]:
            r = copy.deepcopy(t)
            par = get(r, p[:-1])
            par["m"][p[-1]:p[-1] + 1] = par["m"][p[-1]]["m"]
            yield r
    for p in paths:
        n = get(t, p)
        for k in list(n):
            if k in DEFAULTS and k not in ("logicalMax", "namedArray", "logicalMin"):
                r = copy.deepcopy(t)
                del get(r, p)[k]
                yield r
