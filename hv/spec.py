"""Independent reading of HID report descriptors (HID 1.11, section 6.2.2).

Nothing here is imported from hrdc.  Two layers:

  decode(data)      bytes -> list of Short items (kind, tag, size, raw, value)
  meaning(items)    Short items -> ordered list of events describing the device

An *item tuple* elsewhere in the harness is (kind, tag, value) with value the
HID value (signed for the signed kinds).
"""
from collections import namedtuple

MAIN, GLOBAL, LOCAL = 0, 1, 2

INPUT, OUTPUT, COLLECTION, FEATURE, END = 0x8, 0x9, 0xa, 0xb, 0xc
(USAGE_PAGE, LOGMIN, LOGMAX, PHYMIN, PHYMAX, UNITEXP, UNIT, RSIZE, RID, RCOUNT,
 PUSH, POP) = range(12)
USAGE, UMIN, UMAX, DIDX, DMIN, DMAX = 0, 1, 2, 3, 4, 5
SIDX, SMIN, SMAX, DELIM = 7, 8, 9, 0xa

KINDS = {
    (MAIN, INPUT): "Input", (MAIN, OUTPUT): "Output", (MAIN, FEATURE): "Feature",
    (MAIN, COLLECTION): "Collection", (MAIN, END): "EndCollection",
    (GLOBAL, USAGE_PAGE): "UsagePage", (GLOBAL, LOGMIN): "LogicalMinimum",
    (GLOBAL, LOGMAX): "LogicalMaximum", (GLOBAL, PHYMIN): "PhysicalMinimum",
    (GLOBAL, PHYMAX): "PhysicalMaximum", (GLOBAL, UNITEXP): "UnitExponent",
    (GLOBAL, UNIT): "Unit", (GLOBAL, RSIZE): "ReportSize", (GLOBAL, RID): "ReportID",
    (GLOBAL, RCOUNT): "ReportCount", (GLOBAL, PUSH): "Push", (GLOBAL, POP): "Pop",
    (LOCAL, USAGE): "Usage", (LOCAL, UMIN): "UsageMinimum", (LOCAL, UMAX): "UsageMaximum",
    (LOCAL, DIDX): "DesignatorIndex", (LOCAL, DMIN): "DesignatorMinimum",
    (LOCAL, DMAX): "DesignatorMaximum", (LOCAL, SIDX): "StringIndex",
    (LOCAL, SMIN): "StringMinimum", (LOCAL, SMAX): "StringMaximum",
    (LOCAL, DELIM): "Delimiter",
}
BYNAME = {v: k for k, v in KINDS.items()}
SIGNED = {(GLOBAL, t) for t in (LOGMIN, LOGMAX, PHYMIN, PHYMAX, UNITEXP)}
NODATA = {(MAIN, END), (GLOBAL, PUSH), (GLOBAL, POP)}
USAGE_TAGS = (USAGE, UMIN, UMAX)
DATA_TAGS = (INPUT, OUTPUT, FEATURE)

CONSTANT, VARIABLE, RELATIVE, WRAP, NONLINEAR, NOPREF, NULLSTATE, VOLATILE, BUFFERED = \
    [1 << i for i in range(9)]

Short = namedtuple("Short", "kind tag size value")


class Malformed(Exception):
    def __init__(self, at, why, before):
        Exception.__init__(self, "%s at byte %d" % (why, at))
        self.at, self.why, self.before = at, why, before


def decode(data):
    """All short items of data; Malformed carries the items before the defect."""
    data = bytes(data)
    out, i = [], 0
    while i < len(data):
        h = data[i]
        kind, tag, sz = (h >> 2) & 3, h >> 4, h & 3
        n = (0, 1, 2, 4)[sz]
        if h == 0xfe:
            raise Malformed(i, "long item", out)
        if (kind, tag) not in KINDS:
            raise Malformed(i, "unassigned tag", out)
        if i + 1 + n > len(data):
            raise Malformed(i, "truncated item", out)
        raw = data[i + 1:i + 1 + n]
        v = 0
        for k in reversed(range(n)):
            v = v * 256 + raw[k]
        if n and (kind, tag) in SIGNED and raw[-1] & 0x80:
            v -= 1 << (8 * n)
        out.append(Short(kind, tag, n, v))
        i += 1 + n
    return out


def encode(kind, tag, value, size=None):
    """Reference encoding; size in 0, 1, 2, 4 or None for the shortest of 1, 2, 4."""
    signed = (kind, tag) in SIGNED
    if size is None:
        if (kind, tag) in NODATA:
            size = 0
        else:
            size = min_size(kind, tag, value)
    v = value & ((1 << (8 * size)) - 1) if size else 0
    h = tag << 4 | kind << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[size]
    return bytes([h]) + bytes((v >> (8 * k)) & 255 for k in range(size))


def min_size(kind, tag, value):
    for n in (1, 2, 4):
        if (kind, tag) in SIGNED:
            if -(1 << (8 * n - 1)) <= value < 1 << (8 * n - 1):
                return n
        elif 0 <= value < 1 << (8 * n):
            return n
    raise OverflowError(value)


def in_range(kind, tag, value):
    if (kind, tag) in NODATA:
        return value == 0
    if (kind, tag) in SIGNED:
        return -(1 << 31) <= value < 1 << 31
    return 0 <= value < 1 << 32


class Invalid(Exception):
    """The stream is not a valid report descriptor."""


class Options:
    """What is taken into account when describing fields."""
    def __init__(self, const_strict=True, array_phys=True, coll_locals=True,
                 array_all_ds=True):
        self.const_strict = const_strict    # constants with a usage are real fields
        self.array_phys = array_phys        # physical range/unit of arrays
        self.coll_locals = coll_locals      # designators/strings of collections
        self.array_all_ds = array_all_ds    # whole designator/string list of arrays


STRICT = Options()
LANGUAGE = Options(const_strict=False, array_phys=False, coll_locals=False,
                   array_all_ds=False)


def meaning(items, opt=STRICT):
    """Describe the device as an ordered list of events.

    ("open", kind, usage, ...) / ("close",)        collections
    ("pad", way, rid, offset, bits, flags)         unnamed constant bits
    ("var", way, rid, offset, size, attributes)    one element of a variable field
    ("arr", ...)                                   one slot of an array field
    ("buf", ...)                                   a buffered-bytes field as a whole
    """
    g = {t: 0 for t in range(12)}
    stack, ev, off, depth = [], [], {}, 0
    usages, desig, strings = [], [], []
    pend = {}
    delim = None

    def full(it):
        if it.size == 4 and it.value >> 16:
            return it.value
        return (g[USAGE_PAGE] << 16) | it.value

    def at(lst, i):
        return lst[min(i, len(lst) - 1)] if lst else None

    for it in items:
        k, t, v = it.kind, it.tag, it.value
        if k == GLOBAL:
            if t == PUSH:
                stack.append(dict(g))
            elif t == POP:
                if not stack:
                    raise Invalid("pop without push")
                g = stack.pop()
            else:
                g[t] = v
        elif k == LOCAL:
            if t == USAGE:
                if delim is not None:
                    delim.append(full(it))
                else:
                    usages.append(full(it))
            elif t == DIDX:
                desig.append(v)
            elif t == SIDX:
                strings.append(v)
            elif t == DELIM:
                if v:
                    if delim is not None:
                        raise Invalid("nested delimiter")
                    delim = []
                else:
                    if delim is None:
                        raise Invalid("delimiter not open")
                    usages.append(tuple(delim))
                    delim = None
            else:
                pend[t] = full(it) if t in (UMIN, UMAX) else v
                for a, b, lst in ((UMIN, UMAX, usages), (DMIN, DMAX, desig),
                                  (SMIN, SMAX, strings)):
                    if a in pend and b in pend:
                        lo, hi = pend.pop(a), pend.pop(b)
                        if lst is usages and lo >> 16 != hi >> 16:
                            raise Invalid("usage range across pages")
                        if hi - lo > 200000:
                            raise Invalid("range too large")
                        r = list(range(lo, hi + 1))
                        if lst is usages and delim is not None:
                            delim.extend(r)
                        else:
                            lst.extend(r)
        else:
            if t == COLLECTION:
                depth += 1
                e = ("open", v, at(usages, 0))
                if opt.coll_locals:
                    e += (_ds(desig), _ds(strings))
                ev.append(e)
            elif t == END:
                depth -= 1
                if depth < 0:
                    raise Invalid("unbalanced end collection")
                ev.append(("close",))
            else:
                rid = g[RID]
                key = (t, rid)
                o = off.get(key, 0)
                size, count = g[RSIZE], g[RCOUNT]
                off[key] = o + size * count
                if size * count > 1 << 24 or count > 200000:
                    raise Invalid("report too large")
                log = (g[LOGMIN], g[LOGMAX])
                phy = (g[PHYMIN], g[PHYMAX])
                if phy == (0, 0):
                    phy = log
                att = (v, log, phy, g[UNIT], g[UNITEXP])
                if v & CONSTANT and not (usages and opt.const_strict):
                    bits = size * count
                    fl = v if opt.const_strict else 0
                    last = ev[-1] if ev else None
                    if last and last[0] == "pad" and last[1:3] == key and last[5] == fl:
                        ev[-1] = ("pad", t, rid, last[3], last[4] + bits, fl)
                    elif bits:
                        ev.append(("pad", t, rid, o, bits, fl))
                elif v & BUFFERED:
                    ev.append(("buf", t, rid, o, size, count, tuple(usages), att,
                               at(desig, 0) or 0, at(strings, 0) or 0))
                elif v & VARIABLE:
                    for i in range(count):
                        ev.append(("var", t, rid, o + i * size, size, at(usages, i), att,
                                   at(desig, i) or 0, at(strings, i) or 0))
                else:
                    if not opt.array_phys and len(usages) == log[1] - log[0] + 1:
                        att = (v, log)
                    if opt.array_all_ds:
                        ds = (_ds(desig), _ds(strings))
                    else:
                        ds = (at(desig, 0) or 0, at(strings, 0) or 0)
                    for i in range(count):
                        ev.append(("arr", t, rid, o + i * size, size, tuple(usages), att) + ds)
            usages, desig, strings, pend = [], [], [], {}
            if delim is not None:
                raise Invalid("delimiter left open")
    if depth:
        raise Invalid("collection left open")
    ev.append(("totals", tuple(sorted((k, n) for k, n in off.items() if n))))
    return ev


def _ds(lst):
    return tuple(lst) if any(lst) else ()


def meaning_of_bytes(data, opt=STRICT):
    return meaning(decode(data), opt)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    if len(a) != len(b):
        i = min(len(a), len(b))
        return i, a[i] if i < len(a) else None, b[i] if i < len(b) else None
    return None


def show(items):
    return " ".join("%s(%s)" % (KINDS[(i.kind, i.tag)], i.value) for i in items)
