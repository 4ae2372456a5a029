"""Seeded workload generators: item streams, valid descriptors, description trees, text noise.

Streams are lists of [kind, tag, size, value] (JSON), size being the number of data bytes on
the wire.  The descriptor generators use swarm-style feature selection (every case draws which
constructs it uses) and small value pools with run/mutate behaviour, because the interesting
behaviour of the optimizer and decompiler lies in what neighbouring items share.
"""
from . import spec as S, real

BOUND = sorted({0, 1, 2, 3, 5, 7, 8, 9, 10, 16, 100} |
               {(1 << k) + d for k in range(3, 33) for d in (-2, -1, 0, 1)})
U32 = [v for v in BOUND if 0 <= v < 1 << 32]
S32 = sorted({s * v for v in BOUND for s in (1, -1)} | {-(1 << 31)})
S32 = [v for v in S32 if -(1 << 31) <= v < 1 << 31]

PAGES = [0x01, 0x02, 0x03, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x20,
         0x59, 0x90]
ODD_PAGES = [0x04, 0x0e, 0x10, 0x14, 0x40, 0x84, 0x8c, 0xff, 0x100, 0x109, 0xff00, 0xff01, 0xff09, 0xff43, 0xffff, 0xf1d0]


def wild(rng, bits, signed=False, least=0):
    """A number of any magnitude."""
    v = max(least, rng.getrandbits(rng.randrange(1, bits + (0 if signed else 1))))
    return -v if signed and rng.random() < 0.5 else v


def value_for(rng, kind, tag):
    """Any representable value for an item, boundaries preferred."""
    if (kind, tag) in S.NODATA:
        return 0
    if (kind, tag) in S.SIGNED:
        if rng.random() < 0.7:
            return rng.choice(S32)
        n = rng.choice((7, 8, 15, 16, 31))
        return rng.randrange(-(1 << n), 1 << n)
    if rng.random() < 0.7:
        return rng.choice(U32)
    return rng.getrandbits(rng.choice((1, 4, 8, 9, 16, 17, 24, 32)))


def sizes_for(kind, tag, value):
    """All data sizes that can carry value."""
    if (kind, tag) in S.NODATA:
        return [0, 1, 2, 4]
    out = [0] if value == 0 else []
    m = S.min_size(kind, tag, value)
    return out + [n for n in (1, 2, 4) if n >= m]


def raw_stream(rng, n):
    """Any sequence of well-formed short items, no semantic constraint."""
    out = []
    ks = list(S.KINDS)
    if rng.random() < 0.3:
        ks = rng.sample(ks, rng.randrange(1, len(ks)))
    for _ in range(n):
        k, t = rng.choice(ks)
        v = value_for(rng, k, t)
        out.append([k, t, rng.choice(sizes_for(k, t, v)), v])
    return out


def balanced_raw_stream(rng, n):
    """As raw_stream, with collections opened and closed in order."""
    out, depth = [], 0
    ks = [k for k in S.KINDS if k not in ((0, S.COLLECTION), (0, S.END))]
    for _ in range(n):
        r = rng.random()
        if r < 0.12 and depth < 6:
            v = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0xff])
            out.append([0, S.COLLECTION, rng.choice(sizes_for(0, S.COLLECTION, v)), v])
            depth += 1
        elif r < 0.2 and depth:
            out.append([0, S.END, 0, 0])
            depth -= 1
        else:
            k, t = rng.choice(ks)
            v = value_for(rng, k, t)
            out.append([k, t, rng.choice(sizes_for(k, t, v)), v])
    return out + [[0, S.END, 0, 0]] * depth


def to_bytes(stream):
    return b"".join(S.encode(k, t, v, sz) for k, t, sz, v in stream)


def shorts(stream):
    return [S.Short(k, t, sz, v) for k, t, sz, v in stream]


# ------------------------------------------------------------------ valid descriptors

class Feat:
    NAMES = ("pushpop delims ranges full unit phys desig string ids arrays buffered constuse "
             "empty widesize redundant vendor zerocount multi dranges mixed collds padding "
             "flags bigcount runs out feature pushmid repeatmain outside popmid wild").split()

    def __init__(self, rng, exclude=(), force=()):
        p = rng.choice((0.25, 0.5, 0.75))
        self.on = {n: rng.random() < p for n in self.NAMES}
        for n in exclude:
            self.on[n] = False
        for n in force:
            self.on[n] = True

    def __getattr__(self, n):
        return self.on[n]


class DescGen:
    """Random walk producing a valid report descriptor.

    language=True restricts to what the description language expresses (used for decompiling):
    no delimiters, no named constants fields, every array either fully named or with at most one
    usage, no excess locals, sizes and counts of at least one.
    """
    def __init__(self, rng, length, language=False, exclude=(), force=()):
        self.rng = rng
        self.lang = language
        ex = set(exclude)
        if language:
            ex |= {"delims", "constuse", "zerocount", "collds"}
        self.f = Feat(rng, ex, force)
        self.out = []
        self.g = {t: 0 for t in range(12)}
        self.stack = []
        self.depth = 0
        self.length = length
        pool = rng.sample(PAGES, rng.randrange(1, 4))
        if self.f.vendor:
            pool += rng.sample(ODD_PAGES, 1)
        self.pages = pool
        self.shortpend = False
        self.ranges = rng.sample([(0, 1), (0, 255), (-127, 127), (0, 100), (1, 5), (0, 0),
                                  (-32768, 32767), (0, 65535), (-1, 1), (10, 10),
                                  (-2147483648, 2147483647), (0, 7)], rng.randrange(1, 4))
        self.sizes = rng.sample([1, 2, 3, 4, 5, 7, 8, 8, 12, 16, 32, 33, 64, 127, 128, 255, 256, 1000], rng.randrange(1, 4))
        self.units = rng.sample([0, 0x11, 0x12, 0x1001, 0xf011, 0x00f0d121, 0xe111, 0xffffffff,
                                 0x10000000], 2)
        self.ids = rng.sample(range(1, 256), rng.randrange(1, 4)) if self.f.ids else []
        self.ways = [S.INPUT] + ([S.OUTPUT] if self.f.out else []) \
            + ([S.FEATURE] if self.f.feature else [])
        if self.f.wild:
            self.pages = self.pages + [wild(rng, 16, least=1)]
            self.ranges = self.ranges + [tuple(sorted((wild(rng, 32, True), wild(rng, 32, True)))) for _ in range(2)]
            self.sizes = self.sizes + [wild(rng, 10, least=1), wild(rng, 6, least=1)]
            self.units = self.units + [wild(rng, 32)]
            if self.ids:
                self.ids = rng.sample(range(1, 256), rng.choice((4, 8, 20)))
        self.deepest = rng.choice((5, 12, 40)) if self.f.wild else 5
        self.lastusage = None
        self.lastflags = None
        self.mains = 0

    # -- emission
    def e(self, k, t, v):
        sz = S.min_size(k, t, v) if (k, t) not in S.NODATA else 0
        if self.f.widesize and self.rng.random() < 0.2:
            ok = sizes_for(k, t, v)
            if k == S.LOCAL and t in S.USAGE_TAGS and v < 1 << 16:
                ok = [n for n in ok if n < 4]       # a 32-bit usage is a full usage
            if (k, t) in S.NODATA:
                ok = [0]
            sz = self.rng.choice(ok)
        self.out.append([k, t, sz, v])

    def glob(self, t, v):
        if self.g[t] != v or (self.f.redundant and self.rng.random() < 0.3):
            self.e(S.GLOBAL, t, v)
        self.g[t] = v

    def usage_value(self, near=True):
        rng = self.rng
        if near and self.lastusage and rng.random() < 0.6:
            p, u = self.lastusage
            u = u + rng.choice((1, 1, 1, 1, 0, 2, -1))
            if not 0 <= u <= 0xffff:
                u = 1
            if rng.random() < 0.1:
                p = rng.choice(self.pages)
        else:
            p = rng.choice(self.pages)
            u = rng.choice((rng.randrange(0, 12), rng.randrange(0x20, 0x60),
                            rng.randrange(0, 0x10000), 0xffff, 0xfffe, 0, 1, 0xff, 0x100))
        self.lastusage = p, u
        return p, u

    def put_usage(self, tag, p, u, full):
        if full:
            self.e(S.LOCAL, tag, p << 16 | u)
        else:
            self.e(S.LOCAL, tag, u)
            self.shortpend = True

    def usage(self, tag=S.USAGE, pu=None):
        rng = self.rng
        p, u = pu or self.usage_value()
        full = self.f.full and rng.random() < 0.4
        if not full:
            if self.g[S.USAGE_PAGE] != p:
                if self.shortpend and not self.f.mixed:
                    full = True
                else:
                    self.glob(S.USAGE_PAGE, p)
            elif self.f.redundant and rng.random() < 0.1 and not self.shortpend:
                self.glob(S.USAGE_PAGE, p)
        self.put_usage(tag, p, u, full)
        return p, u

    def usage_range(self, n):
        rng = self.rng
        p, u = self.usage_value(near=False)
        u = min(u, 0xffff - n)
        full = self.f.full and rng.random() < 0.4
        if not full and self.g[S.USAGE_PAGE] != p:
            if self.shortpend and not self.f.mixed:
                full = True
            else:
                self.glob(S.USAGE_PAGE, p)
        self.put_usage(S.UMIN, p, u, full)
        self.put_usage(S.UMAX, p, u + n - 1, full)
        self.lastusage = p, u + n - 1

    def usages(self, n, excess=True):
        """n usages by any mix of singles, ranges and delimited sets."""
        rng = self.rng
        left = n
        inner = 0
        while left > 0:
            r = rng.random()
            if self.f.popmid and rng.random() < 0.3:
                if self.stack and rng.random() < 0.5:
                    self.pop()
                else:
                    self.push()
                    inner += 1
            if self.f.ranges and left > 1 and r < 0.5:
                k = rng.randrange(2, left + 1)
                self.usage_range(k)
                left -= k
            elif self.f.delims and excess and r < 0.6:
                self.e(S.LOCAL, S.DELIM, 1)
                for _ in range(rng.randrange(1, 4)):
                    self.usage()
                self.e(S.LOCAL, S.DELIM, 0)
                left -= 1
            else:
                self.usage()
                left -= 1

    def dlist(self, idx, lo, hi, n):
        rng = self.rng
        if self.f.dranges and n > 1 and rng.random() < 0.5:
            a = min(wild(rng, 32), 0xffffffff - n) if self.f.wild and rng.random() < 0.5 else rng.randrange(0, 20)
            self.e(S.LOCAL, lo, a)
            self.e(S.LOCAL, hi, a + n - 1)
            return
        a = rng.randrange(0, 6)
        if self.f.wild and rng.random() < 0.5:
            a = min(wild(rng, 32), 0xffffffff - n)
        i = 0
        while i < n:
            if self.f.dranges and n - i > 1 and rng.random() < 0.2:
                k = rng.randrange(2, n - i + 1)
                self.e(S.LOCAL, lo, a)
                self.e(S.LOCAL, hi, a + k - 1)
                i += k
                continue
            self.e(S.LOCAL, idx, a)
            i += 1
            a = a + 1 if rng.random() < 0.6 else rng.choice((0, 1, 5, 255, 256))
            if a > 0xffffffff:
                a = 0

    def set_globals(self):
        rng = self.rng
        ops = []
        lo, hi = rng.choice(self.ranges)
        ops.append(lambda: (self.glob(S.LOGMIN, lo), self.glob(S.LOGMAX, hi)))
        if self.f.phys:
            ph = rng.choice([(0, 0), (lo, hi), (0, 1000), (-5, 5), (lo, hi + 1 if hi < 9999 else 7),
                             (0, 5)])
            ops.append(lambda: (self.glob(S.PHYMIN, ph[0]), self.glob(S.PHYMAX, ph[1])))
        if self.f.unit:
            ops.append(lambda: self.glob(S.UNIT, rng.choice(self.units)))
            f = self.f
            ops.append(lambda: self.glob(S.UNITEXP, wild(rng, 32, True) if f.wild and rng.random() < 0.3
                                         else rng.choice((0, -1, -2, 3, 7, -8, 15))))
        ops.append(lambda: self.glob(S.RSIZE, rng.choice(self.sizes)))
        if self.ids:
            ops.append(lambda: self.glob(S.RID, rng.choice(self.ids)))
        rng.shuffle(ops)
        for o in ops[:rng.randrange(0, len(ops) + 1)]:
            o()

    def data(self, fresh):
        """One Input/Output/Feature with its preamble."""
        rng, f = self.rng, self.f
        if f.pushpop and rng.random() < 0.25:
            self.e(S.GLOBAL, S.PUSH, 0)
            self.stack.append(dict(self.g))
        if fresh:
            self.set_globals()
        if not self.g[S.RSIZE]:
            self.glob(S.RSIZE, rng.choice(self.sizes))
        if self.ids and not self.g[S.RID]:
            self.glob(S.RID, rng.choice(self.ids))
        way = rng.choice(self.ways) if fresh or self.lastflags is None else self.lastway
        if fresh or self.lastflags is None:
            fl = S.VARIABLE
            r = rng.random()
            if f.arrays and r < 0.3:
                fl = 0
            elif f.buffered and r < 0.4:
                fl = S.VARIABLE | S.BUFFERED if rng.random() < 0.7 else S.BUFFERED
            elif f.padding and r < 0.5:
                fl = S.CONSTANT | rng.choice((0, S.VARIABLE))
            if f.flags and rng.random() < 0.6:
                fl |= rng.choice((S.RELATIVE, S.WRAP, S.NONLINEAR, S.NOPREF, S.NULLSTATE,
                                  S.VOLATILE, S.RELATIVE | S.WRAP, 0xfc))
        else:
            fl = self.lastflags
        cnt = 1
        if rng.random() < 0.35:
            cnt = rng.choice((1, 2, 3, 4, 8))
            if f.bigcount:
                cnt = rng.choice((2, 5, 16, 40, 40, 255, 256, 300))
            if f.wild and rng.random() < 0.3:
                cnt = wild(rng, 7, least=1) if rng.random() < 0.9 else wild(rng, 11, least=1)
            if f.zerocount and rng.random() < 0.3:
                cnt = 0
        pre = rng.random() < 0.5
        if pre:
            self.glob(S.RCOUNT, cnt)

        const = fl & S.CONSTANT
        if const and (self.lang or not (f.constuse and rng.random() < 0.5)):
            pass
        elif fl & S.BUFFERED:
            if rng.random() < 0.9:
                self.usages(1, excess=not self.lang)
            if f.desig and rng.random() < 0.5:
                self.dlist(S.DIDX, S.DMIN, S.DMAX, 1)
            if f.string and rng.random() < 0.5:
                self.dlist(S.SIDX, S.SMIN, S.SMAX, 1)
        elif fl & S.VARIABLE:
            n = rng.choice((1, 1, cnt, cnt, 0, min(2, cnt)))
            if f.multi and not self.lang and rng.random() < 0.3:
                n = cnt + 1                                    # excess usage
            n = max(0, min(n, 12)) if not self.lang else max(0, min(n, cnt))
            parts = [lambda: self.usages(n)]
            if f.desig and rng.random() < 0.6:
                parts.append(lambda: self.dlist(S.DIDX, S.DMIN, S.DMAX,
                                                max(1, rng.choice((1, cnt, cnt, min(2, cnt), cnt - 1)))))
            if f.string and rng.random() < 0.6:
                parts.append(lambda: self.dlist(S.SIDX, S.SMIN, S.SMAX,
                                                max(1, rng.choice((1, cnt, cnt, min(2, cnt), cnt - 1)))))
            if f.pushmid and f.pushpop and rng.random() < 0.2:
                parts.append(self.push)
            rng.shuffle(parts)
            for p in parts:
                p()
                if self.f.redundant and rng.random() < 0.2:
                    self.glob(S.LOGMIN, self.g[S.LOGMIN])
        else:
            span = self.g[S.LOGMAX] - self.g[S.LOGMIN] + 1
            named = 1 <= span <= 300 and rng.random() < 0.7
            if named:
                if span > 12 or rng.random() < 0.4:
                    if self.f.ranges or span > 12:
                        self.usage_range(span) if span > 1 else self.usage()
                    else:
                        self.usages(span)
                else:
                    self.usages(span, excess=not self.lang)
            elif self.lang:
                if rng.random() < 0.7 and span != 1:
                    self.usage()
            else:
                self.usages(rng.choice((0, 1, 2, 5)))
            nd = 1 if self.lang else rng.choice((1, 2, 3))
            if f.desig and rng.random() < 0.5:
                self.dlist(S.DIDX, S.DMIN, S.DMAX, nd)
            if f.string and rng.random() < 0.5:
                self.dlist(S.SIDX, S.SMIN, S.SMAX, nd)
        if not pre:
            self.glob(S.RCOUNT, cnt)
        self.e(S.MAIN, way, fl)
        self.lastway, self.lastflags = way, fl
        self.shortpend = False
        self.mains += 1
        if self.stack and rng.random() < 0.4:
            self.pop()

    def push(self):
        self.e(S.GLOBAL, S.PUSH, 0)
        self.stack.append(dict(self.g))

    def pop(self):
        self.e(S.GLOBAL, S.POP, 0)
        self.g = self.stack.pop()

    def open(self):
        rng = self.rng
        if rng.random() < 0.9:
            if self.f.delims and rng.random() < 0.2:
                self.usages(1)
            else:
                pu = None
                if rng.random() < 0.15:
                    pu = rng.choice(((0x01, 0x4c), (0x0c, 0x02), (0x0c, 0x36), (0x20, 0x0316),
                                     (0x08, 0x3d), (0x0b, 0x06)))
                self.usage(pu=pu)
        if self.f.collds:
            if self.f.desig and rng.random() < 0.3:
                self.dlist(S.DIDX, S.DMIN, S.DMAX, rng.choice((1, 2)))
            if self.f.string and rng.random() < 0.3:
                self.dlist(S.SIDX, S.SMIN, S.SMAX, 1)
        kind = 1 if self.depth == 0 and rng.random() < 0.8 else \
            rng.choice((0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 0x80, 0xff))
        self.e(S.MAIN, S.COLLECTION, kind)
        self.depth += 1
        self.shortpend = False

    def close(self):
        self.e(S.MAIN, S.END, 0)
        self.depth -= 1
        self.shortpend = False

    def build(self):
        rng = self.rng
        self.open()
        while len(self.out) < self.length:
            r = rng.random()
            if self.depth == 0 and self.f.outside and r > 0.6:
                self.data(True)
            elif self.depth == 0 or (r < (0.08 if self.deepest == 5 else 0.25) and self.depth < self.deepest):
                self.open()
                if self.f.empty and rng.random() < 0.3:
                    self.close()
            elif r < 0.14 and (self.depth > 1 or rng.random() < 0.3):
                self.close()
            elif r < 0.18 and self.f.pushpop and self.stack:
                self.pop()
            elif r < 0.21 and self.f.pushpop:
                self.push()
            else:
                self.data(fresh=rng.random() < (0.4 if self.f.runs else 0.8))
        while self.depth:
            self.close()
        if self.f.outside and rng.random() < 0.3:
            self.data(True)
        if rng.random() < 0.5:
            while self.stack:
                self.pop()
        return self.out


def page_streams():
    """On every page and at the edges of the usage numbers: runs of usages in one and in several
    data items, as short and as full usages."""
    for p in PAGES + ODD_PAGES:
        for u in (0, 1, 0xfe, 0x7ffe, 0xfffa):
            for full in (0, 1):
                for n in (2, 3, 5):
                    us = [[2, S.USAGE, 4 if full else 2, (p << 16 if full else 0) | u + i] for i in range(n)]
                    head = [[1, 0, 2, 7 if full else p], [2, 0, 1, 6], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 8]]
                    yield head + [[1, 9, 1, n]] + us + [[0, 8, 1, 2], [0, 12, 0, 0]]
                    yield head + [[1, 9, 1, 1]] + [x for i in us for x in (i, [0, 11, 1, 2])] + [[0, 12, 0, 0]]
                    yield head + [[1, 2, 1, n - 1], [1, 9, 1, 1]] + us + [[0, 8, 0, 0], [0, 12, 0, 0]]
                    yield head + [[1, 2, 1, n - 1], [1, 9, 1, n], [2, 1] + us[0][2:], [2, 2] + us[-1][2:], [0, 8, 1, 2],
                                  [2, 1] + us[0][2:], [2, 2] + us[-1][2:], [0, 9, 0, 0], [0, 12, 0, 0]]


    # short and full usages of several pages mixed, page 0 included
    for p in PAGES + ODD_PAGES + [0]:
        for q in (9, 0xff00, 1):
            if p == q:
                continue
            s, f = [2, 0, 1, 5], [2, 0, 4, q << 16 | 6]
            head = [[1, 0, 2, 3], [2, 0, 1, 6], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 8], [1, 0, 2, p], [1, 9, 1, 1]]
            i = [0, 8, 1, 2]
            yield head + [s, i, f, i, s, i, [0, 12, 0, 0]]
            yield head + [f, i, s, i, f, i, s, i, [0, 12, 0, 0]]
            yield head + [[1, 10, 0, 0], f, i, s, i, [1, 11, 0, 0], s, i, [1, 9, 1, 3], f, s, f, i, [0, 12, 0, 0]]
            yield head + [f, [0, 10, 1, 2], s, i, [0, 12, 0, 0], s, [0, 10, 1, 2], f, i, [0, 12, 0, 0], s, i, [0, 12, 0, 0]]
    # across the end of a page
    head = [[1, 0, 1, 7], [2, 0, 1, 6], [0, 10, 1, 1], [1, 2, 1, 1], [1, 7, 1, 8]]
    for p in (1, 8, 9, 0xff42, 0xfffe):
        for a in range(1, 4):
            for b in range(1, 4):
                us = [[2, S.USAGE, 4, (p + 1 << 16) - a + i] for i in range(a + b)]
                yield head + [[1, 9, 1, a + b]] + us + [[0, 8, 1, 2], [0, 12, 0, 0]]
                yield head + [[1, 9, 1, 1]] + [x for i in us for x in (i, [0, 8, 1, 2])] + [[0, 12, 0, 0]]
                sh = [[1, 0, 2, p]] + [[2, 0, 2, 0x10000 - a + i] for i in range(a)] + [[1, 0, 2, p + 1]] \
                    + [[2, 0, 2, i] for i in range(b)]
                yield head + [[1, 9, 1, a + b]] + sh + [[0, 8, 1, 2], [0, 12, 0, 0]]
                yield head + [[1, 2, 1, a + b - 1], [1, 9, 1, 1]] + sh + [[0, 8, 0, 0], [0, 12, 0, 0]]


NEAR = ([(v, v + d) for v in (0, 1, 5, 0x7f) for d in (1, 0x100, 0x10000, 0x1000000)]
        + [(5, -5), (1, -1), (0xff, -1), (0xffff, -1), (0x80, -0x80), (0x8000, -0x8000), (0x7fff, -0x8000), (0, -1),
           (0x7fffffff, -1), (0x7fffffff, -0x80000000), (0x40000000, -0x40000000), (0x100, 0x10000), (0, -0x80000000)])
"""Pairs of values that some narrowing or sign treatment takes for equal."""


def near_pairs(signed):
    for a, b in NEAR:
        if not signed:
            a, b = a & 0xffffffff, b & 0xffffffff
        yield a, b
        yield b, a


def twin_streams():
    """Neighbouring fields that differ in one global or local value by little, there and back."""
    G, L, M = S.GLOBAL, S.LOCAL, S.MAIN

    def it(k, t, v):
        return [k, t, S.min_size(k, t, v), v]
    head = [[1, 0, 1, 1], [2, 0, 1, 2], [0, 10, 1, 1], [1, 1, 1, 0], [1, 2, 1, 1], [1, 7, 1, 8], [1, 9, 1, 1]]
    for k, t in [(G, x) for x in (S.LOGMIN, S.LOGMAX, S.PHYMIN, S.PHYMAX, S.UNIT, S.UNITEXP)] + [(L, S.DIDX), (L, S.SIDX)]:
        for a, b in near_pairs((k, t) in S.SIGNED):
            st = list(head)
            for n, v in enumerate((a, a, b, a, b, b)):
                u = it(L, S.USAGE, 0x30 + n)
                st += [u, it(k, t, v)] if n & 1 else [it(k, t, v), u]
                st.append([0, 8, 1, 2])
            yield st + [[0, 12, 0, 0]]
            st = head + [it(k, t, a), [1, 10, 0, 0], it(k, t, b), [2, 0, 1, 0x30], [0, 8, 1, 2], [1, 11, 0, 0], it(k, t, b),
                         [2, 0, 1, 0x31], [0, 8, 1, 2], it(k, t, a), [2, 0, 1, 0x32], [0, 8, 1, 2], [0, 12, 0, 0]]
            if k == G:
                yield st
    # report sizes and counts, directions, flags and report ids
    for t, vs in ((S.RSIZE, (1, 8, 0x100, 0x101, 0x108, 0x10000, 0x10001)), (S.RCOUNT, (1, 2, 0x100, 0x101, 0x102)),
                  (S.RID, (1, 2, 0x7f, 0x80, 0x81, 0xff))):
        for a in vs:
            for b in vs:
                st = head + ([[1, 8, 1, 9]] if t == S.RID else [])
                for n, v in enumerate((a, b, a, b, b)):
                    st = st + [it(G, t, v), it(L, S.USAGE, 0x30 + n), [0, 8, 1, 2]]
                yield st + [[0, 12, 0, 0]]
    for a in (0, 2, 6, 0x42, 0x102, 0x106, 0x82, 3, 1):
        for b in (0, 2, 6, 0x42, 0x102, 0x106, 0x82, 3, 1):
            st = list(head)
            for n, (way, v) in enumerate(((8, a), (8, b), (9, b), (9, a), (11, a), (8, a), (8, a), (8, b))):
                st = st + [it(L, S.USAGE, 0x30 + n), it(M, way, v)]
            yield st + [[0, 12, 0, 0]]


def selector_streams():
    """Collections of named array usages (and others) around arrays, alone, with company, nested in each other,
    across report IDs, with ranges given maximum first."""
    import itertools
    it = lambda k, t, v: [k, t, S.min_size(k, t, v) if (k, t) not in S.NODATA else 0, v]
    u = lambda v: it(2, S.USAGE, v)
    inp = lambda v=0, way=S.INPUT: it(0, way, v)
    end = it(0, S.END, 0)
    one, two = it(1, S.RCOUNT, 1), it(1, S.RCOUNT, 2)
    body = {
        "list": [u(4), u(6), inp()],
        "range": [it(2, S.UMIN, 4), it(2, S.UMAX, 5), inp()],
        "back": [it(2, S.UMAX, 5), it(2, S.UMIN, 4), inp()],
        "far": [it(2, S.USAGE, 0x90001), it(2, S.USAGE, 0x200316), inp()],
        "var": [u(0x30), inp(2)],
        "vback": [two, it(2, S.UMAX, 0x31), it(2, S.UMIN, 0x30), inp(2), one],
        "pad": [inp(3)],
        "plain": [u(0x30), inp()],
        "bare": [inp()],
        "picks": [two, u(4), u(6), inp(), one],
        "out": [u(4), u(6), inp(way=S.OUTPUT)],
        "id": [it(1, S.RID, 3), u(4), u(6), inp()],
        "flags": [u(4), u(6), inp(0x40)],
        "empty": [],
    }
    nary = (0x0001004c, 0x000c0002, 0x00200316, 0x000b0006)
    other = (0x00010002, None)

    def coll(kind, usage, *parts):
        return ([it(2, S.USAGE, usage)] if usage else []) + [it(0, S.COLLECTION, kind)] + [x for p in parts for x in p] + [end]
    def whole(*parts):
        return [it(1, 0, 1), u(2), it(0, S.COLLECTION, 1), it(1, S.RID, 2), it(1, S.LOGMIN, 1), it(1, S.LOGMAX, 2), it(1, S.RSIZE, 8),
                one] + [x for p in parts for x in p] + [end]
    for kind in (0, 1, 2, 3, 4, 5, 0x80):
        for us in nary[:2] + other:
            for n, b in body.items():
                yield whole(coll(kind, us, b))
                yield whole(body["var"], coll(kind, us, b), body["range"])
                yield whole(coll(kind, us, b), coll(kind, us, b))
            for a, b in itertools.permutations(body, 2):
                yield whole(coll(kind, us, body[a], body[b]))
    for k1, k2 in itertools.product((0, 2, 4), repeat=2):
        for u1, u2 in itertools.product((nary[0], nary[2], nary[3], 0x00010002, None), repeat=2):
            for n in ("list", "range", "back", "var", "picks", "id", "flags", "empty"):
                yield whole(coll(k1, u1, coll(k2, u2, body[n])))
                yield whole(coll(k1, u1, body["list"], coll(k2, u2, body[n])))
                yield whole(coll(k1, u1, coll(k2, u2, body[n]), body["list"]))
                yield whole(coll(k1, u1, coll(k2, u2, body[n]), coll(2, nary[1], body["range"])))
    for d in range(2, 7):
        st = body["list"]
        for i in range(d):
            st = coll(2, nary[i % 4], st)
            yield whole(st)


def nested_push(depth, back=None, mid=0):
    """depth nested Push, all globals changed at each level, a field at every level on the way in
    and after every Pop on the way out (back: after which pops; mid: extra pushes without data)."""
    G, L, M = S.GLOBAL, S.LOCAL, S.MAIN
    out = []

    def e(k, t, v):
        out.append([k, t, 0 if (k, t) in S.NODATA else S.min_size(k, t, v), v])

    def field(u):
        e(L, S.USAGE, u)
        e(M, S.INPUT, S.VARIABLE)

    def level(i):
        for t, v in ((S.USAGE_PAGE, PAGES[i % len(PAGES)]), (S.LOGMIN, -i), (S.LOGMAX, 10 + i), (S.PHYMIN, -2 * i),
                     (S.PHYMAX, 20 + 3 * i), (S.UNIT, 0x11 + 0x1000 * (i % 5)), (S.UNITEXP, i % 16 - 8),
                     (S.RSIZE, 8 * (i % 4) + 8), (S.RCOUNT, 1 + i % 2)):
            e(G, t, v)
    e(G, S.USAGE_PAGE, 1)
    e(L, S.USAGE, 2)
    e(M, S.COLLECTION, 1)
    level(0)
    field(0x30)
    for i in range(1, depth + 1):
        e(G, S.PUSH, 0)
        level(i)
        if not mid or i % mid:
            field(0x30 + i)
    for i in range(depth):
        e(G, S.POP, 0)
        if back is None or i % back == back - 1:
            field(0x80 + i)
    field(0x200)
    e(M, S.END, 0)
    return out


def descriptor(rng, language=False, **k):
    n = rng.choice((6, 10, 20, 20, 40, 40, 80))
    return DescGen(rng, n, language, **k).build()


# ------------------------------------------------------------------ text noise

COMMENT_BITS = ["", "x", "0x05", "Usage (X)", "//", "*", "/", "/*", "a, b", "'\"", "\t", "0xzz,",
                "é", "EndCollection", "#if 0", "\\", "{", "**", "..."]


def noisy_code(rng, data):
    """Render bytes as a code listing in a human style."""
    out = []
    fmt = rng.choice(("0x%02x", "0x%02X", "0X%02X", "0x%x", "%02x", "%x", "%X", "0X%x"))
    perline = rng.choice((1, 3, 8, 16))
    nl = rng.choice(("\n", "\r\n", "\n\n", " \n\t"))
    density = rng.choice((0, 0.1, 0.5))

    def block():
        s = " ".join(rng.choice(COMMENT_BITS) for _ in range(rng.randrange(0, 4)))
        s = s.replace("*/", "")
        if rng.random() < 0.2:
            s = s + "\n" + s
        if rng.random() < 0.02:
            s = (s + ("0x0%d, " % len(s)) + "\n") * rng.choice((10, 100, 1000))
        while "*/" in s or s.endswith("*") and rng.random() < 0:
            s = s.replace("*/", "")
        return "/*" + s + " */"

    def line():
        s = " ".join(rng.choice(COMMENT_BITS) for _ in range(rng.randrange(0, 4)))
        if rng.random() < 0.02:
            s = (s + "0x11, ") * rng.choice((10, 100, 1000))
        return "//" + s.replace("\n", " ")

    if rng.random() < 0.3:
        out.append(line() + "\n")
    for i, b in enumerate(data):
        if rng.random() < density / 2:
            out.append(block())
        out.append(rng.choice(("", "", " ", "     ")) + fmt % b)
        if i + 1 < len(data) or rng.random() < 0.5:
            out.append(rng.choice(("", "", " ")) + ",")
        if rng.random() < density:
            out.append(rng.choice(("", " ")) + (block() if rng.random() < 0.5 else line() + "\n"))
        if (i + 1) % perline == 0:
            out.append(nl)
        else:
            out.append(" ")
    if rng.random() < 0.3:
        out.append(block())
    return "".join(out)


def noisy_hex(rng, data):
    fmt = rng.choice(("%02x", "%02X", "0x%02x", "0x%02X", "0X%02X"))
    sep = rng.choice((" ", "  ", ", ", ",", "\n", "\t", " \r\n", ";"))
    every = rng.choice((4, 16, 23, 1000))
    out = [rng.choice(("", " ", "\n", "\t\n"))]
    for i, b in enumerate(data):
        out.append(fmt % b)
        out.append("\n" if (i + 1) % every == 0 else sep)
    return "".join(out)


# ------------------------------------------------------------------ enumerated small descriptors

def _fragments():
    G, L, M = S.GLOBAL, S.LOCAL, S.MAIN

    def it(k, t, v):
        return [k, t, S.min_size(k, t, v) if (k, t) not in S.NODATA else 0, v]

    def inp(v=S.VARIABLE, way=S.INPUT):
        return it(M, way, v)
    u = lambda v: it(L, S.USAGE, v)
    cnt = lambda n: it(G, S.RCOUNT, n)
    return {
        "x": [u(0x30), inp()],
        "y": [u(0x31), inp()],
        "z": [u(0x35), inp()],
        "one": [cnt(1), u(0x32), inp()],
        "three": [cnt(3), u(0x30), u(0x31), u(0x32), inp(), cnt(1)],
        "rng": [cnt(3), it(L, S.UMIN, 0x30), it(L, S.UMAX, 0x32), inp(), cnt(1)],
        "pad": [it(G, S.RSIZE, 3), inp(3), it(G, S.RSIZE, 8)],
        "pad8": [inp(S.CONSTANT)],
        "none": [inp()],
        "log": [it(G, S.LOGMIN, -7), it(G, S.LOGMAX, 7), u(0x36), inp()],
        "logback": [it(G, S.LOGMIN, 0), it(G, S.LOGMAX, 1), u(0x37), inp()],
        "physame": [it(G, S.PHYMIN, 0), it(G, S.PHYMAX, 1), u(0x38), inp()],
        "phy": [it(G, S.PHYMIN, -10), it(G, S.PHYMAX, 10), u(0x33), inp()],
        "phyzero": [it(G, S.PHYMIN, 0), it(G, S.PHYMAX, 0), u(0x33), inp()],
        "unit": [it(G, S.UNIT, 0x11), it(G, S.UNITEXP, -2), u(0x34), inp()],
        "unitoff": [it(G, S.UNIT, 0), it(G, S.UNITEXP, 0), u(0x34), inp()],
        "push": [it(G, S.PUSH, 0), it(G, S.USAGE_PAGE, 9), it(G, S.LOGMAX, 5), u(1), inp(), it(G, S.POP, 0)],
        "pushopen": [it(G, S.PUSH, 0), it(G, S.RSIZE, 4), it(G, S.PHYMAX, 3), u(0x39), inp()],
        "des": [it(L, S.DIDX, 2), u(0x3a), inp()],
        "des0": [it(L, S.DIDX, 0), u(0x3b), inp()],
        "des3": [cnt(3), u(1), it(L, S.DIDX, 1), it(L, S.DIDX, 2), it(L, S.DIDX, 3), inp(), cnt(1)],
        "str": [it(L, S.SIDX, 4), u(0x3c), inp()],
        "str3": [cnt(3), it(L, S.SIDX, 5), it(L, S.SIDX, 6), it(L, S.SIDX, 7), u(2), inp(), cnt(1)],
        "coll": [u(1), it(M, S.COLLECTION, 2), u(0x30), inp(), it(M, S.END, 0)],
        "collempty": [u(1), it(M, S.COLLECTION, 0), it(M, S.END, 0)],
        "arr": [it(L, S.UMIN, 1), it(L, S.UMAX, 2), inp(0)],
        "arrl": [u(4), u(5), inp(0)],
        "full": [it(L, S.USAGE, 0x000c00e9), inp()],
        "full2": [cnt(2), it(L, S.USAGE, 0x000c00e9), it(L, S.USAGE, 0x00010030), inp(), cnt(1)],
        "page": [it(G, S.USAGE_PAGE, 0xc), u(0xe9), inp(), it(G, S.USAGE_PAGE, 1)],
        "id": [it(G, S.RID, 2), u(0x30), inp()],
        "out": [u(0x31), inp(way=S.OUTPUT)],
        "feat": [u(0x31), inp(way=S.FEATURE)],
        "rel": [u(0x32), inp(6)],
        "buf": [cnt(4), u(0x33), inp(S.VARIABLE | S.BUFFERED), cnt(1)],
        "two": [cnt(2), inp(), cnt(1)],
        "popmid": [cnt(2), it(G, S.PUSH, 0), it(G, S.USAGE_PAGE, 9), u(0x30), it(G, S.POP, 0), u(0x31), inp(), cnt(1)],
        "pushmid": [cnt(2), u(0x30), it(G, S.PUSH, 0), it(G, S.USAGE_PAGE, 9), u(0x31), inp(), it(G, S.POP, 0), cnt(1)],
        "pagemid": [cnt(3), u(0x30), it(G, S.USAGE_PAGE, 9), u(0x31), it(G, S.USAGE_PAGE, 1), u(0x32), inp(), cnt(1)],
        "des0r": [cnt(3), u(1), it(L, S.DIDX, 0), it(L, S.DMIN, 1), it(L, S.DMAX, 2), inp(), cnt(1)],
        "desr0": [cnt(3), u(1), it(L, S.DMIN, 1), it(L, S.DMAX, 2), it(L, S.DIDX, 0), inp(), cnt(1)],
        "str2": [cnt(3), it(L, S.SIDX, 5), it(L, S.SIDX, 6), u(2), inp(), cnt(1)],
        "des2": [cnt(4), it(L, S.DIDX, 5), it(L, S.DIDX, 6), u(2), inp(), cnt(1)],
        "delim": [it(L, S.DELIM, 1), u(0x30), u(0x31), it(L, S.DELIM, 0), inp()],
    }


FRAGMENTS = _fragments()


def from_fragments(fragment_names):
    """Application collection holding the named fragments."""
    st = [[1, 0, 1, 1], [2, 0, 1, 2], [0, 10, 1, 1], [1, 1, 1, 0], [1, 2, 1, 1], [1, 7, 1, 8], [1, 9, 1, 1]]
    pushes = 0
    for n in fragment_names:
        st = st + FRAGMENTS[n]
        pushes += n == "pushopen"
    return st + [[1, S.POP, 0, 0]] * pushes + [[0, 12, 0, 0]]


def fragment_words(tier, exclude=()):
    import itertools
    ns = [n for n in FRAGMENTS if n not in exclude]
    for n in ns:
        yield [n]
    for w in itertools.product(ns, repeat=2):
        yield list(w)
    core = [n for n in ns if n in ("x", "y", "one", "three", "pad", "log", "logback", "phy", "phyzero", "physame",
                                   "push", "pushopen", "des", "coll", "full", "arr", "rel", "none", "two", "id", "popmid")]
    for w in itertools.product(ns if tier == "thorough" else core, repeat=3):
        yield list(w)


def damage(rng, b):
    """A few edits, of bytes or of whole items."""
    b = bytearray(b)
    for _ in range(rng.choice((1, 1, 1, 2, 3, 8))):
        n = len(b)
        if not n:
            b = bytearray([rng.randrange(256)])
            continue
        i = rng.randrange(n)
        j = min(n, i + rng.choice((1, 1, 2, 3, 5, 20)))
        k = rng.randrange(9)
        if k == 0:
            b[i] = rng.randrange(256)
        elif k == 1:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 2:
            del b[i:j]
        elif k == 3:
            b[i:i] = bytes(rng.randrange(256) for _ in range(j - i))
        elif k == 4:
            b[i:i] = b[i:j]
        elif k == 5:
            b = b[:i]
        else:
            its = split_items(b)
            if its:
                a = rng.randrange(len(its))
                c = its.pop(a)
                if k == 6:
                    its.insert(rng.randrange(len(its) + 1), c)
                elif k == 7:
                    its[a:a] = [c, c]
                b = bytearray(b"".join(its))
    return bytes(b)


def split_items(b):
    """The bytes cut into items, as far as that goes."""
    out, i = [], 0
    while i < len(b):
        n = 1 + (0, 1, 2, 4)[b[i] & 3]
        out.append(bytes(b[i:i + n]))
        i += n
    return out


def any_source(rng):
    r = rng.random()
    if r < 0.25:
        return bytes.fromhex(rng.choice(list(real.REAL.values())))
    if r < 0.6:
        return to_bytes(descriptor(rng, language=rng.random() < 0.5))
    if r < 0.8:
        return to_bytes(raw_stream(rng, rng.choice((1, 3, 10, 40))))
    return to_bytes(balanced_raw_stream(rng, rng.choice((3, 10, 40))))


def valid_damaged(rng, tries=40, strict=False):
    """A descriptor that edits left valid: shapes no generator was written for. Short usages come after a Usage Page,
    and items without data have none."""
    for _ in range(tries):
        b = any_source(rng)
        if rng.random() < 0.9:
            b = damage(rng, b)
        try:
            items = S.decode(b)
            if 3 < len(S.meaning(items)) < 5000 and plain(items) and (not strict or conforming(items)):
                return [[i.kind, i.tag, i.size, i.value] for i in items]
        except (S.Invalid, S.Malformed):
            pass
    return descriptor(rng, language=strict)


def plain(items):
    page, stack = False, []
    for i in items:
        if (i.kind, i.tag) in S.NODATA and i.value:
            return False
        if (i.kind, i.tag) == (1, 0):
            page = True
        elif (i.kind, i.tag) == (1, 10):
            stack.append(page)
        elif (i.kind, i.tag) == (1, 11):
            page = stack.pop()
        elif i.kind == 2 and i.tag < 3 and not i.value >> 16 and not page:
            return False
    return True


def conforming(items):
    """Usage pages of 16 bits, report IDs of 8, all fields in reports or none, ordered ranges, reports of a sane length;
    arrays have at most one designator and string."""
    g, stack, ids, d, lo, total = {}, [], set(), {3: 0, 7: 0}, {}, 0
    for i in items:
        k = (i.kind, i.tag)
        if k == (1, S.PUSH):
            stack.append(dict(g))
        elif k == (1, S.POP):
            g = stack.pop()
        elif i.kind == 1:
            g[i.tag] = i.value
            if i.tag == S.USAGE_PAGE and i.value > 0xffff or i.tag == S.RID and not 0 < i.value < 256:
                return False
        elif i.kind == 2:
            if i.tag in (3, 4, 5):
                d[3] += 1
            elif i.tag in (7, 8, 9):
                d[7] += 1
            lo[i.tag] = i.value & 0xffff if i.tag < 3 else i.value
            for a, b in ((S.UMIN, S.UMAX), (S.DMIN, S.DMAX), (S.SMIN, S.SMAX)):
                if a in lo and b in lo and lo.pop(a) > lo.pop(b):
                    return False
        else:
            if i.tag in S.DATA_TAGS:
                ids.add(g.get(S.RID, 0))
                total += g.get(S.RSIZE, 0) * g.get(S.RCOUNT, 0)
                if not i.value & S.VARIABLE and max(d.values()) > 1 or g.get(S.LOGMIN, 0) > g.get(S.LOGMAX, 0):
                    return False
            d, lo = {3: 0, 7: 0}, {}
    return total < 1 << 24 and (len(ids) < 2 or 0 not in ids)
