"""Monitor: arbitrary input to every tool - a complete and well-formed answer, or a refusal."""
import io
import random
import re
import sys

from .. import gen, spec as S, sut, text, proc
from ..core import Violation
from ..real import REAL
from ..util import hexs, shrink_list

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("random bytes, and real and random descriptors and listings with bytes, items and tokens changed, removed, "
        "repeated, moved or spliced, given to conversion (with and without optimization) into each format and to "
        "decompilation, in the library and as processes; non-trivial: a distinct input")
ASSUMPTIONS = ["decompiled inputs describe at most 3000 elements and usages in ranges (it lists them one by one)"]
BUDGET = {"quick": 14000, "thorough": 200000}
FLOORS = {"accepted": 20000, "refused": 5000, "processes": 60, "scripts": 1000, "compiled": 1000, "well-formed": 3000, "malformed": 2000}
COVER = ["stream/parser", "stream/optimizer", "stream/item.py", "descriptor/extractor.py", "converter.py"]
FMT = ("binary", "hex", "code")


# ------------------------------------------------------------------------ workload

def scribble(rng, t):
    for _ in range(rng.choice((1, 1, 2, 4))):
        i = rng.randrange(len(t) + 1)
        j = min(len(t), i + rng.choice((0, 1, 2, 4, 10)))
        t = t[:i] + rng.choice(("", ",", " ", "\n", "0x", "/*", "*/", "//", "g", "100", "0x1ff", ";", "{", "\"", "-", "é", "0",
                                "\0", "\\", "0x05 ", "0x05,", "//\n", t[i:j] * 2)) + t[j:]
    return t


def generate(rng, i, tier):
    data = gen.any_source(rng)
    r = rng.random()
    if r < 0.1:
        data = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 5, 17, 100))))
    elif r < 0.75:
        data = gen.damage(rng, data)
    if rng.random() < 0.1:
        other = gen.any_source(rng)
        data = data[:rng.randrange(len(data) + 1)] + other[rng.randrange(len(other) + 1):]
    case = {"data": data.hex(), "fmt": "binary"}
    r = rng.random()
    if r < 0.25:
        t = gen.noisy_code(rng, data)
        case = {"text": scribble(rng, t) if rng.random() < 0.7 else t, "fmt": "code"}
    elif r < 0.35:
        t = gen.noisy_hex(rng, data)
        case = {"text": scribble(rng, t) if rng.random() < 0.4 else t, "fmt": "hex"}
    case["process"] = i % 120 == 0
    return case


def fixed(tier):
    for h in range(256):
        for tail in ("", "00", "ff", "0000", "ff7f", "00000000", "ffffffff", "0000000000"):
            yield {"data": "%02x" % h + tail, "fmt": "binary"}
    for n, h in enumerate(REAL.values()):
        b = bytes.fromhex(h)
        for i in range(len(b)):
            yield {"data": b[:i].hex(), "fmt": "binary", "process": i % 40 == n}
            yield {"data": (b[:i] + b[i + 1:]).hex(), "fmt": "binary"}
            yield {"data": (b[:i] + b"\xc0" + b[i:]).hex(), "fmt": "binary"}
            yield {"data": (b[:i] + b"\xb4" + b[i:]).hex(), "fmt": "binary"}
    for f in FMT:
        yield {"data": "", "fmt": "binary"} if f == "binary" else {"text": "", "fmt": f}
    for t in ("\n", "//", "/**/", ",", ",,,", "/*", "*/", "/", "0x", "x", "0", "00", "0x0", ",0x05,0x01", "0x05,,0x01", "//\n0x05,0x01",
              "0x05,0x01//", "0x05,0x01/**/", "/*0x05*/0x05,/*,*/0x01", "0x05;0x01", "{0x05,0x01}", "0x5,1", "256,1", "0x05,0x101"):
        for p in (False, True):
            yield {"text": t, "fmt": "code", "process": p}
    for n in (2, 50, 129, 300):
        # nested or unbalanced beyond any use
        for b in ("c0", "a4", "b4", "a100", "a100c0", "a4b4", "c0a100", "8502", "0902", "8102", "1901", "2902", "a901", "a900"):
            yield {"data": b * n, "fmt": "binary", "process": n == 129}
    for v in ("00", "feffffff"):
        # ends of the value ranges in every kind of item
        for (k, t) in S.KINDS:
            if (k, t) not in S.NODATA:
                yield {"data": "05010902a101%02x%sc0" % (t << 4 | k << 2 | (1 if v == "00" else 3), v), "fmt": "binary"}


# ------------------------------------------------------------------------ oracle

TOKEN = re.compile(r"(?:0[xX])?([0-9a-fA-F]+)\Z")


def listed(t):
    """The bytes of a code listing, or None."""
    t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
    out = []
    for x in t.split(","):
        x = x.strip()
        if x:
            m = TOKEN.match(x)
            if not m or int(m.group(1), 16) > 255:
                return None
            out.append(int(m.group(1), 16))
    return bytes(out)


def denoted(case):
    """(items, known?, items before a defect): the items of the input, None when it is malformed."""
    f = case["fmt"]
    if f == "binary":
        b = bytes.fromhex(case["data"])
    elif f == "code":
        b = listed(case["text"])
    else:
        try:
            b = text.hex_bytes(case["text"])
        except ValueError:
            return None, False, []
        if not all(len(x) == 2 for x in case["text"].split()):
            return None, False, []
    if b is None:
        return None, True, []
    try:
        items, bad = S.decode(b), False
    except S.Malformed as e:
        items, bad = e.before, True
    items = [(i.kind, i.tag, i.value) for i in items]
    if bad or any(v and (k, t) in S.NODATA for k, t, v in items):
        return None, True, items
    return items, True, items


PAIRS = {S.UMIN: (S.UMIN, S.UMAX), S.UMAX: (S.UMIN, S.UMAX), S.DMIN: (S.DMIN, S.DMAX), S.DMAX: (S.DMIN, S.DMAX),
         S.SMIN: (S.SMIN, S.SMAX), S.SMAX: (S.SMIN, S.SMAX)}


def elements(items):
    """How many elements and usages the decompiler lists one by one."""
    page = count = total = 0
    stack, pend = [], {}
    for k, t, v in items:
        if k == S.GLOBAL:
            if t == S.PUSH:
                stack.append((page, count))
            elif t == S.POP:
                page, count = stack.pop() if stack else (page, count)
            elif t == S.USAGE_PAGE:
                page = v
            elif t == S.RCOUNT:
                count = v
        elif k == S.LOCAL and t in PAIRS:
            pend[t] = v if v >> 16 or t not in (S.UMIN, S.UMAX) else page << 16 | v
            lo, hi = PAIRS[t]
            if lo in pend and hi in pend:
                total += max(0, pend.pop(hi) - pend.pop(lo))
        elif k == S.MAIN:
            pend = {}
            if t not in (S.COLLECTION, S.END):
                total += count
    return total


def attempt(fn, mon):
    """(result, None) or (None, error)"""
    old, sys.stdout = sys.stdout, io.StringIO()
    mon.insut += 1
    try:
        r = fn(), None
    except MemoryError:
        raise Violation("memory exhausted instead of an answer") from None
    except (Exception, SystemExit) as e:
        r = None, e
    finally:
        sys.stdout = old
    mon.insut -= 1          # not when it hangs
    return r


def run(case, mon):
    f = case["fmt"]
    contents = bytes.fromhex(case["data"]) if f == "binary" else case["text"]
    items, known, first = denoted(case)
    small = known and elements(first) <= 3000
    if known:
        mon.count("well-formed" if items is not None else "malformed")
    mon.nontrivial((f, contents))

    def convert(out, opt):
        o = io.BytesIO() if out == "binary" else io.StringIO()
        s = sut.Formatter.get(out)(o)
        if opt:
            s = sut.Optimizer.new(s)
        src = io.BytesIO(contents) if f == "binary" else io.StringIO(contents)
        sut.Parser.get(f)(src, s).read()
        return o.getvalue()

    plain = {}
    for out in FMT:
        for opt in (False, True):
            what = "conversion from %s to %s%s" % (f, out, " with -O" if opt else "")
            r, e = attempt(lambda: convert(out, opt), mon)
            answer(what, r, e, items, known, mon)
            if e is not None:
                if not opt and items is not None and known:
                    raise Violation("%s refuses well-formed items: %s: %s" % (what, type(e).__name__, e), input=repr(contents[:300]))
                plain[out, opt] = None
                continue
            try:
                b = text.any_bytes(out, r)
                got = [(i.kind, i.tag, i.value) for i in S.decode(b)]
            except Exception as x:
                raise Violation("%s writes something unreadable: %s" % (what, x), output=repr(r[:400]))
            if not opt and known and got != items:
                d = S.first_difference(items, got)
                raise Violation("%s: item %d is %s instead of %s" % (what, d[0], d[2], d[1]), input=repr(contents[:300]))
            plain[out, opt] = b
    for opt in (False, True):
        if len({plain[o, opt] for o in FMT}) != 1:
            raise Violation("the formats do not denote the same bytes (-O: %s)" % opt, got=repr({o: hexs(plain[o, opt] or b"")[:200]
                                                                                           for o in FMT}))
    # every result of ours is accepted in turn, with the same result
    if plain["binary", False] is not None:
        b = plain["binary", False]
        r, e = attempt(lambda: sut.parse("binary", b).bytes(), mon)
        if r != b:
            raise Violation("converting the result again gives %s" % (e or hexs(r)[:200]), first=hexs(b)[:400])
    if items is not None and small:
        r, e = attempt(lambda: sut.dump(sut.decompile(contents, f)), mon)
        answer("decompilation", r, e, items, known, mon)
        if r is not None:
            with mon.sut("running the decompiled script"):
                obj = sut.load_script(r)
            mon.count("scripts")
            # a report ID or a padding beyond its range has no notation
            big = [max([0] + [v for k, t, v in items if (k, t) == (S.GLOBAL, g)]) for g in (S.RID, S.RSIZE, S.RCOUNT)]
            if big[0] < 256 and big[1] * big[2] < 2 ** 32:
                with mon.sut("compiling the decompiled script"):
                    b = sut.compile_tree(obj).bytes()
                try:
                    S.decode(b)
                except S.Malformed as x:
                    raise Violation("the decompiled script compiles to something malformed: %s" % x, output=hexs(b)[:600])
                mon.count("compiled")
    elif small:
        r, e = attempt(lambda: sut.decompile(contents, f), mon)
        answer("decompilation", r, e, items, known, mon)
    if case.get("process"):
        process(case, contents, items, known, small, plain, mon)
    mon.sample({"input": repr(contents[:60]), "format": f, "accepted": plain["binary", False] is not None})


def answer(what, r, e, items, known, mon):
    if e is None:
        if known and items is None:
            raise Violation("%s accepts malformed input" % what)
        mon.count("accepted")
    else:
        mon.count("refused")


def process(case, contents, items, known, small, plain, mon):
    f = case["fmt"]
    inp = contents if f == "binary" else contents.encode()
    with proc.Scratch() as sc:
        for out, opt in (("binary", False), ("hex", True), ("code", False)):
            rc, o, err = proc.run(proc.CONVERTER + ["-i", f, "-o", out] + (["-O"] if opt else []), inp, cwd=sc.dir)
            mon.count("processes")
            want = plain[out, opt]
            if (rc == 0) != (want is not None):
                raise Violation("the converter exits with %d, the library %s" % (rc, "accepts" if want is not None else "refuses"),
                                stderr=err.decode(errors="replace")[-500:])
            if rc == 0 and text.any_bytes(out, o) != want:
                raise Violation("the converter and the library disagree", command=repr(o[:300]), library=hexs(want)[:300])
            if rc and not err:
                raise Violation("the converter fails without a message")
        if small:
            rc, o, err = proc.run(proc.EXTRACTOR + ["-i", f], inp, cwd=sc.dir)
            mon.count("processes")
            if rc == 0 and known and items is None:
                raise Violation("the decompiler accepts malformed input", output=o.decode(errors="replace")[:300])
            if rc == 0:
                with mon.sut("loading the script"):
                    sut.load_script(o.decode())
            elif not err:
                raise Violation("the decompiler fails without a message")
        if sc.snapshot():
            raise Violation("a command left %s behind" % sorted(sc.snapshot()))


def shrink(case):
    k = "data" if "data" in case else "text"
    if k == "data":
        b = bytes.fromhex(case["data"])
        for x in shrink_list(list(b)):
            yield dict(case, data=bytes(x).hex())
    else:
        for x in shrink_list(case["text"]):
            yield dict(case, text="".join(x))
