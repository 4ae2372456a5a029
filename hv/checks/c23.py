"""Monitor with fault injection: output objects and processes whose writes fail at a chosen point."""
import errno
import fcntl
import io
import os
import random
import resource
import subprocess
import sys
import threading

from .. import gen, spec as S, sut, trees, proc, real
from ..core import Violation
from ..treecheck import val, app

PROPERTY = "C23"
LEVEL = "fault_enumeration"
RULE = ("library: every write of a pipeline fails in turn (all formats, optimized or not, dumper, decompiler); commands: "
        "the output file limited to each byte length below its size (RLIMIT_FSIZE), a full device, a closed, broken (standard output or named) or "
        "non-blocking full pipe, missing directories, missing or defective input, each against the fault-free result; non-trivial: a "
        "distinct (command, fault, point) where the fault occurred")
ASSUMPTIONS = ["a failing write raises OSError or ends in a signal, as the operating system reports it"]
BUDGET = {"quick": 500, "thorough": 8000}
FLOORS = {"write_faults": 4000, "process_faults": 150, "complete_outputs": 20}
COVER = ["stream/formatter/"]

SCRIPT = """from hrdc.usage import *
from hrdc.descriptor import *
descriptor = Collection(Collection.Application, desktop.Mouse,
    Value(Value.Input, desktop.X, 8, logicalMin = -127, logicalMax = 127),
    Value(Value.Input, desktop.Y, 8, logicalMin = -127, logicalMax = 127),
    %s
)
if __name__ == "__main__":
    compile_main(descriptor)
"""
MANY = "*[Value(Value.Input, desktop.X, 1 + i %% 31, logicalMin = -i, logicalMax = i + 1) for i in range(%d)]"


class Fault(OSError):
    pass


KINDS = [Fault, BrokenPipeError, MemoryError, ValueError, RuntimeError, EOFError, TimeoutError, InterruptedError,
         BlockingIOError, PermissionError, KeyboardInterrupt] + [
    type("E%d" % no, (OSError,), {"__init__": lambda self, m, no=no: (OSError.__init__(self, no, m), setattr(self, "errno", no))[0]})
    for no in (errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EINVAL, errno.EBADF, errno.EAGAIN, errno.ENXIO)] + [
    type("Encode", (UnicodeEncodeError,), {"__init__": lambda self, m: UnicodeEncodeError.__init__(self, "ascii", m, 0, 1, m)}),
    io.UnsupportedOperation]


def fixed(tier):
    configs = [("converter", "binary"), ("converter", "hex"), ("converter", "code"), ("converter-O", "binary"),
               ("converter-O", "code"), ("extractor", None), ("script", "binary"), ("script", "hex"), ("script", "code"),
               ("script-N", "binary")]
    for cmd, fmt in configs:
        for size in ("small", "big"):
            yield {"kind": "none", "cmd": cmd, "fmt": fmt, "size": size}
            for f in ("full", "nodir", "isdir", "closed", "broken", "named", "nonblock"):
                yield {"kind": f, "cmd": cmd, "fmt": fmt, "size": size}
            yield {"kind": "limit", "cmd": cmd, "fmt": fmt, "size": size, "points": "all" if tier == "thorough" else 12}
        for inp in ("missing", "dir", "truncated", "garbage", "unreadable_text", "eio"):
            yield {"kind": "input", "cmd": cmd, "fmt": fmt, "inp": inp}
    for fmt in ("binary", "hex", "code"):
        for hi in (0, 100):
            for words in (["x"], ["x", "phy", "coll", "arr"], ["push", "des", "three", "unit", "full2"]):
                yield {"kind": "write", "pipe": "stream", "fmt": fmt, "hi": hi, "words": words}
    yield {"kind": "write", "pipe": "decompile", "words": ["x", "phy", "coll", "arr", "des"]}


def generate(rng, i, tier):
    if rng.random() < 0.4:
        return {"kind": "write", "pipe": rng.choice(("compile", "dump")), "tree": trees.tree(rng),
                "fmt": rng.choice(("binary", "hex", "code")), "hi": rng.choice((0, 100))}
    return {"kind": "write", "pipe": rng.choice(("stream", "stream", "decompile")), "hi": rng.choice((0, 100)),
            "fmt": rng.choice(("binary", "hex", "code")), "stream": gen.descriptor(rng, language=True)}


class Out:
    """Output object; write number `at` fails, or writing past byte `at` fails."""
    def __init__(self, at=None, byte=None, exc=Fault, once=False):
        self.once = once
        self.at, self.byte, self.exc, self.n, self.got, self.len, self.failed = at, byte, exc, 0, [], 0, 0

    def write(self, s):
        if self.failed and not self.once or self.n == self.at and not self.failed \
                or (self.byte is not None and self.len + len(s) > self.byte):
            self.failed += 1
            raise self.exc("no space left (injected)")
        self.n += 1
        self.len += len(s)
        self.got.append(s)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.failed and not self.once:
            raise self.exc("no space left (injected)")

    closed = False

    def close(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def writable(self):
        return True

    def readable(self):
        return False

    seekable = isatty = readable


def pipeline(case):
    """Returns f(out) running the pipeline onto an output object."""
    if case["pipe"] in ("compile", "dump"):
        obj = trees.build(case["tree"])
        if case["pipe"] == "dump":
            return lambda out: obj.accept(sut._dumper.Dumper(out))

        def comp(out):
            o = sut.Formatter.get(case["fmt"])(out)
            if case["hi"]:
                o = sut.Optimizer.new(o)
            obj.accept(sut.streamer.Streamer(o))
            o.close()
        return comp
    data = gen.to_bytes(gen.from_fragments(case["words"]) if "words" in case else case["stream"])
    if case["pipe"] == "decompile":
        return lambda out: sut.decompile(data).accept(sut._dumper.Dumper(out))

    def conv(out):
        o = sut.Formatter.get(case["fmt"])(out)
        if case["hi"]:
            o = sut.Optimizer.new(o)
        sut.Parser.get("binary")(io.BytesIO(data), o).read()
    return conv


def run(case, mon):
    if case["kind"] != "write":
        return process(case, mon)
    f = pipeline(case)
    ok = Out()
    with mon.sut("pipeline without fault"):
        f(ok)
    n = ok.n
    points = list(range(n)) if n <= 60 else sorted(random.Random(n).sample(range(n), 50)) + [0, n - 1]
    for k in points:
        for exc in (Fault, KINDS[(n + k) % len(KINDS)]):
            o = Out(at=k, exc=exc, once=(k + n) % 3 == 0)
            injected(f, o, exc, "write %d of %d" % (k, n), mon)
    # an output that gathers its writes has few write points, but as many bytes
    for b in sorted(random.Random(ok.len).sample(range(ok.len), min(6 if n > 10 else 60, ok.len))):
        exc = KINDS[(ok.len + b) % len(KINDS)] if n <= 10 and b % 2 else Fault
        injected(f, Out(byte=b, exc=exc), exc, "byte %d of %d" % (b, ok.len), mon)
    mon.nontrivial(repr(case))
    mon.sample({"pipeline": case["pipe"], "writes": n, "bytes": ok.len})


def injected(f, o, exc, where, mon):
    try:
        f(o)
    except (Exception, KeyboardInterrupt) as e:
        chain = [e]
        while chain[-1] is not None and len(chain) < 9:
            chain.append(chain[-1].__cause__ or chain[-1].__context__)
        if any(isinstance(x, exc) for x in chain):
            e = None
        else:
            e = "%s: %s" % (type(e).__name__, e)
        if e:
            raise Violation("a write error at %s reaches the caller as %s" % (where, e))
    else:
        raise Violation("a write error at %s is swallowed" % where)
    if o.failed > 1:
        mon.count("retried")
    mon.count("write_faults")
    mon.see("exceptions", exc.__name__)


def command(case, sc):
    """Arguments (without output), standard input, for a command of a case."""
    cmd, fmt, size = case["cmd"], case["fmt"], case.get("size", "small")
    if cmd.startswith("script"):
        s = SCRIPT % (MANY % (0 if size == "small" else 3000))
        return [sc.put("s.py", s.encode())] + (["-N"] if cmd.endswith("N") else []) + ["-o", fmt]
    h = bytes.fromhex(real.REAL["mouse"])
    if size == "big":
        h = h * (250 if cmd != "extractor" else 60)
    src = sc.put("in", h)
    if cmd == "extractor":
        return proc.EXTRACTOR + [src]
    return proc.CONVERTER + (["-O"] if cmd.endswith("O") else []) + ["-o", fmt, src]


def reference(sc, args):
    rc, out, err = proc.run(args + [sc.path("ref")], cwd=sc.dir)
    if rc or out:
        raise Violation("command fails without a fault: %d" % rc, args=args, stderr=err.decode(errors="replace")[-600:])
    return sc.get("ref")


def expect_failure(rc, err, what, args, mon, message=True):
    mon.count("process_faults")
    mon.see("nontrivial", repr((what, args[-4:])).encode())
    if rc == 0:
        raise Violation("exit status 0 although %s" % what, args=args)
    if message and not err and rc > 0:
        raise Violation("no error message although %s" % what, args=args)


def process(case, mon):
    k = case["kind"]
    with proc.Scratch() as sc:
        if k == "input":
            return bad_input(case, sc, mon)
        args = command(case, sc)
        ref = reference(sc, args)
        what = "%s %s" % (case["cmd"], case["fmt"])
        if not ref:
            raise Violation("no output without a fault", args=args)
        if k == "none":
            rc, out, err = proc.run(args, cwd=sc.dir)
            if rc or out != ref:
                raise Violation("standard output and file output differ (status %d)" % rc, args=args)
            complete(case, ref)
            mon.count("complete_outputs")
        elif k == "limit":
            pts = range(len(ref)) if case["points"] == "all" and len(ref) < 400 else sorted(
                {0, 1, len(ref) - 1, len(ref) // 2} | set(random.Random(len(ref)).sample(range(len(ref)), min(
                    len(ref), 8 if case["points"] != "all" else 100))))
            for p in pts:
                for dst in ("file", "stdout") if p % 2 == 0 or case["points"] == "all" else ("file",):
                    limited(sc, args, p, dst, ref, mon)
            limited(sc, args, len(ref), "file", ref, mon)
            limited(sc, args, len(ref), "stdout", ref, mon)
        elif k == "full":
            rc, out, err = proc.run(args + ["/dev/full"], cwd=sc.dir)
            expect_failure(rc, err, "the output device is full", args, mon)
            with open("/dev/full", "wb") as f:
                rc, out, err = proc.run(args, cwd=sc.dir, stdout=f)
            expect_failure(rc, err, "standard output is a full device", args, mon)
        elif k == "nodir":
            rc, out, err = proc.run(args + [sc.path("missing/dir/out")], cwd=sc.dir)
            expect_failure(rc, err, "the output directory does not exist", args, mon)
        elif k == "isdir":
            os.mkdir(sc.path("d"))
            rc, out, err = proc.run(args + [sc.path("d")], cwd=sc.dir)
            os.rmdir(sc.path("d"))
            expect_failure(rc, err, "the output is a directory", args, mon)
        elif k == "closed":
            rc, out, err = proc.run(args, cwd=sc.dir, stdout=subprocess.DEVNULL, preexec=lambda: os.close(1))
            expect_failure(rc, err, "standard output is closed", args, mon)
        elif k == "nonblock":
            r, w = os.pipe()
            os.set_blocking(w, False)
            fcntl.fcntl(w, 1031, 4096)      # F_SETPIPE_SZ
            try:
                rc, out, err = proc.run(args, cwd=sc.dir, stdout=w)
                os.set_blocking(r, False)
                got = b""
                try:
                    while True:
                        b = os.read(r, 1 << 20)
                        got += b
                        if not b:
                            break
                except BlockingIOError:
                    pass
            finally:
                os.close(w)
                os.close(r)
            if len(ref) > 8192 or rc or got != ref:
                expect_failure(rc, err, "standard output takes only %d of %d bytes" % (len(got), len(ref)), args, mon)
        elif k == "broken":
            r, w = os.pipe()
            os.close(r)
            try:
                rc, out, err = proc.run(args, cwd=sc.dir, stdout=w)
            finally:
                os.close(w)
            expect_failure(rc, err, "nobody reads standard output", args, mon, message=False)
        elif k == "named":
            # a pipe given by name, as a shell's process substitution does
            for reader in (False, True):
                r, w = os.pipe()
                if not reader:
                    os.close(r)
                got, t = [], threading.Thread(target=lambda: got.extend(iter(lambda: os.read(r, 1 << 16), b"")))
                if reader:
                    t.start()
                try:
                    rc, out, err = proc.run(args + ["/dev/fd/%d" % w], cwd=sc.dir, fds=(w,))
                finally:
                    os.close(w)
                    if reader:
                        t.join()
                        os.close(r)
                if not reader:
                    expect_failure(rc, err, "nobody reads the pipe named as output", args, mon, message=False)
                elif rc or b"".join(got) != ref:
                    raise Violation("a pipe named as output gets %d of %d bytes (status %d)" % (
                        len(b"".join(got)), len(ref), rc), args=args)
        mon.sample({"command": what, "fault": k, "size": len(ref)})


def limited(sc, args, p, dst, ref, mon):
    name = sc.path("limited")
    if os.path.exists(name):
        os.unlink(name)

    def pre():
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (p, p))
    if dst == "file":
        rc, out, err = proc.run(args + [name], cwd=sc.dir, preexec=pre)
    else:
        with open(name, "wb") as f:
            rc, out, err = proc.run(args, cwd=sc.dir, stdout=f, preexec=pre)
    got = sc.get("limited") if os.path.exists(name) else None
    if rc == 0 and got != ref:
        raise Violation("exit status 0 with %s of %d bytes written to a %s limited to %d bytes" % (
            "none" if got is None else len(got), len(ref), dst, p), args=args)
    if p >= len(ref):
        if rc != 0:
            raise Violation("fails although the whole output fits", args=args, stderr=err.decode(errors="replace")[-500:])
        mon.count("complete_outputs")
    else:
        expect_failure(rc, err, "only %d of %d bytes could be written to a %s" % (p, len(ref), dst), args, mon)


def complete(case, ref):
    """The fault-free output is the whole result."""
    from .. import text
    cmd, fmt = case["cmd"], case["fmt"]
    if cmd == "extractor":
        obj = sut.load_script(ref.decode())
        got = S.meaning_of_bytes(sut.compile_tree(obj, 0, 0).bytes(), S.LANGUAGE)
        want = S.meaning_of_bytes(bytes.fromhex(real.REAL["mouse"]) * (1 if case["size"] == "small" else 60), S.LANGUAGE)
        if got != want:
            raise Violation("script is not the complete result")
        return
    m = S.meaning_of_bytes(text.any_bytes(fmt, ref))
    if cmd.startswith("converter"):
        want = S.meaning_of_bytes(bytes.fromhex(real.REAL["mouse"]) * (1 if case["size"] == "small" else 250))
        if m != want:
            raise Violation("converted output is not the complete result")
    else:
        n = len([e for e in m if e[0] == "var"])
        if n != 2 + (0 if case["size"] == "small" else 3000):
            raise Violation("compiled output holds %d fields" % n)


def bad_input(case, sc, mon):
    cmd, fmt, inp = case["cmd"], case["fmt"], case["inp"]
    mouse = bytes.fromhex(real.REAL["mouse"])
    if cmd.startswith("script"):
        text = {"missing": None, "dir": SCRIPT % "Nonsense()", "truncated": (SCRIPT % "")[:-60] + "(",
                "garbage": SCRIPT % "Value(Value.Input, desktop.Z, 8)",
                "eio": SCRIPT % "open('/proc/self/mem').read()", "unreadable_text": SCRIPT % "Value(Value.Input, desktop.Z, 8, logicalMin = 0, logicalMax = 1 << 40)"}[inp]
        args = [sc.put("s.py", text.encode()) if text else sc.path("nothing.py"), "-o", fmt]
    else:
        base = proc.EXTRACTOR if cmd == "extractor" else proc.CONVERTER + (["-O"] if cmd.endswith("O") else []) \
            + ["-o", fmt]
        if inp == "eio":
            args = base + ["/proc/self/mem"]        # opens, and fails to read
        elif inp == "missing":
            args = base + [sc.path("nothing")]
        elif inp == "dir":
            os.mkdir(sc.path("d"))
            args = base + [sc.path("d")]
        elif inp == "truncated":
            args = base + [sc.put("in", mouse[:-3] + b"\x26\x01")]
        elif inp == "garbage":
            args = base + [sc.put("in", mouse + b"\xfe\x03\x01\x02\x03")]
        else:
            args = base + ["-i", "code", sc.put("in", b"0x05, 0x01, nope")]
    for dst in ([], [sc.path("out")]):
        rc, out, err = proc.run(args + dst, cwd=sc.dir)
        expect_failure(rc, err, "the input is %s" % inp, args, mon)
    if os.path.isdir(sc.path("d")):
        os.rmdir(sc.path("d"))


def shrink(case):
    if case.get("points"):
        return
    if "tree" in case:
        for t in trees.smaller(case["tree"]):
            yield dict(case, tree=t)
    elif "stream" in case:
        from ..util import shrink_field
        yield from shrink_field(case, "stream")
