"""Units of work whose result must depend on their input only.

A job is JSON; process(job) returns a string.  Errors are part of the result.
"""
import io
import os
import pickle
import random
import struct
import sys

from . import gen, spec as S, trees

OPS_BYTES = ("parse", "list", "optimize", "optlist", "decompile", "hexout")
OPS_TREE = ("compile", "plain", "listing", "dump")


def make(rng, broken=True):
    r = rng.random()
    if r < 0.12 and broken:
        data = gen.to_bytes(gen.descriptor(rng))
        b = bytearray(data)
        k = rng.randrange(4)
        if k == 0:
            b = b[:rng.randrange(len(b))]
        elif k == 1:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif k == 2:
            b = bytearray(b"\xb4") + b
        else:
            b = b + bytearray(b"\xa4\x05\x09\xa1\x01")
        return {"op": rng.choice(OPS_BYTES), "data": bytes(b).hex()}
    if r < 0.5:
        return {"op": rng.choice(OPS_BYTES), "data": gen.to_bytes(gen.descriptor(rng, language=rng.random() < 0.5)).hex()}
    return {"op": rng.choice(OPS_TREE), "tree": trees.tree(rng), "notation": rng.getrandbits(16)}


class Hook:
    """Called at every step of a job when set (re-entrant work, thread switches)."""
    def __init__(self, fn=None):
        self.fn = fn

    def __call__(self):
        if self.fn is not None:
            self.fn()


def process(job, step=None, obj=None):
    from . import sut
    step = step or Hook()

    class Step(sut._stream.Stream):
        def __init__(self, to):
            self.to = to

        def append(self, i):
            step()
            self.to.append(i)

        def close(self):
            step()
            self.to.close()

    class Out(io.StringIO):
        def write(self, s):
            step()
            return io.StringIO.write(self, s)

    op = job["op"]
    try:
        if "data" in job:
            data = bytes.fromhex(job["data"])
            src = io.BytesIO(data)
            if op == "decompile":
                from hrdc.descriptor.extractor import Extractor
                e = Extractor()
                old = sys.stdout
                sut.Parser.get("binary")(src, Step(e)).read()
                out = Out()
                e.root.accept(sut._dumper.Dumper(out))
                return out.getvalue()
            if op in ("parse", "hexout", "list"):
                t = sut.Tap()
                sut.Parser.get("binary")(src, Step(t)).read()
                if op == "parse":
                    return "\n".join("%s %r" % (i, tuple(map(int, (i.kind, i.tag, i.value)))) for i in t.items)
                return sut.render("hex" if op == "hexout" else "code", t.items)
            t = sut.Tap()
            sut.Parser.get("binary")(src, sut.Optimizer.new(Step(t))).read()
            return t.bytes().hex() if op == "optimize" else sut.render("code", t.items)
        if obj is None:
            obj = trees.build(job["tree"], random.Random(job["notation"]))
        if op == "dump":
            out = Out()
            obj.accept(sut._dumper.Dumper(out))
            return out.getvalue()
        t = sut.Tap()
        o = Step(t)
        if op != "plain":
            o = sut.Optimizer.new(o)
        obj.accept(sut.streamer.Streamer(o))
        o.close()
        return sut.render("code", t.items) if op == "listing" else t.bytes().hex()
    except Exception as e:
        return "raises %s" % type(e).__name__


def quiet(fn, *a):
    """The decompiler prints on standard output before it raises."""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*a)
    finally:
        sys.stdout = old


class Zygote:
    """A process that has imported the library and done nothing else; every request is served by a
    fresh fork of it, so that results come from a pristine state."""
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def get(fd):
        h = b""
        while len(h) < 4:
            c = os.read(fd, 4 - len(h))
            if not c:
                return None
            h += c
        n, = struct.unpack("<I", h)
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                return None
            b += c
        return pickle.loads(b)

    @staticmethod
    def put(fd, o):
        b = pickle.dumps(o)
        b = struct.pack("<I", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, r, w):
        import warnings
        warnings.simplefilter("ignore")
        while True:
            job = self.get(r)
            if job is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_CPU, (40, 45))
                    self.put(w, quiet(process, job))
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                self.put(w, "died %d" % st)

    def __call__(self, job):
        self.put(self.w, job)
        return self.get(self.r)


if __name__ == "__main__":
    import hashlib
    import json
    sys.path.insert(0, "/repo" if len(sys.argv) < 2 else sys.argv[1])
    import warnings
    warnings.simplefilter("ignore")
    for j in json.load(sys.stdin):
        print(hashlib.sha256(quiet(process, j).encode()).hexdigest())
