"""Access to the code under test, through its documented entry points only."""
import io

from hrdc import stream as _stream
from hrdc.stream import item, parser, formatter, optimizer
from hrdc import descriptor as D
from hrdc.descriptor import streamer
from hrdc.descriptor import extractor as _extractor
from hrdc.descriptor import dumper as _dumper
from hrdc import usage as U
from hrdc.usage import Usage, UsageRange

from . import spec as S

Parser, Formatter, Optimizer = parser.Parser, formatter.Formatter, optimizer.Optimizer


class Tap(_stream.Stream):
    """Records every item and close event, then forwards it."""
    def __init__(self, to=None):
        self.to, self.items, self.closed, self.late = to, [], 0, 0

    def append(self, i):
        if self.closed:
            self.late += 1
        self.items.append(i)
        if self.to is not None:
            self.to.append(i)

    def close(self):
        self.closed += 1
        if self.to is not None:
            self.to.close()

    def bytes(self):
        return b"".join(i.bytes() for i in self.items)

    def tuples(self):
        return [(int(i.kind), int(i.tag), int(i.value)) for i in self.items]


def parse(fmt, contents, to=None):
    """Items delivered by the reader of a format."""
    t = Tap(to)
    f = io.BytesIO(contents) if fmt == "binary" else io.StringIO(contents)
    Parser.get(fmt)(f, t).read()
    return t


def render(fmt, items):
    """Text or bytes written by the writer of a format."""
    out = io.BytesIO() if fmt == "binary" else io.StringIO()
    f = Formatter.get(fmt)(out)
    for i in items:
        f.append(i)
    f.close()
    return out.getvalue()


def optimize_bytes(data, lo=0, hi=100):
    """What the converter does with -O, as bytes; also returns the tap after the passes."""
    t = Tap()
    Parser.get("binary")(io.BytesIO(data), Optimizer.new(t, lo, hi)).read()
    return t


def compile_tree(tree, lo=0, hi=100, tap=None):
    """Compile through passes with precedence in (lo, hi); lo=hi=0 is unoptimized."""
    t = tap or Tap()
    out = Optimizer.new(t, lo, hi) if hi > lo else t
    tree.accept(streamer.Streamer(out))
    out.close()
    return t


def decompile(data, fmt="binary"):
    e = _extractor.Extractor()
    f = io.BytesIO(data) if fmt == "binary" else io.StringIO(data)
    Parser.get(fmt)(f, e).read()
    return e.root


def dump(tree):
    out = io.StringIO()
    tree.accept(_dumper.Dumper(out))
    return out.getvalue()


def load_script(text):
    ns = {"__name__": "hv_script"}
    exec(compile(text, "<script>", "exec"), ns)
    return ns["descriptor"]


def make(kind, tag, value):
    return item.Item.itemclass(kind, tag)(value)


ITEM_CLASS = {k: getattr(item, n) for k, n in S.KINDS.items()}
