"""Independent readers of the textual formats (no hrdc code)."""
import re

LINE = re.compile(r"^\s*((?:0x[0-9a-fA-F]{2}\s*,\s*)+)//( *)(\S.*?)\s*$")


def code_bytes(text):
    """Bytes of a code listing written by the tool."""
    out = []
    for line in text.split("\n"):
        for tok in line.split("//", 1)[0].replace(",", " ").split():
            out.append(int(tok, 16))
    return bytes(out)


def hex_bytes(text):
    return bytes(int(t, 16) for t in text.split())


def any_bytes(fmt, contents):
    if fmt == "binary":
        return bytes(contents)
    if isinstance(contents, (bytes, bytearray)):
        contents = bytes(contents).decode()
    return code_bytes(contents) if fmt == "code" else hex_bytes(contents)


def listing(text):
    """Lines of a listing as (bytes, indentation, comment); raises ValueError."""
    out = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        m = LINE.match(line)
        if not m:
            raise ValueError("not a listing line: %r" % line)
        data = bytes(int(x, 16) for x in m.group(1).replace(",", " ").split())
        out.append((data, len(m.group(2)), m.group(3)))
    return out
