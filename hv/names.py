"""What a name in a listing stands for.  Golden values come from the HID specification and the HID
usage tables; names unknown to the golden tables are resolved in the library's own tables."""
import json
import os
import re

with open(os.path.join(os.path.dirname(__file__), "golden_usages.json")) as f:
    GOLDEN = json.load(f)

MODULE_PAGE = {m: d["page"][0] for m, d in GOLDEN.items() if d["page"]}
MODULE_PAGE.update(button=0x9, ordinal=0xa)
PAGE_MODULE = {p: m for m, p in MODULE_PAGE.items()}
PAGE_NAMES = {"GenericDesktop": 1, "Simulation": 2, "VR": 3, "Game": 5, "Device": 6, "Keyboard": 7,
              "Led": 8, "Button": 9, "Ordinal": 0xa, "TelephonyDevice": 0xb, "Consumer": 0xc,
              "Digitizers": 0xd, "PID": 0xf, "Sensors": 0x20, "Lighting": 0x59, "Camera": 0x90,
              "Arcade": 0xff00}
PAGE_NAMES.update(MODULE_PAGE)
FLAGS = {"Data": 0, "Constant": 1, "Array": 0, "Variable": 2, "Absolute": 0, "Relative": 4,
         "NoWrap": 0, "Wrap": 8, "Linear": 0, "NonLinear": 16, "PreferredState": 0,
         "NoPreferred": 32, "NoNullPosition": 0, "NullState": 64, "NonVolatile": 0,
         "Volatile": 128, "BitField": 0, "BufferedBytes": 256}
COLLECTIONS = {"Physical": 0, "Application": 1, "Logical": 2, "Report": 3, "NamedArray": 4,
               "UsageSwitch": 5, "UsageModifier": 6}
SYSTEMS = {"SILinear": 1, "SIRotation": 2, "EnglishLinear": 3, "EnglishRotation": 4}
DIMENSIONS = {"length": 1, "mass": 2, "time": 3, "temperature": 4, "current": 5,
              "luminousintensity": 6}
UNITS = {"Centimeter": 0x11, "Radian": 0x12, "Inch": 0x13, "Degree": 0x14, "Gram": 0x101,
         "Slug": 0x103, "Second": 0x1000, "Kelvin": 0x10001, "Fahrenheit": 0x10003,
         "Ampere": 0x100000, "Candela": 0x1000000, "CmPerSec": 0xf011, "Momentum": 0xf111,
         "G": 0xe011, "Newton": 0xe111, "Joule": 0xe121, "Volt": 0x00f0d121}


def number(s):
    s = s.strip()
    if re.fullmatch(r"-?[0-9]+", s):
        return int(s)
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", s):
        return int(s, 16)
    return None


def table(name, tab):
    n = number(name)
    return tab.get(name) if n is None else n


def flags(s):
    n = number(s)
    if n is not None:
        return n
    v = 0
    for part in s.split("|"):
        if part.strip() not in FLAGS:
            return None
        v |= FLAGS[part.strip()]
    return v


def in_module(module, name):
    """Full value of <module>.<name>, or None."""
    m = re.fullmatch(r"(Button|Ordinal)\((\d+)\)", name)
    if m:
        if {"Button": "button", "Ordinal": "ordinal"}[m.group(1)] != module:
            return None
        return MODULE_PAGE[module] << 16 | int(m.group(2))
    if module in GOLDEN and name in GOLDEN[module]["names"]:
        return GOLDEN[module]["names"][name]
    import hrdc.usage
    mod = getattr(hrdc.usage, module, None)
    v = getattr(mod, name, None)
    try:
        return None if v is None else int(v)
    except Exception:
        return None


def usage(s, page):
    """Value of a usage name seen while `page` is in force; short values for undotted names."""
    n = number(s)
    if n is not None:
        return n
    if "." in s:
        return in_module(*s.split(".", 1))
    mod = PAGE_MODULE.get(page)
    if mod is None:
        return None
    v = in_module(mod, s)
    return None if v is None or v >> 16 != page else v & 0xffff
