"""Independent reference model of the VFB entry formats.

For every entry type: a Hypothesis strategy for its decompiled structure and a
reference encoder written from the format description, not from vfbLib's code.
Numeric ids and names are hard-coded on purpose.
"""
from __future__ import annotations

import random
import struct
from copy import deepcopy
from dataclasses import dataclass
from math import atan2, degrees
from typing import Any, Callable

from hypothesis import strategies as st

I32MIN, I32MAX = -(2**31), 2**31 - 1


@dataclass(frozen=True)
class Ctx:
    """What an entry's codec may depend on besides its own data."""

    masters: int = 1
    platform: str = "windows"
    vstems: int = 0
    hstems: int = 0


# ---------------------------------------------------------------- byte writer


def enc_value(v: int, long: bool = False) -> bytes:
    """Type 1 charstring number encoding."""
    if long or not -1131 <= v <= 1131:
        return b"\xff" + (v & 0xFFFFFFFF).to_bytes(4, "big")
    if -107 <= v <= 107:
        return bytes([v + 139])
    if v > 0:
        w = v - 108
        return bytes([247 + w // 256, w % 256])
    w = -v - 108
    return bytes([251 + w // 256, w % 256])


class W:
    """Reference byte writer.  With a seed, values randomly use the long form."""

    def __init__(self, seed: int | None = None, prob: float = 0.3) -> None:
        self.b = bytearray()
        self.rnd = random.Random(seed) if seed is not None else None
        self.prob = prob

    def v(self, *vals: int, long: bool = False) -> "W":
        for x in vals:
            use_long = long or (self.rnd is not None and self.rnd.random() < self.prob)
            self.b += enc_value(x, use_long)
        return self

    def u8(self, *vals: int) -> "W":
        for x in vals:
            self.b.append(x)
        return self

    def p(self, fmt: str, *vals: Any) -> "W":
        self.b += struct.pack("<" + fmt, *vals)
        return self

    def raw(self, b: bytes) -> "W":
        self.b += b
        return self

    def s(self, text: str) -> "W":
        e = text.encode("cp1252")
        self.v(len(e))
        self.b += e
        return self

    def get(self) -> bytes:
        return bytes(self.b)


# ---------------------------------------------------------------- strategies

BOUNDS = sorted(
    {s * b + d for b in (0, 107, 108, 363, 364, 619, 620, 875, 876, 1131, 1132, 32767, 32768) for s in (1, -1) for d in (-1, 0, 1)}
    | {I32MIN, I32MIN + 1, I32MAX, I32MAX - 1, 65535, 65536, -65536}
)
val = st.one_of(st.integers(-1200, 1200), st.sampled_from(BOUNDS), st.integers(I32MIN, I32MAX), st.integers(-107, 107))
uval = st.one_of(st.integers(0, 1200), st.integers(0, 2**32 - 1), st.sampled_from([0, 107, 108, 1131, 1132, 2**31 - 1, 2**31, 2**32 - 1]))
# coordinates that may be subtracted from each other without leaving int32
coord = st.one_of(st.integers(-1200, 1200), st.integers(-40000, 40000), st.integers(-(2**29), 2**29))
small = st.integers(-1200, 1200)
u8 = st.integers(0, 255)
u16 = st.integers(0, 0xFFFF)
i16 = st.integers(-0x8000, 0x7FFF)
u32 = st.one_of(st.integers(0, 300), st.integers(0, 2**32 - 1))
i32 = val
dbl = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 0.001, 0.1, -12.5, 1e300]),
    st.floats(allow_nan=False, allow_infinity=False),
)
LATIN = "".join(bytes([i]).decode("cp1252", "ignore") for i in range(0x80, 256))
ASCII = "".join(chr(c) for c in range(0x20, 0x7F))
alphabet = st.sampled_from(ASCII + LATIN + "\t")
text = st.one_of(st.text(alphabet, max_size=12), st.text(alphabet, max_size=200))
text1 = st.text(alphabet, min_size=1, max_size=12)
body = st.one_of(text, st.text(st.sampled_from(ASCII + LATIN + "\t\r\n"), max_size=400))
name_chars = st.sampled_from("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-")
glyph_name = st.one_of(
    st.sampled_from(["A", "B", "a", "space", ".notdef", "Adieresis", "a.sc", "f_i", "uni20AC", "A.alt1"]),
    st.text(name_chars, min_size=1, max_size=20),
)
hexdata = st.one_of(*[st.binary(max_size=60)] * 12, st.builds(lambda b, n: b * n, st.binary(min_size=1, max_size=60), st.integers(20, 100))).map(bytes.hex)


def many(s, counts=(108, 130, 256, 300, 1200), rare=30):
    """The lists of s, and now and then a very long one, whose length takes more than one byte."""
    def stretch(l, n):
        return [deepcopy(l[i % len(l)]) for i in range(n)] if l and n else l

    return st.builds(stretch, s, st.integers(0, rare).flatmap(lambda i: st.sampled_from(counts) if i == rare else st.just(0)))


def some(s, n, most=9, least=0, **kw):
    """Lists of up to n, now and then of up to most."""
    return st.one_of(*[st.lists(s, min_size=least, max_size=n, **kw)] * 14, st.lists(s, min_size=n + 1, max_size=most, **kw))


def lists(s, n=4):
    return many(st.lists(s, max_size=n))


def tup(*s):
    return st.tuples(*s)


def fd(**kw):
    return st.fixed_dictionaries(kw)


def fdo(req, opt):
    return st.fixed_dictionaries(req, optional=opt)


# ------------------------------------------------------------ entry registry


@dataclass(frozen=True)
class Spec:
    eid: int
    name: str
    kind: str
    gen: Callable[[Ctx], Any]
    enc: Callable[[Any, W, Ctx], None]
    group: str  # "font" or "glyph"
    # data structure as the reader is expected to return it, from generated data
    expect: Callable[[Any, Ctx], Any] = lambda d, c: d
    exact: bool = True  # whether the writer must produce the canonical bytes


SPECS: dict[int, Spec] = {}


def reg(group: str, kind: str, gen, enc, items: list[tuple[int, str]], **kw) -> None:
    for eid, name in items:
        assert eid not in SPECS, eid
        SPECS[eid] = Spec(eid, name, kind, gen, enc, group, **kw)


# --- simple kinds

reg("font", "hex", lambda c: hexdata, lambda d, w, c: w.raw(bytes.fromhex(d)), [
    (1, "Block File Data Start"), (4, "Block Font Start"), (262, "Block Names Start"),
    (1261, "cvt"), (1262, "prep"), (1263, "fpgm"), (2030, "Font Flags"),
    (513, "Block Font Info End"), (271, "Block MM Font Info Start"), (527, "Block MM Font Info End"),
    (272, "Block MM Kerning Start"), (528, "Block MM Kerning End"), (5, "Block Font End"),
    (2, "Block File Data End"),
])
reg("font", "emptystr", lambda c: st.just(""), lambda d, w, c: None, [
    (518, "Block Names End"), (257, "Block Font Info Start"),
])
STRINGS = [
    (1026, "font_name"), (1046, "version"), (1038, "notice"), (1025, "full_name"), (1027, "family_name"),
    (1024, "pref_family_name"), (1056, "menu_name"), (1092, "apple_name"), (1028, "weight"), (1065, "width"),
    (1069, "License"), (1070, "License URL"), (1037, "copyright"), (1061, "trademark"), (1062, "designer"),
    (1063, "designer_url"), (1064, "vendor_url"), (1039, "source"), (1128, "tt_version"), (1129, "tt_u_id"),
    (1127, "style_name"), (1137, "pref_style_name"), (1139, "mac_compatible"), (1140, "Sample Text"),
    (1059, "pcl_chars_set"), (2025, "note"), (2016, "customdata"), (1277, "OpenType Class"),
    (1514, "Axis Name"), (1504, "Master Name"), (1066, "default_character"),
]
GSTRINGS = [(2034, "Custom Dict"), (2015, "glyph.customdata"), (2017, "glyph.note")]
reg("font", "str", lambda c: body, lambda d, w, c: w.raw(d.encode("cp1252")), STRINGS)
reg("glyph", "str", lambda c: body, lambda d, w, c: w.raw(d.encode("cp1252")), GSTRINGS)
reg("font", "vendor", lambda c: st.text(st.sampled_from(ASCII), max_size=6),
    lambda d, w, c: w.raw(d.encode("cp1252").ljust(4, b"\0")), [(1121, "vendor")])
reg("font", "u16", lambda c: u16, lambda d, w, c: w.p("H", d), [
    (1502, "MM Encoding Type"), (1503, "Master Count"), (1034, "is_fixed_pitch"), (1031, "underline_thickness"),
    (1054, "ms_charset"), (1134, "xuid_num"), (1132, "year"), (1130, "version_major"), (1131, "version_minor"),
    (1135, "upm"), (1090, "fond_id"), (1530, "blue_values_num"), (1531, "other_blues_num"),
    (1532, "family_blues_num"), (1533, "family_other_blues_num"), (1534, "stem_snap_h_num"),
    (1535, "stem_snap_v_num"), (1267, "font_style"), (1057, "pcl_id"), (1058, "vp_id"), (1060, "ms_id"),
    (1270, "hhea_line_gap"), (1272, "stemsnaplimit"), (1274, "zoneppm"), (1275, "codeppm"), (1604, "dropoutppm"),
    (2022, "Export PCLT Table"), (1513, "Axis Count"),
])
reg("glyph", "u16", lambda c: u16, lambda d, w, c: w.p("H", d), [(2012, "mark")])
reg("font", "i16", lambda c: i16, lambda d, w, c: w.p("h", d), [
    (1048, "weight_code"), (1030, "underline_position"), (1278, "hhea_ascender"), (1279, "hhea_descender"),
    (2032, "Measurement Line"),
])
reg("font", "i32", lambda c: i32, lambda d, w, c: w.p("i", d), [(1044, "unique_id")])
reg("font", "dbl", lambda c: dbl, lambda d, w, c: w.p("d", d), [(1029, "italic_angle"), (1047, "slant_angle")])
reg("font", "dbls", lambda c: lists(dbl, 16), lambda d, w, c: w.p(f"{len(d)}d", *d), [
    (1517, "weight_vector"), (1247, "Primary Instance Locations"),
])
reg("font", "u32s", lambda c: lists(u32, 10), lambda d, w, c: w.p(f"{len(d)}I", *d), [(1133, "xuid")])
reg("font", "panose", lambda c: st.lists(st.integers(-128, 127), min_size=10, max_size=10),
    lambda d, w, c: w.p("10b", *d), [(1118, "panose")])
reg("font", "bits128", lambda c: st.sets(st.integers(0, 127)).map(sorted),
    lambda d, w, c: w.raw(sum(1 << b for b in d).to_bytes(16, "little")), [(2021, "unicoderanges")])
reg("font", "countvals", lambda c: lists(val, 8), lambda d, w, c: w.v(len(d), *d), [(1068, "Collection")])
reg("glyph", "vals", lambda c: lists(val, 8), lambda d, w, c: w.v(*d), [(2023, "VSB")])
reg("font", "genc", lambda c: tup(u16, glyph_name), lambda d, w, c: w.p("H", d[0]).raw(d[1].encode("cp1252")), [
    (1501, "Encoding Default"), (1500, "Encoding"),
])


def _bits_opts(names: dict[str, int], nbits: int):
    others = [b for b in range(nbits) if b not in names.values()]
    return st.builds(
        lambda on, other: {**{k: 1 for k in on}, "other": sorted(other)},
        st.sets(st.sampled_from(sorted(names))),
        st.sets(st.sampled_from(others)),
    )


def _bits_val(d, names):
    return sum(1 << names[k] for k in d if k != "other") + sum(1 << b for b in d["other"])


PSG = {"generate_flex": 0}
PSL = {"hint_replacement": 29, "horizontal_3_stem": 30, "vertical_3_stem": 31}
reg("font", "psgopt", lambda c: _bits_opts(PSG, 16), lambda d, w, c: w.p("H", _bits_val(d, PSG)),
    [(1093, "PostScript Hinting Options")])
reg("glyph", "pslopt", lambda c: _bits_opts(PSL, 32), lambda d, w, c: w.p("I", _bits_val(d, PSL)),
    [(2010, "Glyph Hinting Options")])


# --- FL version


def _flv(d, w, c):
    w.u8(1).v({"windows": 0, "macos": 1}[d["platform"]])
    w.u8(2).u8(0xFF, *d["version"])
    w.u8(3).v(d["owner"]).u8(0)


reg("font", "flversion", lambda c: fd(
    platform=st.just(c.platform), version=tup(u8, u8, u8, u8), owner=val), _flv, [(10, "FL Version")])


# --- gasp, vdmx, TrueType

reg("font", "gasp", lambda c: lists(fd(maxPpem=u16, flags=u16), 5),
    lambda d, w, c: [w.p("HH", r["maxPpem"], r["flags"]) for r in d], [(1265, "gasp")])
reg("font", "vdmx", lambda c: lists(fd(pelHeight=val, max=val, min=val), 5),
    lambda d, w, c: (w.v(len(d)), [w.v(r["pelHeight"], r["max"], r["min"]) for r in d]), [(1271, "vdmx")])

TTI = [
    (0x33, "max_zones"), (0x34, "max_twilight_points"), (0x35, "max_storage"), (0x36, "max_function_defs"),
    (0x37, "max_instruction_defs"), (0x38, "max_stack_elements"),
]
TTI_OPT1 = [(0x3A, "head_units_per_em"), (0x3B, "head_mac_style"), (0x3C, "head_lowest_rec_ppem"),
            (0x56, "head_creation"), (0x57, "head_creation2")]
TTI_OPT2 = [
    (0x3D, "head_font_direction_hint"), (0x3E, "os2_us_weight_class"), (0x3F, "os2_us_width_class"),
    (0x40, "os2_fs_type"), (0x41, "os2_y_subscript_x_size"), (0x42, "os2_y_subscript_y_size"),
    (0x43, "os2_y_subscript_x_offset"), (0x44, "os2_y_subscript_y_offset"), (0x45, "os2_y_superscript_x_size"),
    (0x46, "os2_y_superscript_y_size"), (0x47, "os2_y_superscript_x_offset"),
    (0x48, "os2_y_superscript_y_offset"), (0x49, "os2_y_strikeout_size"), (0x4A, "os2_y_strikeout_position"),
    (0x4B, "os2_s_family_class"),
]
TTI_OPT3 = [
    (0x4D, "os2_s_typo_ascender"), (0x4E, "os2_s_typo_descender"), (0x4F, "os2_s_typo_line_gap"),
    (0x50, "os2_fs_selection"), (0x51, "os2_us_win_ascent"), (0x52, "os2_us_win_descent"), (0x5C, "Average Width"),
]
TTSET = {0: "use_custom_tt_values", 1: "create_vdmx", 2: "add_null_cr_space"}


def _ttinfo_gen(c):
    req = {n: val for _, n in TTI}
    req["head_flags"] = fd(
        flags=st.sets(st.integers(0, 15)).map(sorted),
        options=st.sets(st.integers(0, 15)).map(lambda s: [TTSET.get(i, str(i)) for i in sorted(s)]),
    )
    req["OpenTypeOS2Panose"] = st.lists(u8, min_size=10, max_size=10)
    req["Codepages"] = fd(os2_ul_code_page_range1=uval, os2_ul_code_page_range2=uval)
    opt = {n: val for _, n in TTI_OPT1 + TTI_OPT2 + TTI_OPT3}
    opt["Hdmx PPMs 1"] = lists(u8, 6)
    opt["Hdmx PPMs 2"] = lists(u8, 6)
    return fdo(req, opt)


def _ttinfo_enc(d, w, c):
    rev = {v: k for k, v in TTSET.items()}
    for k, n in TTI:
        w.u8(k).v(d[n])
    o = d["head_flags"]
    x = sum(1 << b for b in o["flags"])
    x += sum(1 << (16 + (rev[b] if b in rev else int(b))) for b in o["options"])
    w.u8(0x39).v(x)
    for k, n in TTI_OPT1 + TTI_OPT2:
        if n in d:
            w.u8(k).v(d[n])
    w.u8(0x4C).u8(*d["OpenTypeOS2Panose"])
    for k, n in TTI_OPT3:
        if n in d:
            w.u8(k).v(d[n])
    for k, n in ((0x53, "Hdmx PPMs 1"), (0x58, "Hdmx PPMs 2")):
        if n in d:
            w.u8(k).v(len(d[n])).u8(*d[n])
    w.u8(0x54).v(d["Codepages"]["os2_ul_code_page_range1"], d["Codepages"]["os2_ul_code_page_range2"])
    w.u8(0x32)


reg("font", "ttinfo", _ttinfo_gen, _ttinfo_enc, [(1264, "ttinfo")])


def _stems(f):
    return fd(ttStemsV=f, ttStemsH=f)


def _numbered(l, keys):
    return [{"stem": i, "round": dict(zip(keys, x))} for i, x in enumerate(l)]


def _both(d, fn, w):
    for k in ("ttStemsV", "ttStemsH"):
        fn(d[k])


reg("font", "ttstems", lambda c: _stems(lists(st.builds(
    lambda v, n, r: {"value": v, "name": n, "round": {6: r}}, val, text, val))),
    lambda d, w, c: [(w.v(len(d[k])), [
        w.v(s["value"]).u8(len(s["name"].encode("cp1252"))).raw(s["name"].encode("cp1252")).v(s["round"][6])
        for s in d[k]]) for k in ("ttStemsV", "ttStemsH")], [(1269, "TrueType Stems")])
reg("font", "ttppems", lambda c: _stems(lists(tup(val, val, val, val)).map(lambda l: _numbered(l, (2, 3, 4, 5)))),
    lambda d, w, c: [(w.v(len(d[k])), [w.v(*[s["round"][i] for i in (2, 3, 4, 5)]) for s in d[k]])
                     for k in ("ttStemsV", "ttStemsH")], [(1268, "TrueType Stem PPEMs")])
reg("font", "ttppems23", lambda c: _stems(lists(tup(val, val)).map(lambda l: _numbered(l, (2, 3)))),
    lambda d, w, c: [(w.v(len(d[k])), [w.v(*[s["round"][i] for i in (2, 3)]) for s in d[k]])
                     for k in ("ttStemsV", "ttStemsH")], [(1266, "TrueType Stem PPEMs 2 And 3")])
reg("font", "ttppems1", lambda c: fd(
    ttStemsV=st.lists(tup(val), min_size=c.vstems, max_size=c.vstems).map(lambda l: _numbered(l, (1,))),
    ttStemsH=st.lists(tup(val), min_size=c.hstems, max_size=c.hstems).map(lambda l: _numbered(l, (1,)))),
    lambda d, w, c: [[w.v(s["round"][1]) for s in d[k]] for k in ("ttStemsV", "ttStemsH")],
    [(1524, "TrueType Stem PPEMs 1")])
_zone = fd(position=val, value=val, name=text)
reg("font", "ttzones", lambda c: fd(ttZonesT=lists(_zone), ttZonesB=lists(_zone)),
    lambda d, w, c: [(w.v(len(d[k])), [w.v(z["position"], z["value"]).s(z["name"]) for z in d[k]])
                     for k in ("ttZonesT", "ttZonesB")], [(1255, "TrueType Zones")])
reg("font", "ttzdeltas", lambda c: st.dictionaries(val, st.dictionaries(val, val, min_size=1, max_size=4), max_size=4),
    lambda d, w, c: (w.v(sum(len(x) for x in d.values())),
                     [w.v(i, p, s) for i, p, s in sorted((i, p, s) for i, x in d.items() for p, s in x.items())]),
    [(1273, "TrueType Zone Deltas")])


# --- names, cmaps, PCLT, flags

_macchars = st.sampled_from("".join(bytes([i]).decode("macroman") for i in range(0x20, 256) if i != 0x7F))
_unichars = st.one_of(st.sampled_from(ASCII), st.characters(exclude_categories=["Cs"]), st.sampled_from("äЖ中😀"))


def _name_rec(mac):
    return tup(val, st.just(1) if mac else st.sampled_from([0, 3, 2]), st.just(0) if mac else st.sampled_from([0, 1, 10]),
               val, st.text(_macchars if mac else _unichars, max_size=12))


def _names(d, w, c):
    w.v(len(d))
    for n, p, e, l, t in d:
        w.v(n, p, e, l, len(t))
        for ch in t:
            w.v(ch.encode("macroman")[0] if (p, e) == (1, 0) else ord(ch))


reg("font", "names", lambda c: lists(st.one_of(_name_rec(True), _name_rec(False), tup(
    val, st.just(1), st.integers(1, 5), val, st.text(_unichars, max_size=5)))), _names, [(1138, "fontnames")])
CM = ("language_id", "platform_id", "encoding_id", "format", "option")
reg("font", "cmaps", lambda c: lists(fd(**{k: val for k in CM}, page_name=text)),
    lambda d, w, c: (w.v(len(d)), [w.v(*[m[k] for k in CM]).s(m["page_name"]) for m in d]), [(1141, "Custom CMAPs")])
PC = ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set")
_lat = st.sampled_from(ASCII + LATIN + "\0")


def _pclt(d, w, c):
    w.v(d["font_number"])
    w.v(*[d[k] for k in PC]).raw(d["typeface"].encode("cp1252")).u8(*d["character_complement"])
    w.raw(d["file_name"].encode("cp1252")).p("bbB", d["stroke_weight"], d["width_type"], d["serif_style"])


reg("font", "pclt", lambda c: fd(
    font_number=uval, **{k: val for k in PC}, typeface=st.text(_lat, min_size=16, max_size=16),
    character_complement=st.lists(u8, min_size=8, max_size=8), file_name=st.text(_lat, min_size=6, max_size=6),
    stroke_weight=st.integers(-128, 127), width_type=st.integers(-128, 127), serif_style=u8), _pclt, [(1136, "PCLT Table")])
reg("font", "mflags", lambda c: st.dictionaries(text, tup(val, val, val), max_size=4),
    lambda d, w, c: (w.v(len(d)), [w.s(k).v(*x) for k, x in d.items()]), [(2024, "OpenType Metrics Class Flags")])
reg("font", "kflags", lambda c: st.dictionaries(text, tup(val, val), max_size=4),
    lambda d, w, c: (w.v(len(d)), [w.s(k).v(*x) for k, x in d.items()]), [(2026, "OpenType Kerning Class Flags")])
reg("font", "bintable", lambda c: fd(tag=st.text(st.sampled_from(ASCII), min_size=4, max_size=4), data=hexdata),
    lambda d, w, c: w.raw(d["tag"].encode()).raw(bytes.fromhex(d["data"])), [(2014, "TrueTypeTable")])


# --- feature text: structure is a list of lines, normalised by the reader


def norm_lines(lines: list[str]) -> list[str]:
    out, blanks = [], 0
    for ln in lines:
        if ln.strip():
            blanks = 0
        else:
            blanks += 1
            if blanks > 2:
                continue
        out.append(ln)
    if len(out) > 1:
        while out and out[-1] == "":
            out.pop()
    return out + [""]


_line = st.one_of(st.sampled_from(["", "", "feature liga {", "} liga;", "  sub f i by f_i;", "# é", "   "]),
                  st.text(st.sampled_from(ASCII + LATIN), max_size=30))
reg("font", "fea", lambda c: lists(_line, 12).map(norm_lines), lambda d, w, c: w.raw("\n".join(d).encode("cp1252")),
    [(1276, "features")])


# --- MM

reg("font", "aniso", lambda c: lists(lists(tup(val, val))),
    lambda d, w, c: [(w.v(len(a)), [w.v(*p) for p in a]) for a in d], [(1523, "Anisotropic Interpolation Mappings")])
reg("font", "axcount", lambda c: st.lists(u32, min_size=4, max_size=4), lambda d, w, c: w.p("4I", *d),
    [(1515, "Axis Mappings Count")])
reg("font", "axmap", lambda c: lists(tup(dbl, dbl), 40), lambda d, w, c: [w.p("dd", *p) for p in d], [(1516, "Axis Mappings")])
reg("font", "masterloc", lambda c: tup(u32, tup(dbl, dbl, dbl, dbl)), lambda d, w, c: w.p("I4d", d[0], *d[1]),
    [(1505, "Master Location")])
_q = val.map(lambda v: v / 10000)
reg("font", "instances", lambda c: lists(fd(name=text, values=tup(_q, _q, _q, _q))),
    lambda d, w, c: (w.v(len(d)), [w.s(i["name"]).v(*[round(x * 10000) for x in i["values"]]) for i in d]),
    [(1254, "Primary Instances")])

PSI = [
    ("font_matrix", "6d"), ("force_bold", "i"), ("blue_values", "14i"), ("other_blues", "10i"), ("family_blues", "14i"),
    ("family_other_blues", "10i"), ("blue_scale", "d"), ("blue_shift", "I"), ("blue_fuzz", "I"), ("std_hw", "I"),
    ("std_vw", "I"), ("stem_snap_h", "12I"), ("stem_snap_v", "12I"), ("bounding_box", "4h"), ("adv_width_min", "i"),
    ("adv_width_max", "i"), ("adv_width_avg", "i"), ("ascender", "i"), ("descender", "i"), ("x_height", "i"),
    ("cap_height", "i"),
]


def _psi_gen(c):
    d = {}
    for k, f in PSI:
        s = {"d": dbl, "i": i32, "I": u32, "h": i16}[f[-1]]
        d[k] = st.lists(s, min_size=int(f[:-1]), max_size=int(f[:-1])) if f[:-1] else s
    d["bounding_box"] = fd(xMin=i16, yMin=i16, xMax=i16, yMax=i16)
    return fd(**d)


def _psi_enc(d, w, c):
    for k, f in PSI:
        v = d[k]
        if k == "bounding_box":
            v = [v[x] for x in ("xMin", "yMin", "xMax", "yMax")]
        w.p(f, *(v if isinstance(v, (list, tuple)) else [v]))


reg("font", "psinfo", _psi_gen, _psi_enc, [(1536, "PostScript Info")])

# --- guides

slope = st.one_of(st.sampled_from([0, 1, -1, 10000, -10000, 5773]), st.integers(-30000, 30000), st.integers(-(10**7), 10**7))


def angle_of(s: int) -> float:
    return degrees(atan2(s, 10000))


def guides_gen(c):
    one = st.builds(lambda p, s: {"pos": p, "angle": angle_of(s)}, val, slope)
    return fd(**{d: lists(st.lists(one, min_size=c.masters, max_size=c.masters), 3) for d in "hv"})


def slope_of(angle: float) -> int:
    from math import radians, tan

    return round(tan(radians(angle)) * 10000)


def guides_enc(d, w, c):
    for k in "hv":
        w.v(len(d[k]))
        for g in d[k]:
            for m in g:
                w.v(m["pos"], slope_of(m["angle"]))


reg("font", "guides", guides_gen, guides_enc, [(1294, "Global Guides")])
_col = st.one_of(st.integers(0, 0xFFFFFF).map(lambda v: f"#{v:06x}"), st.sampled_from(["#000000", "#ffffff", "#0000ff", "#ff0000", "#010203"]))
_gp = fdo({"index": val.filter(bool)}, {"color": _col, "name": text1})


def _gp_enc(d, w, c):
    for k in "hv":
        for g in d[k]:
            w.v(g["index"])
            if "color" in g:
                h = g["color"]
                w.v(int(h[5:7] + h[3:5] + h[1:3], 16), long=True)
            else:
                w.v(-1)
            w.s(g.get("name", ""))
        w.v(0)


reg("font", "guideprops", lambda c: fd(h=lists(_gp, 3), v=lists(_gp, 3)), _gp_enc, [(1296, "Global Guide Properties")])
reg("glyph", "guideprops", lambda c: fd(h=lists(_gp, 3), v=lists(_gp, 3)), _gp_enc, [(2031, "Glyph Guide Properties")])

# --- options

FONT_OPTS = {
    1: "fit_ascender", 2: "fit_descender", 3: "auto_metrics_left", 4: "auto_metrics_right", 5: "auto_metrics_close",
    6: "auto_hinting_min_h_len", 7: "auto_hinting_min_v_len", 8: "auto_hinting_min_h_width",
    9: "auto_hinting_min_v_width", 10: "auto_hinting_max_h_width", 11: "auto_hinting_max_v_width",
    12: "auto_hinting_h_ratio", 13: "auto_hinting_v_ratio", 14: "duplicate_place_x", 15: "paste_place_x",
    16: "opentype_name_records", 17: "codepage_for_cmap_1_0", 18: "dont_ignore_unicode_indexes",
    19: "head_bbox_savings", 20: "autohinting_options", 21: "export_hinted_truetype_font",
    22: "autohint_unhinted_glyphs", 23: "keep_existing_truetype_instructions", 24: "export_visual_truetype_hints",
    25: "apply_bbox_savings", 26: "auto_win_asc_desc", 27: "add_characters", 28: "export_embedded_bitmaps",
    29: "copy_hdmx_data_from_base_to_composite_glyph", 30: "dont_automatically_reorder_glyphs", 31: "export_ot",
    32: "export_volt", 33: "write_kern_feature", 34: "t1_terminal", 35: "t1_pfm", 36: "t1_afm", 37: "t1_autohint",
    38: "t1_unicode", 39: "optimize_align", 40: "optimize_reduce", 41: "t1_encoding", 42: "ot_write_gdef",
    43: "t1_use_os2", 44: "subrize", 45: "t1_sort", 46: "export_kern_table", 47: "t1_fs_type",
    48: "expand_kern_flags", 49: "expand_kern_codepage", 50: "expand_kern_count", 51: "decompose",
    114: "duplicate_place_y", 115: "paste_place_y",
}
AH = {
    "generate_triple_hints": 0x100, "generate_delta_instructions": 0x200,
    "direct_links_to_center_of_the_glyph_where_possible": 0x400, "interpolate_positions_of_cusp_points": 0x800,
    "interpolate_positions_of_double_links": 0x1000, "add_link_to_rsb": 0x2000,
}
EK = {"limit_action": 1, "limit_codepage": 2, "limit_cmap_10": 4, "limit_font_window": 8, "limit_count": 16,
      "limit_keep": 32, "apply_to_assistance": 0x1000}
_bit = st.integers(0, 1)


def _fopt_gen(c):
    opt = {}
    for k in range(1, 0x80):
        if k == 0x64:
            continue
        n = FONT_OPTS.get(k, str(k))
        if k in (12, 13):
            s = val.map(lambda v: v / 10000)
        elif k == 20:
            s = fd(single_link_attachment_precision=st.integers(0, 7), **{x: _bit for x in AH})
        elif k == 48:
            s = fd(**{x: _bit for x in EK})
        else:
            s = val
        opt[n] = s
    return st.lists(st.sampled_from(sorted(opt)), unique=True, max_size=12).flatmap(lambda ks: fd(**{k: opt[k] for k in ks}))


def _fopt_enc(d, w, c):
    rev = {v: k for k, v in FONT_OPTS.items()}
    for k, v in d.items():
        n = rev[k] if k in rev else int(k)
        if n in (12, 13):
            v = round(v * 10000)
        elif n == 20:
            v = v["single_link_attachment_precision"] + sum(AH[x] for x in AH if v[x])
        elif n == 48:
            v = sum(EK[x] for x in EK if v[x])
        w.u8(n).v(v)
    w.u8(0x64)


reg("font", "fontopts", _fopt_gen, _fopt_enc, [(1743, "Font Options")])
EXPO = {0: "use_custom_opentype_export_options", 1: "use_default_opentype_export_options", 2: "use_custom_cmap_encoding"}
reg("font", "exportopts", lambda c: st.sets(st.integers(0, 15)).map(lambda s: [EXPO.get(i, i) for i in sorted(s)]),
    lambda d, w, c: w.p("H", sum(1 << (x if isinstance(x, int) else {v: k for k, v in EXPO.items()}[x]) for x in d)),
    [(1744, "Export Options")])
MODES = {0: "names_or_index", 1: "unicode_ranges", 3: "codepages"}


def _mm_enc(d, w, c):
    m = d["mapping_mode"]
    rev = {v: k for k, v in MODES.items()}
    w.u8(1).v(rev[m] if m in rev else int(m)).u8(2).v(d["m2"]).u8(3).v(d["m3"]).u8(4).v(d["mapping_id"]).u8(0)


reg("font", "mapmode", lambda c: fd(
    mapping_mode=st.one_of(st.sampled_from(sorted(MODES)), val).map(lambda v: MODES.get(v, str(v))),
    m2=val, m3=val, mapping_id=val), _mm_enc, [(1742, "Mapping Mode")])
reg("font", "mmkern", lambda c: fd(l=u32, r=u32, values=st.lists(i16, min_size=c.masters, max_size=c.masters)),
    lambda d, w, c: w.p(f"II{c.masters}h", d["l"], d["r"], *d["values"]), [(1410, "MMKernPair")])

# ------------------------------------------------------------------- glyphs

CMD = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}


def nodes_gen(c: Ctx, crd=coord, max_nodes=8, kinds=("move", "line", "curve", "qcurve")):
    """Arbitrary node sequences (not necessarily well-formed contours)."""

    def node(kind):
        n = 3 if kind == "curve" else 1
        return st.fixed_dictionaries(
            {
                "type": st.just(kind),
                "flags": st.integers(0, 15),
                "points": st.lists(st.lists(tup(crd, crd), min_size=n, max_size=n), min_size=c.masters, max_size=c.masters),
            }
        )

    return many(st.lists(st.sampled_from(kinds).flatmap(node), max_size=max_nodes), (108, 130, 300))


def outlines_enc(d, w, c):
    m = c.masters
    w.v(m)
    nodes = d.get("nodes") or []
    n = 0
    for nd in nodes:
        n += 1 + 2 * m * len(nd["points"][0])
    w.v(2 * n)
    w.v(len(nodes))
    pos = [(0, 0)] * m
    for nd in nodes:
        w.u8(nd["flags"] * 16 + CMD[nd["type"]])
        for j in range(len(nd["points"][0])):
            for i in range(m):
                x, y = nd["points"][i][j]
                w.v(x - pos[i][0], y - pos[i][1])
                pos[i] = (x, y)


TT = {
    1: ("AlignTop", ("pt", "zone")), 2: ("AlignBottom", ("pt", "zone")),
    3: ("SingleLinkH", ("pt1", "pt2", "stem", "align")), 4: ("SingleLinkV", ("pt1", "pt2", "stem", "align")),
    5: ("DoubleLinkH", ("pt1", "pt2", "stem")), 6: ("DoubleLinkV", ("pt1", "pt2", "stem")),
    7: ("AlignH", ("pt", "align")), 8: ("AlignV", ("pt", "align")),
    13: ("InterpolateH", ("pti", "pt1", "pt2", "align")), 14: ("InterpolateV", ("pti", "pt1", "pt2", "align")),
    20: ("MDeltaH", ("pt", "shift", "ppm1", "ppm2")), 21: ("MDeltaV", ("pt", "shift", "ppm1", "ppm2")),
    22: ("FDeltaH", ("pt", "shift", "ppm1", "ppm2")), 23: ("FDeltaV", ("pt", "shift", "ppm1", "ppm2")),
}
TTREV = {v[0]: k for k, v in TT.items()}


def tth_gen(v=val):
    return many(st.lists(
        st.sampled_from(sorted(TT)).flatmap(lambda k: fd(cmd=st.just(TT[k][0]), params=fd(**{p: v for p in TT[k][1]}))),
        min_size=1, max_size=6))


# (bytecode, assembly) pairs: plain opcodes and push instructions
_OPS = [(b"\x00", "SVTCA[0]"), (b"\x01", "SVTCA[1]"), (b"\x39", "IP[ ]"), (b"\x30", "IUP[0]"), (b"\x31", "IUP[1]"),
        (b"\x2b", "CALL[ ]"), (b"\x2f", "MDAP[1]"), (b"\x20", "DUP[ ]"), (b"\x21", "POP[ ]"), (b"\x60", "ADD[ ]")]


def imported_gen(c):
    push = st.lists(u8, min_size=1, max_size=8).map(lambda l: (bytes([0xB0 + len(l) - 1, *l]), None))
    prog = lists(st.one_of(st.sampled_from(_OPS), push), 6).map(lambda l: b"".join(x[0] for x in l))

    def build(w, lsb, u, bbox, comp, ends, nodes, code, hdmx):
        d = {"width": w, "lsb": lsb, "unknown1": u[0], "unknown2": u[1], "unknown3": u[2], "bbox": bbox,
             "num_contours": -1 if comp else len(ends), "endpoints": [] if comp else ends, "code": code, "hdmx": hdmx}
        if nodes:
            d["nodes"] = [{"flags": f, "on": f & 1, "point": p} for f, p in nodes]
        return d

    return st.builds(build, uval, val, tup(val, val, val), st.lists(val, min_size=4, max_size=4), st.booleans(),
                     lists(uval), lists(tup(u8, tup(coord, coord)), 6), prog, lists(u8, 6))


def imported_enc(d, w):
    w.u8(9)
    w.u8(0x29).v(d["width"], d["lsb"], d["unknown1"], d["unknown2"], d["unknown3"], *d["bbox"])
    w.u8(0x2A).v(d["num_contours"], *d["endpoints"])
    nodes = d.get("nodes", [])
    w.v(len(nodes))
    px = py = 0
    for n in nodes:
        x, y = n["point"]
        w.v(x - px, y - py).u8(n["flags"])
        px, py = x, y
    w.u8(0x2B).v(len(d["code"])).raw(d["code"])
    w.u8(0x2C).v(len(d["hdmx"])).u8(*d["hdmx"])
    w.u8(0x28)


def glyph_gen(c: Ctx, name=glyph_name, crd=coord, nodes=None, part=None):
    m = c.masters

    def per_master(s):
        return st.lists(s, min_size=m, max_size=m)

    hint = per_master(fd(pos=val, width=val))
    mask = tup(st.sampled_from("hvr"), val)
    hints = st.builds(
        lambda h, v, k: {"v": v, "h": h, **({"hintmasks": k} if k else {})}, lists(hint, 3), lists(hint, 3), lists(mask, 5)
    ).filter(lambda d: d["h"] or d["v"] or d.get("hintmasks"))
    comp = fd(gid=val, offsetX=per_master(val), offsetY=per_master(val), scaleX=per_master(dbl), scaleY=per_master(dbl))
    req = {
        "name": name,
        "num_masters": st.just(m),
        "nodes": nodes if nodes is not None else nodes_gen(c, crd),
    }
    opt = {
        "metrics": per_master(tup(val, val)),
        "hints": hints,
        "guides": guides_gen(c),
        "components": many(st.lists(comp, min_size=1, max_size=3), (108, 130)),
        "kerning": st.dictionaries(val, per_master(val), min_size=1, max_size=4),
        "imported": imported_gen(c),
        "tth": tth_gen(),
    }
    if part is not None:
        if part != "nodes":
            req["nodes"] = nodes_gen(c, crd, max_nodes=1)
            req[part] = opt[part]
        return fd(**req)
    return fdo(req, opt)


def glyph_enc(d, w, c):
    m = c.masters
    w.u8(1, 9, 7, 1)
    if d.get("name"):
        w.u8(1).s(d["name"])
    w.u8(8)
    outlines_enc(d, w, c)
    if "metrics" in d:
        w.u8(2)
        for x, y in d["metrics"]:
            w.v(x, y)
    if "hints" in d:
        w.u8(3)
        for k in "hv":
            w.v(len(d["hints"][k]))
            for h in d["hints"][k]:
                for x in h:
                    w.v(x["pos"], x["width"])
        masks = d["hints"].get("hintmasks", [])
        w.v(len(masks))
        for k, v in masks:
            w.u8({"h": 1, "v": 2, "r": 255}[k]).v(v)
    if "guides" in d:
        w.u8(4)
        guides_enc(d["guides"], w, c)
    if "components" in d:
        w.u8(5).v(len(d["components"]))
        for x in d["components"]:
            w.v(x["gid"])
            for i in range(m):
                w.v(x["offsetX"][i], x["offsetY"][i]).p("dd", x["scaleX"][i], x["scaleY"][i])
    if "kerning" in d:
        w.u8(6).v(len(d["kerning"]))
        for k, vs in d["kerning"].items():
            w.v(k, *vs)
    if "imported" in d:
        imported_enc(d["imported"], w)
    if "tth" in d:
        t = W(None) if w.rnd is None else W(w.rnd.randrange(1 << 30), w.prob)
        t.v(len(d["tth"]))
        for cmd in d["tth"]:
            k = TTREV[cmd["cmd"]]
            t.u8(k).v(*[cmd["params"][p] for p in TT[k][1]])
        t.v(0, 0, 0)
        w.u8(10).v(len(t.get())).raw(t.get())
    w.u8(15)


def glyph_expect(d, c):
    d = dict(d)
    if "imported" in d:
        from fontTools.ttLib.tables.ttProgram import Program

        imp = dict(d["imported"])
        p = Program()
        p.fromBytecode(imp.pop("code"))
        imp["instructions"] = p.getAssembly()
        d["imported"] = imp
    return d


reg("glyph", "glyph", glyph_gen, glyph_enc, [(2001, "Glyph")], expect=glyph_expect)

# --- glyph-attached entries

reg("glyph", "links", lambda c: fd(x=lists(tup(val, val)), y=lists(tup(val, val))),
    lambda d, w, c: [(w.v(len(d[k])), [w.v(*p) for p in d[k]]) for k in "yx"], [(2008, "Links")])
reg("glyph", "sketch", lambda c: lists(tup(val, val, val), 8),
    lambda d, w, c: (w.v(len(d)), [w.v(*p) for p in d]), [(2019, "Glyph Sketch")])
_wv = val.map(lambda v: v / 100_000_000)


def _mask_enc(d, w, c):
    w.v(len(d["weight_vector"]), *[round(x * 100_000_000) for x in d["weight_vector"]])
    outlines_enc(d, w, c)


reg("glyph", "mask", lambda c: fd(weight_vector=lists(_wv, 4), num_masters=st.just(c.masters), nodes=nodes_gen(c)),
    _mask_enc, [(2009, "mask")])
reg("font", "gmask", lambda c: fd(num_masters=st.just(c.masters), nodes=nodes_gen(c)), outlines_enc, [(1295, "Global Mask")])
reg("glyph", "maskmetrics", lambda c: tup(i16, i16), lambda d, w, c: w.p("hh", *d), [(2011, "mask.metrics")])
reg("glyph", "maskmetricsmm", lambda c: st.lists(tup(val, val), min_size=c.masters - 1, max_size=c.masters - 1),
    lambda d, w, c: [w.v(*p) for p in d], [(2028, "mask.metrics_mm")])
reg("glyph", "origin", lambda c: fd(x=i16, y=i16), lambda d, w, c: w.p("hh", d["x"], d["y"]), [(2027, "Glyph Origin")])
reg("glyph", "uni", lambda c: lists(u16, 6), lambda d, w, c: w.p(f"{len(d)}H", *d), [(1250, "unicodes")])
reg("glyph", "uni32", lambda c: lists(u32, 6), lambda d, w, c: w.p(f"{len(d)}I", *d), [(1253, "Glyph Unicode Non-BMP")])
GC = ["unassigned", "base", "ligature", "mark", "component"]


def _gdef_enc(d, w, c):
    w.v(GC.index(d.get("glyph_class", "unassigned")))
    a = d.get("anchors", [])
    w.v(len(a))
    for x in a:
        w.s(x.get("name", "")).v(x["x"], -1, x["y"], -1)
    k = d.get("carets", [])
    w.v(len(k))
    for p in k:
        w.v(*p)
    o = d.get("ot_classes", [])
    w.v(len(o), *o)


reg("glyph", "gdef", lambda c: fdo({}, {
    "glyph_class": st.sampled_from(GC[1:]),
    "anchors": many(st.lists(fdo({"x": val, "y": val}, {"name": text1}), min_size=1, max_size=4)),
    "carets": many(st.lists(tup(val, val), min_size=1, max_size=4)),
    "ot_classes": many(st.lists(val, min_size=1, max_size=4))}), _gdef_enc, [(2018, "Glyph GDEF Data")])
reg("glyph", "anchorprops", lambda c: lists(fd(hue=val, data=val)),
    lambda d, w, c: (w.v(len(d)), [w.v(a["hue"], a["data"]) for a in d]), [(2020, "Glyph Anchors Supplemental")])


def _per(s, c):
    return st.lists(s, min_size=c.masters, max_size=c.masters)


reg("glyph", "anchorsmm", lambda c: lists(fd(x=_per(val, c), y=_per(val, c))),
    lambda d, w, c: (w.v(len(d), c.masters), [[w.v(a["x"][i], a["y"][i]) for i in range(c.masters)] for a in d]),
    [(2029, "Glyph Anchors MM")])

# --- bitmaps: reference run-length model


def rle_decode(b: bytes) -> list[int]:
    out, i = [], 0
    while i < len(b):
        n = b[i] - 256 if b[i] > 127 else b[i]
        i += 1
        if n >= 0:
            out += b[i : i + n + 1]
            i += n + 1
        else:
            out += [b[i]] * (-n + 1)
            i += 1
    return out


def rle_encode(flat: list[int]) -> bytes:
    """The writer's canonical form: runs of 3+ as repeats of at most 128, rest verbatim."""
    out = bytearray()
    verb: list[int] = []

    def flush():
        for i in range(0, len(verb), 128):
            ch = verb[i : i + 128]
            out.append(len(ch) - 1)
            out.extend(ch)
        verb.clear()

    i = 0
    while i < len(flat):
        j = i
        while j < len(flat) and flat[j] == flat[i]:
            j += 1
        n = j - i
        if n < 3:
            verb.extend(flat[i:j])
        else:
            flush()
            while n > 0:
                k = min(n, 128)
                out.append((1 - k) & 0xFF)
                out.append(flat[i])
                n -= k
        i = j
    flush()
    return bytes(out)


def rle_random(flat: list[int], rnd: random.Random) -> bytes:
    """Any valid encoding a foreign writer may choose (chunk sizes at random)."""
    out = bytearray()
    i = 0
    while i < len(flat):
        j = i
        while j < len(flat) and flat[j] == flat[i] and j - i < 129:
            j += 1
        run = j - i
        if run >= 2 and rnd.random() < 0.7:
            n = rnd.randint(2, run) if rnd.random() < 0.3 else run
            out.append((1 - n) & 0xFF)
            out.append(flat[i])
        else:
            n = min(rnd.choice([1, 2, 5, 128]), len(flat) - i)
            out.append(n - 1)
            out.extend(flat[i : i + n])
        i += n
    return bytes(out)


def bitmap_rows(w: int, h: int, runs: list[tuple[int, int]]) -> list[list[int]]:
    bpr = (w + 15) // 16 * 2
    flat: list[int] = []
    while len(flat) < bpr * h and runs:
        for v, n in runs:
            flat += [v] * n
    flat = flat[: bpr * h]
    return [flat[i : i + bpr] for i in range(0, len(flat), bpr)] if bpr else []


_runs = st.lists(tup(st.one_of(u8, st.sampled_from([0, 255])), st.one_of(st.integers(1, 4), st.sampled_from([127, 128, 129, 130, 256, 257]))), min_size=1, max_size=12)


def preview(rows: list[list[int]], w: int) -> list[str]:
    return ["".join("█▉" if ch == "1" else " ▕" for ch in "".join(f"{b:08b}" for b in r)[:w]) for r in rows]


def bmp_gen(c):
    dim = st.one_of(st.integers(1, 70), st.sampled_from([15, 16, 17, 31, 32, 33, 300]))
    return st.builds(lambda w, h, r: (w, h, bitmap_rows(w, h, r)), dim, dim, _runs)


def bmp_bytes(rows, w: W, c: Ctx):
    flat = [b for r in rows for b in r]
    if c.platform == "windows":
        flat = [255 - b for b in flat]
    b = rle_encode(flat) if w.rnd is None else rle_random(flat, w.rnd)
    w.v(len(b)).raw(b)


def _bg_gen(c):
    return st.builds(
        lambda o, s, b: {"origin": o, "size_units": s, "size_pixels": (b[0], b[1]),
                         "bitmap": {"data": b[2], "preview": preview(b[2], b[0])}},
        tup(val, val), tup(uval, uval), bmp_gen(c))


def _bg_enc(d, w, c):
    w.v(*d["origin"], *d["size_units"], *d["size_pixels"])
    bmp_bytes(d["bitmap"]["data"], w, c)


reg("glyph", "image", _bg_gen, _bg_enc, [(2007, "image")])


def _gb_gen(c):
    return lists(st.builds(
        lambda p, o, a, b: {"ppm": p, "origin": o, "adv": a, "size_pixels": (b[0], b[1]),
                            "bitmap": {"data": b[2], "preview": preview(b[2], b[0])}},
        uval, tup(val, val), tup(uval, uval), bmp_gen(c)), 3)


def _gb_enc(d, w, c):
    w.v(len(d))
    for b in d:
        w.v(b["ppm"], *b["origin"], *b["adv"], *b["size_pixels"])
        bmp_bytes(b["bitmap"]["data"], w, c)


reg("glyph", "bitmaps", _gb_gen, _gb_enc, [(2013, "Glyph Bitmaps")])


# ------------------------------------------------------------------ helpers


def encode(spec: Spec, data: Any, ctx: Ctx, seed: int | None = None) -> bytes:
    w = W(seed)
    spec.enc(data, w, ctx)
    return w.get()


ctxs = st.builds(
    Ctx,
    masters=st.one_of(st.just(1), st.sampled_from([1, 2, 4]), st.integers(1, 16)),
    platform=st.sampled_from(["windows", "macos"]),
    vstems=st.integers(0, 4),
    hstems=st.integers(0, 4),
)


def make_vfb(ctx: Ctx):
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.num_masters = ctx.masters
    vfb.writer_platform = ctx.platform
    vfb.ttStemsV_count = ctx.vstems
    vfb.ttStemsH_count = ctx.hstems
    return vfb


def entry(vfb, eid: int, data: Any):
    from vfbLib.vfb.entry import VfbEntry

    e = VfbEntry(vfb, eid=eid)
    e.data = data
    return e


HEADER = {"signature": 0x464C571A, "app_version": 0x31, "file_version": 0x30, "version_major": 3, "version_minor": 0x32}


def header_bytes(minor: int = 0x32, offset: int = 44, filler: bytes | None = None) -> bytes:
    pad = filler if filler is not None else b"\0" * (offset - 12)
    return struct.pack("<IBBBBI", 0x464C571A, 0x31, 0x30, 3, minor, offset) + pad


def entry_bytes(eid: int, data: bytes, force_long: bool = False) -> bytes:
    if len(data) > 0xFFFF or force_long:
        return struct.pack("<HI", eid | 0x8000, len(data)) + data
    return struct.pack("<HH", eid, len(data)) + data


def read_vfb(data: bytes, **kw):
    from io import BytesIO

    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False, **kw)
    v.read_bytes(BytesIO(data))
    return v


def write_vfb(v) -> bytes:
    from io import BytesIO

    b = BytesIO()
    v.write_bytes(b)
    return b.getvalue()
