import math
from datetime import datetime, timedelta

from hypothesis import strategies as st

from pbt import cli, real, ufo
from pbt import font as f
from pbt import model as m
from pbt.common import Prop, check, eq, label

RULE = "Fonts with up to 60 font info entries each present or absent with any value the file format can store (and, for half of the values, one the UFO can hold), exported in memory and to disk; expected values from a table of the documented correspondence, everything else equal to an export without font info."
ASSUMPTIONS = [
    "text has no control characters except tab and line breaks outside of the property about them; line breaks are compared modulo their encoding on disk",
    "the correspondence table: entries without UFO counterpart (slant angle, charset, weight and width names, mac compatible name) are not exported",
    "the UFO normalizer rounds fractional numbers to 10 decimals",
    "values the UFO cannot hold may be changed or dropped",
]
ANY = object()
ATTRS = None

text = st.text(st.sampled_from(m.ASCII + m.LATIN + "\t\n"), max_size=20)
STR = {
    1026: ["postscriptFontName"], 1025: ["postscriptFullName"], 1027: ["styleMapFamilyName"],
    1024: ["familyName", "openTypeNamePreferredFamilyName"], 1137: ["styleName", "openTypeNamePreferredSubfamilyName"],
    1127: ["postscriptWeightName"], 1037: ["copyright"], 1038: ["openTypeNameDescription"], 1039: ["openTypeNameManufacturer"],
    1061: ["trademark"], 1062: ["openTypeNameDesigner"], 1063: ["openTypeNameDesignerURL"], 1064: ["openTypeNameManufacturerURL"],
    1069: ["openTypeNameLicense"], 1070: ["openTypeNameLicenseURL"], 1092: ["macintoshFONDName"], 1140: ["openTypeNameSampleText"],
    1129: ["openTypeNameUniqueID"], 1128: ["openTypeNameVersion"], 2025: ["note"], 1066: ["postscriptDefaultCharacter"],
    1121: ["openTypeOS2VendorID"],
    # without counterpart
    1046: [], 1028: [], 1065: [], 1139: [], 1056: [],
}
INT = {
    1130: ("versionMajor", m.u16), 1131: ("versionMinor", m.u16), 1132: ("year", m.u16), 1135: ("unitsPerEm", m.u16),
    1090: ("macintoshFONDFamilyID", m.u16), 1044: ("postscriptUniqueID", m.i32), 1278: ("openTypeHheaAscender", m.i16),
    1279: ("openTypeHheaDescender", m.i16), 1270: ("openTypeHheaLineGap", m.u16), 1029: ("italicAngle", m.dbl),
    1054: (None, m.u16), 1047: (None, m.dbl),
}
NUMS = [(1530, "blue_values", "postscriptBlueValues", 14), (1531, "other_blues", "postscriptOtherBlues", 10),
        (1532, "family_blues", "postscriptFamilyBlues", 14), (1533, "family_other_blues", "postscriptFamilyOtherBlues", 10),
        (1534, "stem_snap_h", "postscriptStemSnapH", 12), (1535, "stem_snap_v", "postscriptStemSnapV", 12)]
TT = {
    "os2_y_subscript_x_size": "SubscriptXSize", "os2_y_subscript_y_size": "SubscriptYSize",
    "os2_y_subscript_x_offset": "SubscriptXOffset", "os2_y_subscript_y_offset": "SubscriptYOffset",
    "os2_y_superscript_x_size": "SuperscriptXSize", "os2_y_superscript_y_size": "SuperscriptYSize",
    "os2_y_superscript_x_offset": "SuperscriptXOffset", "os2_y_superscript_y_offset": "SuperscriptYOffset",
    "os2_y_strikeout_size": "StrikeoutSize", "os2_y_strikeout_position": "StrikeoutPosition",
    "os2_s_typo_ascender": "TypoAscender", "os2_s_typo_descender": "TypoDescender", "os2_s_typo_line_gap": "TypoLineGap",
}


def mix(good, anyv):
    return st.booleans().flatmap(lambda b: good if b else anyv)


def bits(allowed, anyv):
    return mix(st.sets(st.sampled_from(allowed)).map(lambda s: sum(1 << b for b in s)), anyv)


@st.composite
def ttinfo(draw):
    d = {k: draw(st.integers(0, 20)) for _, k in m.TTI}
    d["head_flags"] = {"flags": sorted(draw(st.sets(st.integers(0, 15)))), "options": []}
    d["OpenTypeOS2Panose"] = draw(st.lists(m.u8, min_size=10, max_size=10))
    d["Codepages"] = {f"os2_ul_code_page_range{i}": draw(m.uval) for i in (1, 2)}
    small = {
        "os2_us_width_class": mix(st.integers(1, 9), m.val), "os2_fs_type": bits([0, 1, 2, 3, 8, 9], m.val),
        "os2_s_family_class": mix(st.builds(lambda a, b: a * 256 + b, st.integers(0, 15), st.integers(0, 16)), m.val),
        "head_lowest_rec_ppem": mix(st.integers(0, 40), m.val), "os2_us_win_ascent": mix(st.integers(0, 3000), m.val),
        "os2_us_win_descent": mix(st.integers(0, 3000), m.val),
    }
    for _, k in m.TTI_OPT1 + m.TTI_OPT2 + m.TTI_OPT3:
        if draw(st.integers(0, 3)):
            d[k] = draw(small.get(k, m.val))
    return d


names = st.lists(st.tuples(st.integers(0, 300), st.integers(1, 5), st.integers(0, 20), st.integers(0, 0x500), st.text(st.sampled_from(m.ASCII + "\n"), max_size=20)), max_size=3)
gasp = st.lists(st.fixed_dictionaries({"maxPpem": m.u16, "flags": mix(st.integers(0, 15), m.u16)}), max_size=4)


@st.composite
def info_fonts(draw, axes=(0,) * 7 + (1, 1, 1, 2, 2, 2, 3, 4), ints=st.integers(-500, 1500)):
    font = draw(f.fonts(parts=frozenset(["guides"]), axes=axes, max_glyphs=1))
    font["ps"] = [f.psinfo(draw, values=ints) for _ in range(font["n"])]
    if draw(st.integers(0, 9)) == 0:
        font["num_ps"] = draw(st.integers(0, font["n"] - 1))  # the others have none
    head = {}

    def some(eid, s, often=2):
        if draw(st.integers(0, often)):
            head[eid] = draw(s)

    for eid in STR:
        some(eid, st.text(st.sampled_from(m.ASCII), max_size=6) if eid == 1121 else text)
    for eid, (_, s) in INT.items():
        some(eid, s)
    some(1030, m.i16)
    some(1031, mix(st.integers(0, 300), m.u16))
    some(1034, mix(st.integers(0, 1), m.u16))
    some(1048, mix(st.integers(1, 1000), m.i16))
    some(1118, mix(st.lists(st.integers(0, 15), min_size=10, max_size=10), st.lists(st.integers(-128, 127), min_size=10, max_size=10)))
    some(1138, names)
    some(1264, ttinfo(), 4)
    some(1265, mix(gasp.map(lambda l: sorted(l, key=lambda r: r["maxPpem"])), gasp))
    some(1267, mix(st.sampled_from([0, 1, 32, 33, 64]), m.u16))
    some(2021, st.sets(st.integers(0, 127)).map(sorted))
    for eid, _, _, n in NUMS:
        some(eid, mix(st.integers(0, n // 2).map(lambda x: x * 2), st.integers(0, n)), 3)
    order = draw(st.permutations(sorted(head)))
    font["head"] = [(eid, head[eid]) for eid in order]
    font["info"] = head
    return font


def vendor(s):
    return s.ljust(4, "\0").rstrip("\0") if len(s) < 4 else s


def created(v):
    t = max(v & 0xFFFFFFFF, 2082841200) - 2082841200
    return (datetime(1970, 1, 1) + timedelta(seconds=t)).strftime("%Y/%m/%d %H:%M:%S")


def _bits(v, allowed):
    return [b for b in allowed if v >> b & 1]


def expected(font, i, minimal, hints):
    """Attribute values of master i that follow from the entries of the file."""
    h, ps = font["info"], font["ps"][i]
    x = {}
    for eid, attrs in STR.items():
        if eid in h:
            for a in attrs:
                x[a] = h[eid]
    for eid, (a, _) in INT.items():
        if eid in h and a:
            x[a] = h[eid]
    if 1031 in h:
        x["postscriptUnderlineThickness"] = h[1031]
    if 1030 in h or 1031 in h:
        mid = h.get(1030, 0) + h.get(1031, 0) / 2
        x["postscriptUnderlinePosition"] = lambda v: abs(v - mid) <= 0.5 and isinstance(v, int)
    if 1034 in h:
        x["postscriptIsFixedPitch"] = bool(h[1034])
    if 1048 in h:
        x["openTypeOS2WeightClass"] = min(max(h[1048], 1), 1000)
    if 1118 in h:
        x["openTypeOS2Panose"] = [b & 0xFF for b in h[1118]]
    if 1138 in h:
        x["openTypeNameRecords"] = [dict(zip(("nameID", "platformID", "encodingID", "languageID", "string"), r)) for r in h[1138]]
    if 1265 in h:
        x["openTypeGaspRangeRecords"] = [
            {"rangeMaxPPEM": r["maxPpem"], "rangeGaspBehavior": _bits(r["flags"], range(4))} for r in sorted(h[1265], key=lambda r: r["maxPpem"])]
    if 1267 in h:
        v = h[1267]
        x["openTypeOS2Selection"] = _bits(v, (1, 2, 3, 4, 7, 8, 9))
        sm = {1: "italic", 32: "bold", 33: "bold italic", 64: "regular"}.get(v & 0x61)
        if sm:
            x["styleMapStyleName"] = sm
        elif v & 0x61:
            x["styleMapStyleName"] = ANY
    if 2021 in h:
        x["openTypeOS2UnicodeRanges"] = h[2021]
    if 1264 in h:
        d = h[1264]
        for k, a in TT.items():
            if k in d:
                x["openTypeOS2" + a] = d[k]
        for k, a, ok in (("os2_us_width_class", "openTypeOS2WidthClass", range(1, 10)),
                         ("head_lowest_rec_ppem", "openTypeHeadLowestRecPPEM", range(2**32)),
                         ("os2_us_win_ascent", "openTypeOS2WinAscent", range(2**32)),
                         ("os2_us_win_descent", "openTypeOS2WinDescent", range(2**32))):
            if k in d:
                x[a] = d[k] if d[k] in ok else ANY
        if "os2_fs_type" in d:
            x["openTypeOS2Type"] = _bits(d["os2_fs_type"], (0, 1, 2, 3, 8, 9))
        if "os2_s_family_class" in d:
            a, b = d["os2_s_family_class"] >> 8, d["os2_s_family_class"] & 255
            x["openTypeOS2FamilyClass"] = [a, b] if 0 <= a <= 14 and b <= 15 else ANY
        if "head_creation" in d:
            x["openTypeHeadCreated"] = created(d["head_creation"])
        if d.get("Average Width"):
            x["postscriptNominalWidthX"] = abs(d["Average Width"])
        x["openTypeHeadFlags"] = [b for b in d["head_flags"]["flags"] if b < 15]
        cp = d["Codepages"]
        x["openTypeOS2CodePageRanges"] = [32 * j + b for j in (0, 1) for b in range(32) if cp[f"os2_ul_code_page_range{j + 1}"] >> b & 1]
    have_ps = i < font.get("num_ps", font["n"])
    for k, a in (("ascender", "ascender"), ("descender", "descender"), ("x_height", "xHeight"), ("cap_height", "capHeight")):
        if have_ps:
            x[a] = ps[k]
    if hints and have_ps:
        for k, a in (("blue_scale", "postscriptBlueScale"), ("blue_shift", "postscriptBlueShift"), ("blue_fuzz", "postscriptBlueFuzz")):
            x[a] = ps[k]
        x["postscriptForceBold"] = bool(ps["force_bold"])
        for eid, k, a, _ in NUMS:
            if h.get(eid):
                n = h[eid]
                x[a] = ps[k][:n - n % 2 if "lue" in a else n]
    if minimal:  # without data that is not needed for the outlines and features
        x.pop("note", None)
    return x


def attrs():
    from fontTools.ufoLib import fontInfoAttributesVersion3

    return sorted(fontInfoAttributesVersion3 - {"guidelines"})


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, str):
        return v.replace("\r\n", "\n").replace("\r", "\n")
    if v is None or isinstance(v, (bool, float, dict)):
        return {k: plain(x) for k, x in v.items()} if isinstance(v, dict) else v
    if hasattr(v, "__attrs_attrs__"):
        return {a.name: plain(getattr(v, a.name)) for a in v.__attrs_attrs__}
    return int(v)


def empty(v):
    return None if v == [] or v == "" else v


def compare(info, font, i, minimal, hints, base, eps=0.0):
    want = expected(font, i, minimal, hints)
    for a in attrs():
        got = empty(plain(getattr(info, a, None)))
        if a not in want:
            eq(got, empty(plain(getattr(base, a, None))), f"master {i}: {a}, which no entry sets")
            continue
        w = want[a]
        if w is ANY:
            continue
        if callable(w):
            check(w(got), lambda: f"master {i}: {a} is {got!r}")
        elif isinstance(w, float) and got is not None:
            check(math.isclose(got, w, rel_tol=1e-12, abs_tol=eps), lambda: f"master {i}: {a} is {got!r}, expected {w!r}")
        else:
            eq(got, empty(plain(w)), f"master {i}: {a}")


def blank(font):
    return {"axes": font["axes"], "n": font["n"], "head": [], "tail": [], "ps": None, "master_names": font["master_names"], "glyphs": [], "num_ps": font.get("num_ps", font["n"])}


NEUTRAL = {"openTypeOS2WeightClass": 400, "openTypeOS2WidthClass": 5, "openTypeOS2FamilyClass": [0, 0]}


def neutral_case(case):
    """What no entry says is left out or neutral."""
    n, minimal, hints, num_ps = case
    font = {**blank({"axes": (n - 1).bit_length(), "n": n, "num_ps": num_ps, "master_names": [f"m{i}" for i in range(n)]})}
    for i, u in enumerate(f.export(font, f.vfb_of(font, minimal=minimal), minimal=minimal, pshints=hints)):
        for a in attrs():
            got = empty(plain(getattr(u.info, a, None)))
            if got is None or isinstance(got, str) or a == "postscriptBlueScale":
                continue
            check(got == NEUTRAL.get(a, 0), lambda: f"master {i}: {a} is {got!r}, which no entry says")


def memory_case(case):
    font, minimal, hints = case
    label(f"{font['n']} masters")
    kw = {"minimal": minimal, "pshints": hints}
    base = f.export(blank(font), **kw)
    ms = f.export(font, f.vfb_of(font, minimal=minimal), **kw)
    eq(len(ms), font["n"], "number of masters")
    for i, u in enumerate(ms):
        compare(u.info, font, i, minimal, hints, base[i].info)


def disk_case(case):
    """The UFO is valid: it is written with validation and read by an independent library."""
    font, hints = case
    base = f.export(blank(font), pshints=hints)
    with cli.scratch() as d:
        f.builder(font, pshints=hints).write(d / "Font.ufo", silent=True)
        for i in range(font["n"]):
            v = ufo.read(d / (f"Font-{i}.ufo" if i else "Font.ufo"))
            compare(v["info"], font, i, False, hints, base[i].info, 1e-9)


control = st.text(st.sampled_from("ab" + "".join(map(chr, range(32)))), min_size=1, max_size=12)


@st.composite
def control_fonts(draw):
    font = draw(info_fonts(axes=(0,)))
    for k in draw(st.sets(st.sampled_from(sorted(STR)), min_size=1, max_size=4)):
        if k != 1121:
            font["info"][k] = draw(control)
    if 1138 in font["info"]:
        font["info"][1138] = [(*r[:4], draw(control)) for r in font["info"][1138]]
    font["head"] = [(k, font["info"][k]) for k in sorted(font["info"])]
    return font


def control_case(font):
    with cli.scratch() as d:
        f.builder(font).write(d / "Font.ufo", silent=True)
        v = ufo.read(d / "Font.ufo")
        for k, s in font["info"].items():
            for a in STR.get(k, []):
                got = getattr(v["info"], a, None) or ""
                it = iter(plain(s))
                check(all(c in it for c in got), lambda: f"{a} is {got!r} for {s!r}")
                keep = [c for c in plain(s) if c >= " "]
                eq([c for c in got if c >= " "], keep, f"printable characters of {a}")


def nt(case):
    return len((case if isinstance(case, dict) else case[0])["head"]) > 8


def props(tier):
    b = st.booleans()
    r = "a font with more than 8 font info entries"
    return [
        Prop("memory", st.tuples(info_fonts(), st.sampled_from([False, False, True]), b), memory_case, 1500, 20000, nt, r),
        Prop("neutral", None, neutral_case, 0, 0, fixed=[(n, a, b, p) for n in (1, 2, 4) for a in (False, True) for b in (False, True) for p in (0, n)], rule="fonts without any font info"),
        Prop("real", st.tuples(real.fonts(max_glyphs=1), st.sampled_from([False, False, True]), b), memory_case, 100, 1000, nt, r + " of a real file"),
        Prop("disk", st.tuples(info_fonts(axes=(0, 0, 0, 1)), b), disk_case, 700, 8000, nt, r + ", written and read back"),
        Prop("extreme", st.tuples(info_fonts(axes=(0,), ints=m.i32), b), disk_case, 300, 4000, nt, r + " and PostScript values up to 32 bit"),
        Prop("control", control_fonts(), control_case, 300, 3000, nt, r + ", some with control characters"),
    ]
