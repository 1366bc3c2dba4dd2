from pathlib import Path

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.cli import scratch
from pbt.codec import codec_case, compile_, decompile
from pbt.common import Prop, check, eq, label, normalize

RULE = "Text over all characters of the Western Windows encoding (and all of Unicode for name records), with lengths around the boundaries of the length prefix, in every text-bearing entry type."
ASSUMPTIONS = [
    "NUL characters at the ends of plain strings are padding and not part of the text",
    "feature code is normalised to one kind of line break, with at most two consecutive empty lines",
    "the characters of the entry are in the Western Windows encoding; see the known finding for other encodings",
]

CP = "".join(bytes([i]).decode("cp1252", "ignore") for i in range(0x20, 256) if i != 0x7F)
_len = st.one_of(st.integers(0, 12), st.sampled_from([106, 107, 108, 109, 127, 128, 255, 256, 363, 364, 1131, 1132]))


@st.composite
def texts(draw, maxlen=None):
    n = draw(_len)
    if maxlen is not None:
        n = min(n, maxlen)
    core = draw(st.text(st.sampled_from(CP), max_size=12))
    if not core:
        core = draw(st.sampled_from(["a", "ä", "€", "é–x"]))
    mode = draw(st.integers(0, 2))
    if mode == 0:
        return core[:maxlen]
    return (core * (n // len(core) + 1))[:n]


T = texts()
z = m.small
STR = [e for e, s in m.SPECS.items() if s.kind == "str"]


def glyph(**kw):
    return {"name": "x", "num_masters": 1, "nodes": [], **kw}


# (name, strategy of (entry id, decompiled data))
KINDS = {
    "string": st.tuples(st.sampled_from(STR), T),
    "vendor": st.tuples(st.just(1121), texts(4)).filter(lambda x: x[1] == x[1].strip("\0")),
    "encoding": st.tuples(st.sampled_from([1500, 1501]), st.tuples(m.u16, T)),
    "glyph name": st.tuples(st.just(2001), T.filter(bool).map(lambda t: {"name": t, "num_masters": 1, "nodes": []})),
    "stem name": st.tuples(st.just(1269), st.lists(texts(255), max_size=3).map(
        lambda l: {"ttStemsV": [{"value": 1, "name": t, "round": {6: 3}} for t in l], "ttStemsH": []})),
    "zone name": st.tuples(st.just(1255), st.lists(T, max_size=3).map(
        lambda l: {"ttZonesT": [{"position": 5, "value": 1, "name": t} for t in l], "ttZonesB": []})),
    "anchor": st.tuples(st.just(2018), st.lists(T.filter(bool), min_size=1, max_size=3).map(
        lambda l: {"anchors": [{"x": 1, "y": -2, "name": t} for t in l]})),
    "class flags m": st.tuples(st.just(2024), st.dictionaries(T, st.tuples(z, z, z), max_size=3)),
    "class flags k": st.tuples(st.just(2026), st.dictionaries(T, st.tuples(z, z), max_size=3)),
    "cmap page": st.tuples(st.just(1141), st.lists(T, max_size=3).map(
        lambda l: [{"language_id": 0, "platform_id": 3, "encoding_id": 1, "format": 4, "option": 0, "page_name": t} for t in l])),
    "instance": st.tuples(st.just(1254), st.lists(T, max_size=3).map(
        lambda l: [{"name": t, "values": (1.0, 0.5, 0.0, 0.0)} for t in l])),
    "guide name": st.tuples(st.sampled_from([1296, 2031]), st.lists(T.filter(bool), max_size=3).map(
        lambda l: {"h": [{"index": i + 1, "name": t} for i, t in enumerate(l)], "v": []})),
    "features": st.tuples(st.just(1276), st.lists(T, max_size=4).map(m.norm_lines)),
    "tag": st.tuples(st.just(2014), st.fixed_dictionaries({"tag": st.text(st.sampled_from(CP), min_size=4, max_size=4), "data": m.hexdata})),
}


@st.composite
def cases(draw, kinds=None):
    k = draw(st.sampled_from(kinds or sorted(KINDS)))
    eid, data = draw(KINDS[k])
    ctx = m.Ctx(1, draw(st.sampled_from(["windows", "macos"])))
    return k, eid, data, ctx, draw(st.one_of(st.none(), st.integers(0, 2**16)))


def text_case(case):
    k, eid, data, ctx, seed = case
    label(k)
    if k == "tag":
        raw = data["tag"].encode("cp1252") + bytes.fromhex(data["data"])
        eq(decompile(ctx, eid, raw), data, "tagged table")
        check(compile_(ctx, eid, data) == raw, "tagged table bytes")
        return
    codec_case((eid, ctx, data, seed))


def all_texts(d):
    if isinstance(d, str):
        return [d]
    if isinstance(d, dict):
        return [t for k, v in d.items() for t in ([k] if len(d) and not isinstance(v, (str, int)) else []) + all_texts(v)]
    if isinstance(d, (list, tuple)):
        return [t for v in d for t in all_texts(v)]
    return []


def nt(case):
    return any(ord(ch) > 127 for t in all_texts(case[2]) for ch in t)


def bytes_case(case):
    """Any stored bytes of a plain string come back as they were, in whole files too."""
    eid, b, platform, other = case
    ctx = m.Ctx(1, platform)
    text = b.decode("cp1252")
    eq(decompile(ctx, eid, b), text, f"text of entry {eid}")
    check(compile_(ctx, eid, text) == b, "text compiled to different bytes")
    f = m.header_bytes()
    f += m.entry_bytes(10, m.encode(m.SPECS[10], {"platform": platform, "version": (5, 0, 0, 0), "owner": 1}, ctx))
    f += m.entry_bytes(1503, b"\1\0") + m.entry_bytes(eid, b) + m.entry_bytes(2, b"")
    v = m.read_vfb(f)
    v.decompile()
    eq(v.entries[2].data, text, "text in a whole file")
    check(m.write_vfb(v) == f, "whole file with text differs")
    v = m.read_vfb(f)
    v.entries[2].decompile()
    v.entries[2].data = other
    eq(c.parse(m.write_vfb(v))[1][2], (eid, other.encode("cp1252")), "changed text in a whole file")


_raw = st.binary(max_size=300).map(lambda b: bytes(x for x in b if x not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)).strip(b"\0"))


def names_case(recs):
    """Name records: Mac Roman codes for Mac records, Unicode codes for all others."""
    w = m.W()
    w.v(len(recs))
    want = []
    for nid, pid, enc, lang, codes in recs:
        mac = (pid, enc) == (1, 0)
        codes = [x % 256 for x in codes] if mac else codes
        w.v(nid, pid, enc, lang, len(codes), *codes)
        text = bytes(codes).decode("macroman") if mac else "".join(map(chr, codes))
        want.append((nid, pid, enc, lang, text))
        label("mac" if mac else "unicode")
    got = decompile(m.Ctx(), 1138, w.get())
    eq(got, want, "name records")
    check(compile_(m.Ctx(), 1138, want) == w.get(), "name records compiled to different bytes")
    check(compile_(m.Ctx(), 1138, got) == w.get(), "name records recompiled to different bytes")


_codes = st.lists(st.one_of(st.integers(0x20, 0xFF), st.integers(0, 0x10FFFF), st.sampled_from([0, 0xFF, 0x100, 0xFFFF, 0x10000])), max_size=20)
names = st.lists(st.tuples(m.val, st.sampled_from([1, 1, 3, 0]), st.sampled_from([0, 0, 1, 10]), m.val, _codes), max_size=4)


def unencodable_case(case):
    """Text the file cannot hold is reported, never silently replaced; the old file survives."""
    eid, bad, pre = case
    data = {"string": pre + bad}.get("string")
    f = m.header_bytes() + m.entry_bytes(1503, b"\1\0") + m.entry_bytes(eid, b"old text") + m.entry_bytes(2, b"")
    with scratch() as d:
        p = Path(d) / "a.vfb"
        p.write_bytes(f)
        v = m.read_vfb(f)
        v.entries[1].data = data
        try:
            v.write(p)
        except (UnicodeError, ValueError):
            check(p.read_bytes() == f, "a failed write damaged the file")
            return
        check(False, f"text {data!r} was written as {c.parse(p.read_bytes())[1][1][1]!r} without any error")


FIXED = {1136: {"typeface": (16, "\0"), "file_name": (6, "\0")}, 2014: {"tag": (4, " ")}}


@st.composite
def fixed_fields(draw):
    eid = draw(st.sampled_from(sorted(FIXED)))
    ctx = draw(m.ctxs)
    text = st.text(m._lat, max_size=24)
    return eid, ctx, draw(m.SPECS[eid].gen(ctx)), draw(st.fixed_dictionaries({}, optional={k: st.one_of(text, st.text(m._lat, max_size=n)) for k, (n, _) in FIXED[eid].items()}))


def fixed_case(case):
    """Text of another length in a field of fixed size: padded or refused, the other fields stay."""
    eid, ctx, data, new = case
    want = m.SPECS[eid].expect(data, ctx)
    edited = {**want, **new}
    fits = all(len(t) <= FIXED[eid][k][0] for k, t in new.items())
    e = m.entry(m.make_vfb(ctx), eid, dict(edited))
    try:
        e.compile()
    except (ValueError, UnicodeError):
        check(not fits, f"entry {eid}: text that fits is refused: {new!r}")
        label("refused")
        return
    check(fits, f"entry {eid}: text that does not fit was written: {new!r}")
    label("fits")
    padded = {**want, **{k: t.ljust(*FIXED[eid][k]) for k, t in new.items()}}
    eq(normalize(decompile(ctx, eid, e.data)), normalize(padded), f"entry {eid} with edited text")


_bad = st.characters(exclude_categories=["Cs"]).filter(lambda ch: not ch.encode("cp1252", "ignore"))


def _mac_file(platform, b, **kw):
    f = m.header_bytes()
    f += m.entry_bytes(10, m.encode(m.SPECS[10], {"platform": platform, "version": (5, 0, 0, 0), "owner": 1}, m.Ctx(1, platform)))
    return m.read_vfb(f + m.entry_bytes(1026, b) + m.entry_bytes(2, b""), **kw)


def probe_platform_encoding():
    v = _mac_file("macos", "é".encode("utf-8"))
    v.entries[1].decompile()
    w = _mac_file("windows", "é".encode("utf-8"), unicode_strings=True)
    w.entries[1].decompile()
    return v.entries[1].data != "é" or w.entries[1].data != "é"


def probe_undefined_bytes():
    v = _mac_file("macos", "Í".encode("utf-8"))  # contains byte 0x8d
    try:
        v.entries[1].decompile()
    except UnicodeDecodeError:
        return True
    return False


def props(tier):
    r = "one text-bearing entry type, its texts over all characters of the encoding; non-trivial with a non-ASCII character"
    return [
        Prop("types-1", cases(), text_case, 2500, 40000, nt, r),
        Prop("types-2", cases(), text_case, 2500, 40000, nt, r),
        Prop("types-3", cases(["stem name", "zone name", "anchor", "class flags k", "class flags m", "instance", "encoding", "glyph name", "cmap page", "guide name"]), text_case, 2500, 40000, nt, r),
        Prop("bytes", st.tuples(st.sampled_from(STR), _raw, st.sampled_from(["windows", "macos"]), m.text), bytes_case, 2000, 30000,
             lambda k: any(x > 127 for x in k[1]), "arbitrary stored bytes of a string entry, in a whole file of either platform; non-trivial with a non-ASCII byte"),
        Prop("every-char", None, bytes_case, 0, 0, fixed=[(e, (ch * n).encode("cp1252"), p, "x") for ch in CP if ch != " " for e, p, n in ((1026, "windows", 1), (2017, "macos", 2))],
             rule="every single character of the encoding"),
        Prop("names", names, names_case, 2000, 30000, lambda k: len(k) > 0, "up to 4 name records with arbitrary codes; non-trivial with at least one"),
        Prop("fixed-size", fixed_fields(), fixed_case, 800, 8000, lambda k: bool(k[3]), "an entry with text fields of fixed size, at least one of them edited"),
        Prop("unencodable", st.tuples(st.sampled_from(STR), _bad, m.text), unencodable_case, 500, 5000,
             lambda k: True, "a character outside of the encoding in a string entry"),
    ]
