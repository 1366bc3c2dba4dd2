import json
from copy import deepcopy
from io import BytesIO

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.checks.c10 import damaged
from pbt.codec import approx, eqa
from pbt.common import DATA, Prop, check, eq, label, normalize

RULE = "Whole files of up to 12 decompilable entries whose content is generated from the reference model (any master count, platform, stem counts, non-shortest spellings)."
ASSUMPTIONS = ["entry contents are within the domains of C02-C05"]


@st.composite
def files(draw, eids=None):
    ctx, ents = draw(c.soup(max_entries=draw(st.sampled_from([1, 4, 12])), eids=eids))
    return {"ctx": ctx, "entries": ents, "seed": draw(st.one_of(st.none(), st.integers(0, 2**16))),
            "minor": draw(m.u8), "pick": draw(st.integers(0, 2**12))}


@st.composite
def large_files(draw):
    """A file with one entry whose size is near the limit of the short entry header."""
    f = draw(files())
    eid = draw(st.sampled_from([1026, 1038, 1025, 1046]))
    text = draw(st.sampled_from("aZ. ")) * draw(st.sampled_from([0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x12345]))
    i = draw(st.integers(2, len(f["entries"]) - 1))
    f["entries"].insert(i, (eid, text))
    return f


def large_case(f):
    whole_case(f)
    scratch_case(f)


# Entries whose encoding depends on the number of masters, of TrueType stems or on the platform
CONTEXT = [2007, 2013, 1270, 1294, 1295, 1410, 1296, 1604, 2001, 2009, 2010, 2014, 2016, 2023, 2029]
CONTEXT = [i for i in CONTEXT if i in m.SPECS]


def reuse_case(case):
    """The object has read, and perhaps changed or failed to read, another file before."""
    a, b, cut = case
    data = c.file_bytes(a["ctx"], a["entries"])
    if cut:
        data = data[: len(data) * cut // 8]
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    try:
        v.read_bytes(BytesIO(data))
        if a["pick"] & 1:
            v.decompile()
            list(v.keys())
        if a["pick"] & 2:
            m.write_vfb(v)
    except Exception as e:  # noqa: BLE001 - C10 decides how it may fail
        check(cut, "a valid file is refused")
        label(f"the first file is refused: {type(e).__name__}")
    whole_case(b, v)


def whole_case(f, v=None):
    ctx, ents = f["ctx"], f["entries"]
    want = c.expected(ctx, ents)
    canonical = c.file_bytes(ctx, ents, None, f["minor"])
    b = c.file_bytes(ctx, ents, f["seed"], f["minor"])
    if v is None:
        v = m.read_vfb(b)
    else:
        v.read_bytes(BytesIO(b))
    v.decompile()
    check(not v.any_errors, "error flag set on a valid file")
    eq([e.id for e in v.entries], [w[0] for w in want], "entry ids")
    for e, (eid, w) in zip(v.entries, want):
        eqa(normalize(e.data), normalize(w), f"entry {eid}")
        eq(e.key, m.SPECS[eid].name, "entry key")
    d = v.as_dict()
    eqa(normalize([x["decompiled"] for x in d["entries"]]), normalize([w for _, w in want]), "as_dict entries")
    eq([x["key"] for x in d["entries"]], [m.SPECS[w[0]].name for w in want], "as_dict keys")
    eq(normalize(d["header"]["decompiled"]), {**m.HEADER, "version_minor": f["minor"]}, "as_dict header")
    v.decompile()  # decompiling again changes nothing
    eqa(normalize([e.data for e in v.entries]), normalize([w for _, w in want]), "entries after decompiling twice")
    out = m.write_vfb(v)
    bitmaps = any(eid in (2007, 2013) for eid, _ in ents)
    if not bitmaps:
        if out != canonical:
            eq(c.parse(out), c.parse(canonical), "written file")
            check(False, "written file differs from the canonical file")
    v2 = m.read_vfb(out)
    v2.decompile()
    eqa(normalize([(e.id, e.data) for e in v2.entries]), normalize(want), "entries after write and re-read")
    check(m.write_vfb(v2) == out, "writing the re-read file gives different bytes")


def partial_case(f):
    """Decompiling only some entries has the same result on disk; dropped keys stay raw."""
    ctx, ents = f["ctx"], f["entries"]
    canonical = c.file_bytes(ctx, ents, None, f["minor"])
    bitmaps = any(eid in (2007, 2013) for eid, _ in ents)
    v = m.read_vfb(canonical)
    for i, e in enumerate(v.entries):
        if f["pick"] >> i & 1:
            e.decompile()
    out = m.write_vfb(v)
    if not bitmaps:
        check(out == canonical, "file written after decompiling some of the entries")
    v = m.read_vfb(canonical)
    drop = {e.id for i, e in enumerate(v.entries) if f["pick"] >> i & 1}
    v.drop_keys = set(drop)
    raw = {i: e.data for i, e in enumerate(v.entries)}
    v.decompile()
    for i, e in enumerate(v.entries):
        if e.id in drop:
            check(e.data is raw[i] or e.data == raw[i], f"excluded entry {e.id} was decompiled")
        else:
            check(not isinstance(e.data, bytes), f"entry {e.id} was not decompiled")


def scratch_case(f):
    """A file assembled from decompiled data through the API equals the reference file."""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    ctx, ents = f["ctx"], f["entries"]
    v = Vfb(timing=False)
    v.num_masters = ctx.masters
    v.writer_platform = ctx.platform
    v.header.data = {**m.HEADER, "version_minor": f["minor"]}
    for eid, w in c.expected(ctx, ents):
        e = VfbEntry(v, eid=eid)
        e.data = w
        v.add_entry(e)
    out = m.write_vfb(v)
    if any(eid in (2007, 2013) for eid, _ in ents):
        v2 = m.read_vfb(out)
        v2.decompile()
        eqa(normalize([(e.id, e.data) for e in v2.entries]), normalize(c.expected(ctx, ents)), "assembled file re-read")
    else:
        check(out == c.file_bytes(ctx, ents, None, f["minor"]), "assembled file differs from the reference file")


def fixture_case(name):
    b = (DATA / name).read_bytes()
    v = m.read_vfb(b)
    v.decompile()
    before = normalize(v.as_dict())
    out = m.write_vfb(v)
    v2 = m.read_vfb(out)
    v2.decompile()
    after = normalize(v2.as_dict())
    for d in (before, after):  # the only representation change: empty guides are equal to none
        pass
    eq(after["header"], before["header"], f"{name}: header")
    eq(len(after["entries"]), len(before["entries"]), f"{name}: number of entries")
    for x, y in zip(after["entries"], before["entries"]):
        eqa(x, y, f"{name}: {y['key']}")
    check(m.write_vfb(v2) == m.write_vfb(m.read_vfb(out)) == out, f"{name}: second generation differs")


def unusual_case(k):
    """Data no known program writes but the library accepts: content it writes back reads as the same."""
    ctx, eid, raw = k["ctx"], k["eid"], k["raw"]
    v = m.make_vfb(ctx)
    e = m.entry(v, eid, raw)
    try:
        e.decompile()
    except Exception:  # noqa: BLE001 - C10 decides how it may fail
        label("refused")
        return
    want = normalize(deepcopy(e.data))
    if "nan" in repr(want) or m.SPECS[eid].kind == "names" and "\\ufeff" in repr(want):
        label("not a number, or a character of no encoding")
        return
    try:
        e.compile()
    except Exception:  # noqa: BLE001 - no entry of this type can hold such content
        label("not compilable")
        return
    label("written")
    out = bytes(e.data)
    for what in ("content", "content of the second generation"):
        e = m.entry(m.make_vfb(ctx), eid, out)
        e.decompile()
        eqa(normalize(e.data), want, f"{m.SPECS[eid].name} {raw.hex()}: {what}")
        e.compile()
        eq(bytes(e.data), out, f"{m.SPECS[eid].name} {raw.hex()}: data of the second generation")


def nt(f):
    return len(f["entries"]) > 3


def props(tier):
    r = "file with 1-12 generated entries; non-trivial with 2+ besides the mandatory ones"
    return [
        Prop("whole-1", files(), whole_case, 1200, 10000, nt, r),
        Prop("whole-2", files(), whole_case, 1200, 10000, nt, r),
        Prop("partial", files(), partial_case, 1200, 10000, nt, r),
        Prop("scratch", files(), scratch_case, 1200, 10000, nt, r),
        Prop("reuse", st.tuples(st.one_of(files(), files(CONTEXT)), st.one_of(files(), files(CONTEXT)), st.one_of(st.just(0), st.integers(0, 7))), reuse_case, 600, 6000, lambda x: nt(x[0]) and nt(x[1]), "two such files, the first perhaps cut, read into the same object one after the other"),
        Prop("large", large_files(), large_case, 150, 1500, lambda f: True, "file with an entry of 65534-74565 bytes among others"),
        Prop("unusual", damaged(), unusual_case, 2500, 40000, lambda k: len(k["raw"]) > 0, "data of one entry, damaged such that it may still be accepted; non-trivial if any is left"),
        Prop("fixtures", None, fixture_case, 0, 0, fixed=sorted(p.name for p in DATA.glob("*.vfb")), rule="every VFB file in Tests/Data", timeout=60),
    ]
