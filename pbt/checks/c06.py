import os
import struct
from io import BytesIO
from pathlib import Path

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.cli import scratch
from pbt.common import DATA, Prop, check, eq, label

RULE = "Whole files made of arbitrary entries (known and unknown ids, empty, duplicate, and around the 64 KB boundary), read and written without decompiling."
ASSUMPTIONS = [
    "the three entries vfbLib decompiles while reading (version, master count, TrueType stems) are in the shortest encoding, as FontLab writes them",
    "bytes after the end-of-file entry are not part of the file",
]


@st.composite
def raw_file(draw):
    ctx = draw(m.ctxs)
    ents = []
    if draw(st.booleans()):
        ents.append((10, m.encode(m.SPECS[10], draw(m.SPECS[10].gen(ctx)), ctx), False))
    pre = draw(st.lists(st.tuples(c.unknown_ids, c.raw_small, st.booleans()), max_size=3))
    ents += pre
    masters = 0
    if draw(st.booleans()):
        masters = ctx.masters
        ents.append((1503, struct.pack("<H", masters), False))
    if draw(st.booleans()):
        ents.append((1269, m.encode(m.SPECS[1269], draw(m.SPECS[1269].gen(ctx)), ctx), False))
    big = st.builds(lambda n, f: bytes([f]) * n, st.sampled_from([0xFFFE, 0xFFFF, 0x10000, 0x10001, 70000, 140000]), st.integers(0, 255))
    data = st.one_of(st.just(b""), c.raw_small, c.raw_small, big)
    body = st.tuples(st.one_of(c.unknown_ids, c.known_ids), data, st.booleans())
    ents += draw(st.lists(body, max_size=12))
    if masters and draw(st.booleans()):
        i = draw(st.integers(max(i for i, e in enumerate(ents) if e[0] in c.READ_DECOMPILED) + 1, len(ents)))
        ents.insert(i, (1410, draw(st.binary(min_size=8 + 2 * masters, max_size=8 + 2 * masters)), False))
    if draw(st.booleans()):
        ents.append((2, draw(c.raw_small), False))
    return {
        "entries": ents, "minor": draw(m.u8), "offset": draw(st.sampled_from([44, 44, 12, 13, 60, 300])),
        "trail": draw(st.binary(max_size=10)) if ents and ents[-1][0] == 2 else b"",
        "size": draw(st.sampled_from([None, 0, 4, 8, 40, 0xFFFF])),
        "writes": draw(st.integers(1, 3)),
        "drop": draw(st.one_of(st.just([]), st.lists(st.sampled_from([e[0] for e in ents] or [1]), max_size=3))),
    }


def build(f):
    b = m.header_bytes(f["minor"], f["offset"])
    for eid, data, long in f["entries"]:
        e = m.entry_bytes(eid, data, long)
        if eid == 1410 and f["size"] is not None:  # the size field of this entry is known to be unreliable
            e = e[:2] + struct.pack("<H", f["size"]) + data
        b += e
    return b + f["trail"]


def preserve_case(f):
    b = build(f)
    v = m.read_vfb(b)
    want = [(e, d) for e, d, _ in f["entries"]]
    eq([e.id for e in v.entries], [e for e, _ in want], "ids of the entries read")
    first = None
    for _ in range(f["writes"]):
        out = m.write_vfb(v)
        minor, got = c.parse(out)
        eq(minor, f["minor"], "minor version")
        eq([g[0] for g in got], [w[0] for w in want], "ids of the entries written")
        for (eid, g), (_, w) in zip(got, want):
            check(g == w, lambda: f"entry {eid}: {len(g)} bytes written {g[:40].hex()}, {len(w)} bytes read {w[:40].hex()}")
        if first is None:
            first = out
        check(out == first, "writing the same file twice gives different bytes")
    if f["offset"] == 44 and not f["trail"] and not any(x[2] or x[0] == 1410 for x in f["entries"]):
        check(out == b, "canonical file is not reproduced byte for byte")
        label("byte-identical")
    # the written file is itself stable
    check(m.write_vfb(m.read_vfb(out)) == out, "second generation differs from the first")
    if f["drop"]:
        label("drop")
        d = set(f["drop"])
        _, got = c.parse(m.write_vfb(m.read_vfb(b, drop_keys=set(d))))
        eq(got, [w for w in want if w[0] not in d], "entries kept when dropping keys")


def path_case(f):
    """The same through files on disk, and the header-only mode."""
    from vfbLib.vfb.vfb import Vfb

    b = build(f)
    with scratch() as d:
        src, tgt = d / "a.vfb", d / "b.vfb"
        src.write_bytes(b)
        v = Vfb(src, timing=False)
        v.write(tgt)
        eq(c.parse(tgt.read_bytes()), (f["minor"], [(e, x) for e, x, _ in f["entries"]]), "file on disk")
        check(src.read_bytes() == b, "source file was changed")
        # write over a longer existing file
        tgt.write_bytes(b"x" * (len(b) + 1000))
        v.write(tgt)
        eq(c.parse(tgt.read_bytes())[1], [(e, x) for e, x, _ in f["entries"]], "overwritten file")
        # reading again replaces, not appends
        v.read()
        eq([e.id for e in v.entries], [e for e, _, _ in f["entries"]], "entries after reading the same object again")
        v.read_bytes(BytesIO(b))
        eq([e.id for e in v.entries], [e for e, _, _ in f["entries"]], "entries after reading from a buffer again")
        h = Vfb(src, timing=False, only_header=True)
        eq(len(h.entries), 0, "entries in header-only mode")
        eq(h.header.data["version_minor"], f["minor"], "header-only: minor version")


def fixture_case(name):
    b = (DATA / name).read_bytes()
    v = m.read_vfb(b)
    check(m.write_vfb(v) == b, f"{name} is not reproduced byte for byte")


def nt(f):
    return len(f["entries"]) >= 3


def props(tier):
    r = "random entry sequence, header minor version, data offset, dropped keys and number of writes; non-trivial with 3+ entries"
    return [
        Prop("preserve", raw_file(), preserve_case, 3000, 40000, nt, r, show=lambda f: {**f, "entries": [(e, len(d), d[:16].hex(), l) for e, d, l in f["entries"]]}),
        Prop("paths", raw_file(), path_case, 800, 8000, nt, r, show=lambda f: {**f, "entries": [(e, len(d), d[:16].hex(), l) for e, d, l in f["entries"]]}),
        Prop("fixtures", None, fixture_case, 0, 0, fixed=sorted(p.name for p in DATA.glob("*.vfb")), rule="every VFB file in Tests/Data"),
    ]
