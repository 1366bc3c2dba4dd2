import random
import resource
from io import BytesIO

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.codec import approx
from pbt.common import Prop, Skip, check, eq, label, normalize

RULE = "Valid entries and files from the model, damaged by truncation, extension, byte replacement, insertion, deletion, duplication and splicing, and plain random bytes."
ASSUMPTIONS = ["memory is judged by the growth of the process (300 MB for inputs of a few kilobytes), time by a limit of 10 s per case"]

IDS = [e for e in sorted(m.SPECS) if e != 2]

# Entry types whose format determines the length of the data
DELIMITED = {
    "u16", "i16", "i32", "dbl", "panose", "psgopt", "pslopt", "countvals", "vdmx",
    "ttinfo", "ttstems", "ttppems", "ttppems23", "ttppems1", "ttzones", "ttzdeltas", "names", "cmaps", "pclt", "mflags",
    "kflags", "aniso0", "axcount", "masterloc", "instances", "psinfo", "guides", "guideprops", "fontopts", "exportopts",
    "mapmode", "mmkern", "gmask", "glyph", "links", "sketch", "mask", "maskmetrics", "maskmetricsmm", "origin", "gdef",
    "anchorprops", "anchorsmm", "image", "bitmaps",
}
COUNTED = [e for e in IDS if m.SPECS[e].kind not in ("u16", "i16", "i32", "dbl", "str", "panose")]
DEL_IDS = [e for e in IDS if m.SPECS[e].kind in DELIMITED]


HUGE = [b"\xff\x7f\xff\xff\xff", b"\xff\xff\xff\xff\xff", b"\xff\x80\x00\x00\x00", b"\xff\x00\x01\x00\x00", b"\xff\x00\xff\xff\xff"]


def mutate(b: bytes, seed: int, n: int) -> bytes:
    r = random.Random(seed)
    x = bytearray(b)
    for _ in range(n):
        k = r.randrange(11)
        i = r.randrange(len(x) + 1)
        if k == 0:
            del x[i:]
        elif k == 1:
            x += r.randbytes(r.randrange(1, 9))
        elif k == 2 and x:
            x[i % len(x)] = r.choice([0, 1, 2, 0x7F, 0x80, 0x8B, 0xF6, 0xF7, 0xFA, 0xFB, 0xFE, 0xFF, r.randrange(256)])
        elif k == 3:
            x[i:i] = r.randbytes(r.randrange(1, 5))
        elif k == 4:
            del x[i : i + r.randrange(1, 5)]
        elif k == 5 and x:
            x[i % len(x)] ^= 1 << r.randrange(8)
        elif k == 6:
            x[i:i] = x[i : i + r.randrange(1, 20)]
        elif k == 7:  # a huge, negative or small count in value encoding
            x[i:i] = r.choice(HUGE)
        elif k == 8 and x:
            j = i % len(x)
            x[j : j + 1] = r.choice([b"\xff\x7f\xff\xff\xff", b"\xff\xff\xff\xff\xff", b"\xff\x01\x00\x00\x00", b"\x8b", b"\x8a", b"\xfa\xff"])
        elif k in (9, 10):  # a huge count next to zeros
            t = tokens(x)
            j = r.randrange(len(t) + 1) if r.randrange(2) else r.randrange(min(len(t), 4) + 1)
            new = [r.choice(HUGE)] + [r.choice((b"\x8b", b"\x8b", b"\x8c", b"\x8a")) for _ in range(r.randrange(3))]
            if k == 10:
                r.shuffle(new)
            t[j : j + len(new)] = new
            x = bytearray(b"".join(t))
    return bytes(x)


def tokens(b) -> list[bytes]:
    """The data taken as a sequence of encoded values."""
    out, i = [], 0
    while i < len(b):
        n = 5 if b[i] == 0xFF else 2 if b[i] > 0xF6 else 1
        out.append(bytes(b[i : i + n]))
        i += n
    return out


def rss():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024


@st.composite
def damaged(draw, ids=None):
    eid = draw(st.sampled_from(ids or IDS))
    ctx = draw(m.ctxs)
    if draw(st.integers(0, 5)) == 0:
        return {"eid": eid, "ctx": ctx, "raw": draw(st.binary(max_size=120)), "n": 9}
    spec = m.SPECS[eid]
    raw = m.encode(spec, draw(spec.gen(ctx)), ctx, draw(st.one_of(st.none(), st.integers(0, 99))))
    n = draw(st.integers(1, 4))
    return {"eid": eid, "ctx": ctx, "raw": mutate(raw, draw(st.integers(0, 2**32 - 1)), n), "n": n,
            "nomasters": draw(st.integers(0, 4)) == 0}


def damage_case(k):
    ctx, eid, raw = k["ctx"], k["eid"], k["raw"]
    v = m.make_vfb(ctx)
    if k.get("nomasters"):
        v.num_masters = 0  # a file without (or with a damaged) master count
    v.header.data = dict(m.HEADER)
    before = m.entry(v, 1026, b"before")
    e = m.entry(v, eid, raw)
    after = m.entry(v, 2012, b"\5\0")
    v.entries = [before, e, after]
    mem = rss()
    ok = decompile(v, e, raw)
    check(rss() - mem < 300, f"decompiling {len(raw)} bytes took {rss() - mem} MB")
    if not ok:
        label("rejected")
        out = m.write_vfb(v)
        eq(c.parse(out)[1], [(1026, b"before"), (eid, raw), (2012, b"\5\0")], "file written after the failure")
        # the other entries still work
        before.decompile()
        after.decompile()
        eq((before.data, after.data), ("before", 5), "intact entries")
        check(v.as_dict()["entries"][1]["size"] == len(raw), "as_dict of a damaged entry")
        return
    label("accepted")
    # writing it ends, too; damaged content may be rejected then
    try:
        e.compile()
    except Exception:
        label("not compilable")


@st.composite
def counted(draw):
    eid = draw(st.sampled_from(COUNTED))
    ctx = draw(m.ctxs)
    spec = m.SPECS[eid]
    return {"eid": eid, "ctx": ctx, "raw": m.encode(spec, draw(spec.gen(ctx)), ctx)}


def counts_case(k):
    """Each of the first numbers replaced by a huge one, alone and followed by zeros."""
    t = tokens(k["raw"])
    for i in range(min(len(t), 8) + 1):
        for zeros in ([], [b"\x8b"], [b"\x8b"] * 2):
            for big in HUGE[:1] + HUGE[4:]:
                x = list(t)
                x[i : i + 1 + len(zeros)] = [big, *zeros]
                for no in (True, False):
                    damage_case({**k, "raw": b"".join(x), "nomasters": no})


def decompile(v, e, raw):
    try:
        e.decompile()
    except MemoryError:
        check(False, f"entry {e.id}: memory exhausted by {len(raw)} bytes {raw[:60].hex()}")
    except RecursionError:
        check(False, f"entry {e.id}: recursion limit reached")
    except Exception:
        check(v.any_errors is True, f"entry {e.id}: decompiling failed without setting the error flag")
        check(e.data == raw and isinstance(e.data, bytes), f"entry {e.id}: raw data was lost in the failure")
        return False
    check(not isinstance(e.data, bytes), f"entry {e.id}: neither failed nor decompiled")
    check(v.any_errors is False, f"entry {e.id}: error flag set without an error")
    return True


@st.composite
def whole(draw):
    eid = draw(st.sampled_from(DEL_IDS))
    ctx = draw(m.ctxs)
    return eid, ctx, draw(m.SPECS[eid].gen(ctx)), draw(st.binary(min_size=1, max_size=8)), draw(st.integers(0, 2**20))


def length_case(k):
    """No prefix and no extension of a well-formed entry is accepted as if it were whole."""
    eid, ctx, data, extra, cut = k
    raw = m.encode(m.SPECS[eid], data, ctx)
    label(m.SPECS[eid].kind)
    cuts = range(len(raw)) if len(raw) < 40 else sorted({0, 1, cut % len(raw), (cut * 7 + 3) % len(raw), len(raw) - 1, len(raw) - 2, len(raw) - 3, len(raw) // 2})
    for n in cuts:
        if prefix_ok(eid, ctx, data, raw, n):
            continue
        v = m.make_vfb(ctx)
        e = m.entry(v, eid, raw[:n])
        if decompile(v, e, raw[:n]):
            check(False, f"{m.SPECS[eid].name}: the first {n} of {len(raw)} bytes {raw.hex()} are accepted as {e.data!r}"[:1500])
    v = m.make_vfb(ctx)
    e = m.entry(v, eid, raw + extra)
    if decompile(v, e, raw + extra):
        check(False, f"{m.SPECS[eid].name}: {raw.hex()} + {extra.hex()} is accepted as {e.data!r}"[:1500])


def prefix_ok(eid, ctx, data, raw, n):
    """Prefixes that are well-formed entries themselves."""
    return False


@st.composite
def broken_files(draw):
    ctx, ents = draw(c.soup(max_entries=6))
    return {"ctx": ctx, "entries": ents, "which": draw(st.integers(0, 20)), "seed": draw(st.integers(0, 2**32 - 1)),
            "cut": draw(st.integers(0, 2**16)), "n": draw(st.integers(1, 3)), "minor": draw(m.u8)}


def file_entry_case(k):
    """One damaged entry in a file: reported, everything is kept, the rest is readable."""
    ctx, ents = k["ctx"], list(k["entries"])
    i = k["which"] % len(ents)
    # the size field of entry 1410 is not used for reading
    if ents[i][0] in c.READ_DECOMPILED or ents[i][0] in (2007, 2013, 1410):
        raise Skip
    if any(e in (2007, 2013) for e, _ in ents):
        raise Skip
    intact, content = m.encode(m.SPECS[ents[i][0]], ents[i][1], ctx), c.expected(ctx, ents)[i][1]
    raw = mutate(intact, k["seed"], k["n"])
    ents[i] = (ents[i][0], raw)
    b = c.file_bytes(ctx, ents, None, k["minor"])
    v = m.read_vfb(b)
    check(m.write_vfb(v) == b, "damaged file is not preserved")
    try:
        v.decompile()
    except Exception:
        label("rejected")
        check(v.any_errors is True, "error flag not set")
        check(v.entries[i].data == raw, "raw data of the damaged entry was lost")
        check(m.write_vfb(v) == b, "file written after the failure differs")
        for e, (eid, w) in zip(v.entries, c.expected(ctx, ents)):
            if e is not v.entries[i]:
                e.decompile()
                check(approx(normalize(e.data), normalize(w)), f"intact entry {eid} changed")
        eq(len(v.as_dict()["entries"]), len(ents), "as_dict after a failure")
        # leaving out the damaged entry, the file decompiles
        v2 = m.read_vfb(b, drop_keys={ents[i][0]})
        v2.decompile()
        check(v2.any_errors is False, "error flag of a file read without the damaged entry")
        # and so it does with the entry repaired
        v.entries[i].data = intact
        v.decompile()
        check(v.any_errors is False, "error flag after the entry was repaired")
        check(approx(normalize(v.entries[i].data), normalize(content)), "content of the repaired entry")
    else:
        label("accepted")
        check(v.any_errors is False, "error flag set without an error")
        for j, (e, (eid, w)) in enumerate(zip(v.entries, c.expected(ctx, ents))):
            if j != i:
                check(approx(normalize(e.data), normalize(w)), f"intact entry {eid} changed")


def truncated_case(k):
    """A file that ends early: all complete entries are read as they are."""
    ctx, ents = k["ctx"], k["entries"]
    b = c.file_bytes(ctx, ents, None, k["minor"])
    cut = 12 + k["cut"] % (len(b) - 11)
    pos = 44
    for eid, d in ents:
        n = len(m.entry_bytes(eid, m.encode(m.SPECS[eid], d, ctx)))
        if pos < cut < pos + n and eid in c.READ_DECOMPILED:
            raise Skip  # needed for reading the rest: reading fails with an exception
        pos += n
    v = m.read_vfb(b[:cut])
    pos, whole_n = 44, 0
    for eid, d in ents:
        pos += len(m.entry_bytes(eid, m.encode(m.SPECS[eid], d, ctx)))
        if pos > cut:
            break
        whole_n += 1
    check(whole_n <= len(v.entries) <= whole_n + 1, f"{len(v.entries)} entries read, {whole_n} are complete")
    for e, (eid, d) in list(zip(v.entries, ents))[:whole_n]:
        eq(e.id, eid, "id of a complete entry")
        e.decompile()
        check(approx(normalize(e.data), normalize(m.SPECS[eid].expect(d, ctx))), f"complete entry {eid} changed")
    if len(v.entries) == whole_n:
        check(v.any_errors is False, "error flag set for complete entries")
        return
    # The data of the last entry are cut off, which its header tells
    e, (eid, d) = v.entries[whole_n], ents[whole_n]
    check(v.any_errors is True, f"error flag not set for the incomplete entry {eid}")
    try:
        v.decompile()
    except Exception:  # noqa: BLE001
        pass
    check(v.any_errors is True, f"error flag not set for the incomplete entry {eid} after decompiling")
    e.data = m.encode(m.SPECS[eid], d, ctx)
    v.decompile()
    check(v.any_errors is False, "error flag after the entry was repaired")


def garbage_case(k):
    """Arbitrary damage anywhere in a file, header included: reading and decompiling end."""
    b = mutate(c.file_bytes(k["ctx"], k["entries"]), k["seed"], k["n"]) if "entries" in k else k["raw"]
    mem = rss()
    try:
        v = m.read_vfb(b)
    except MemoryError:
        check(False, "memory exhausted")
    except Exception:
        label("unreadable")
        check(rss() - mem < 300, "excessive memory")
        return
    check(sum(len(e.data) for e in v.entries if isinstance(e.data, bytes)) <= len(b), "more data than the file has")
    raws = [e.data for e in v.entries]
    bad = 0
    for e, r in zip(v.entries, raws):
        if isinstance(r, bytes):
            v.any_errors = False
            bad += not decompile(v, e, r)
    label("readable" if not bad else "readable with errors")
    check(rss() - mem < 300, "excessive memory")


def props(tier):
    r = "damaged entry of one type; non-trivial if at least one byte is left"
    nt = lambda k: len(k["raw"]) > 0  # noqa: E731
    big = [e for e in (2001, 2013, 2007, 1264, 2018, 1138, 1296, 2031, 1743, 2009, 2029, 1269) if e in m.SPECS]
    yes = lambda k: True  # noqa: E731
    P = lambda *a, **kw: Prop(*a, timeout=10, **kw)  # noqa: E731
    return [
        P("damage-1", damaged(), damage_case, 2500, 60000, nt, r),
        P("damage-2", damaged(), damage_case, 2500, 60000, nt, r),
        P("damage-complex", damaged(big), damage_case, 2500, 60000, nt, r),
        P("damage-glyph", damaged([2001]), damage_case, 2000, 60000, nt, r),
        P("counts", counted(), counts_case, 500, 6000, yes, "huge numbers at each of the first positions of a well-formed entry, alone and followed by zeros"),
        P("length-1", whole(), length_case, 1200, 20000, yes, "every prefix and a random extension of a well-formed entry with determined length"),
        P("length-2", whole(), length_case, 1200, 20000, yes, "as length-1"),
        P("file-entry", broken_files(), file_entry_case, 1000, 15000, yes, "file with one damaged entry"),
        P("truncated", broken_files(), truncated_case, 1000, 15000, yes, "file truncated at a random position"),
        P("garbage", broken_files(), garbage_case, 1000, 15000, yes, "file damaged at random positions"),
        P("noise", st.fixed_dictionaries({"raw": st.builds(lambda h, b: (m.header_bytes() if h else b"") + b, st.booleans(), st.binary(max_size=200))}), garbage_case, 1000, 10000, yes, "random bytes, with or without a valid header"),
    ]
