"""Reference reader for the VFB container, and generators for entry sequences."""
from __future__ import annotations

import struct

from hypothesis import strategies as st

from pbt import model as m
from pbt.common import check

READ_DECOMPILED = {10, 1503, 1269}


def parse(b: bytes):
    """-> (minor version, [(id, data)]), strictly: every byte accounted for."""
    sig, app, filev, maj, minor, off = struct.unpack_from("<IBBBBI", b)
    check((sig, app, filev, maj) == (0x464C571A, 0x31, 0x30, 3), "file header fields changed")
    check(off == 44, f"data offset {off}")
    check(b[12:44] == b"\0" * 32, "header padding")
    i = off
    out = []
    while i < len(b):
        check(i + 4 <= len(b), "truncated entry header in written file")
        (eid,) = struct.unpack_from("<H", b, i)
        if eid & 0x8000:
            (n,) = struct.unpack_from("<I", b, i + 2)
            check(n > 0xFFFF, f"long entry header used for {n} bytes")
            i += 6
        else:
            (n,) = struct.unpack_from("<H", b, i + 2)
            i += 4
        eid &= 0x7FFF
        check(i + n <= len(b), f"entry {eid} claims {n} bytes, {len(b) - i} left")
        out.append((eid, b[i : i + n]))
        i += n
    return minor, out


raw_small = st.binary(max_size=40)
unknown_ids = st.one_of(st.integers(0, 0x7FFF), st.sampled_from([0x7FFF, 3, 7, 1400, 2002, 1504 + 2000])).filter(
    lambda i: i not in (2, 1410) and i not in READ_DECOMPILED)
known_ids = st.sampled_from([i for i in sorted(m.SPECS) if i not in (2, 1410) and i not in READ_DECOMPILED])


@st.composite
def soup(draw, max_entries=10, eids=None, with_end=True):
    """A valid file: context entries, then decompilable entries in any order.

    Returns (ctx, [(id, data)]) with generated (structured) data.
    """
    ctx0 = draw(m.ctxs)
    entries = []
    if draw(st.booleans()):
        entries.append((10, draw(m.SPECS[10].gen(ctx0))))
    else:
        ctx0 = m.Ctx(ctx0.masters, "macos", ctx0.vstems, ctx0.hstems)
    entries.append((1503, ctx0.masters))
    tts = draw(st.booleans())
    if tts:
        d = draw(m.SPECS[1269].gen(ctx0))
        entries.append((1269, d))
        ctx = m.Ctx(ctx0.masters, ctx0.platform, len(d["ttStemsV"]), len(d["ttStemsH"]))
    else:
        ctx = m.Ctx(ctx0.masters, ctx0.platform, 0, 0)
    ids = [e for e in (eids or sorted(m.SPECS)) if e != 2 and e not in READ_DECOMPILED]
    n = draw(st.integers(1, max_entries))
    for _ in range(n):
        eid = draw(st.sampled_from(ids))
        entries.append((eid, draw(m.SPECS[eid].gen(ctx))))
    if with_end:
        entries.append((2, ""))
    return ctx, entries


def file_bytes(ctx, entries, seed=None, minor=0x32, offset=44):
    b = m.header_bytes(minor, offset)
    for eid, d in entries:
        spec = m.SPECS.get(eid)
        raw = d if isinstance(d, bytes) else m.encode(spec, d, ctx, seed)
        b += m.entry_bytes(eid, raw)
    return b


def expected(ctx, entries):
    return [(eid, m.SPECS[eid].expect(d, ctx) if eid in m.SPECS and not isinstance(d, bytes) else d) for eid, d in entries]
