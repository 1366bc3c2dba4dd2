import copy
import random

from hypothesis import strategies as st

from pbt import model as m
from pbt.codec import compile_, decompile
from pbt.common import Prop, Violation, check, eq, label, normalize

RULE = "Bitmaps of 1-300 x 1-300 pixels built from runs of every critical length (1-4, 127-130, 256, 257)."
ASSUMPTIONS = ["rows are padded to 16 pixels, as FontLab stores them"]


class R:
    """Reference reader for the fixed part of bitmap entries."""

    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        check(self.i + n <= len(self.b), "compiled bitmap entry is truncated")
        r = self.b[self.i : self.i + n]
        self.i += n
        return r

    def v(self):
        k = self.take(1)[0]
        if k == 255:
            return int.from_bytes(self.take(4), "big")
        if k >= 251:
            return (-(k - 251) * 256 - self.take(1)[0] - 108) & 0xFFFFFFFF
        if k >= 247:
            return (k - 247) * 256 + self.take(1)[0] + 108
        check(k >= 32, f"undefined value byte {k}")
        return (k - 139) & 0xFFFFFFFF


def check_rle(b, rows, ctx):
    flat = [x for r in rows for x in r]
    if ctx.platform == "windows":
        flat = [255 - x for x in flat]
    got = m.rle_decode(b)
    eq(got, flat, f"pixels in the compiled run-length data ({ctx.platform})")
    check(len(b) <= len(m.rle_encode(flat)), f"run-length data has {len(b)} bytes, canonical form {len(m.rle_encode(flat))}")


def fields(r, data, is_image):
    u = lambda x: x & 0xFFFFFFFF  # noqa: E731
    head = [*data["origin"], *(data["size_units"] if is_image else data["adv"]), *data["size_pixels"]]
    if not is_image:
        head = [data["ppm"]] + head
    eq([r.v() for _ in head], [u(x) for x in head], "bitmap header fields")


def bitmap_case(case):
    eid, ctx, data, seed = case
    label(f"{eid}/{ctx.platform}")
    spec = m.SPECS[eid]
    for s in (None, seed):
        got = decompile(ctx, eid, m.encode(spec, data, ctx, s))
        eq(normalize(got), normalize(data), f"{spec.name}: decompiled structure")
    for src in (copy.deepcopy(data), got):
        out = compile_(ctx, eid, src)
        eq(normalize(src), normalize(data), f"{spec.name}: structure after compiling")
        r = R(out)
        if eid == 2013:
            eq(r.v(), len(data), "number of bitmaps")
            maps = data
        else:
            maps = [data]
        for bm in maps:
            fields(r, bm, eid == 2007)
            n = r.v()
            check_rle(r.take(n), bm["bitmap"]["data"], ctx)
        check(r.i == len(out), "trailing bytes after the bitmap data")
        eq(normalize(decompile(ctx, eid, out)), normalize(data), f"{spec.name}: written and re-read")


@st.composite
def cases(draw, eid):
    ctx = draw(m.ctxs)
    return eid, ctx, draw(m.SPECS[eid].gen(ctx)), draw(st.integers(0, 2**16))


@st.composite
def runs(draw, eid):
    """One wide bitmap made of exactly a few runs at chunk boundaries."""
    ctx = draw(m.ctxs)
    w = draw(st.sampled_from([16, 24, 160, 2048]))
    lens = draw(st.lists(st.one_of(st.sampled_from([1, 2, 3, 127, 128, 129, 130, 131, 254, 255, 256, 257, 258, 383, 384, 385, 512, 513]), st.integers(1, 700)), min_size=1, max_size=5))
    vals = draw(st.lists(m.u8, min_size=len(lens), max_size=len(lens)))
    rnd = random.Random(draw(st.integers(0, 2**16)))
    verb = draw(st.booleans())
    flat = []
    for n, v in zip(lens, vals):
        if verb and rnd.random() < 0.5:
            flat += [(v + i) % 256 for i in range(n)]
        else:
            flat += [v] * n
    bpr = (w + 15) // 16 * 2
    flat += [0] * (-len(flat) % bpr)
    rows = [flat[i : i + bpr] for i in range(0, len(flat), bpr)]
    bm = {"data": rows, "preview": m.preview(rows, w)}
    d = {"origin": (0, 0), "size_units": (w, len(rows)), "size_pixels": (w, len(rows)), "bitmap": bm}
    if eid == 2013:
        d = [{"ppm": 12, "origin": (0, 0), "adv": (7, 0), "size_pixels": (w, len(rows)), "bitmap": bm}]
    return eid, ctx, d, draw(st.integers(0, 2**16))


def nt(case):
    d = case[2] if case[0] == 2013 else [case[2]]
    return any(len({x for r in b["bitmap"]["data"] for x in r}) > 1 for b in d)


def props(tier):
    r = "bitmap entry, platform, random legal run-length spelling; non-trivial if it has 2+ different bytes"
    return [
        Prop("image", cases(2007), bitmap_case, 600, 6000, nt, r),
        Prop("bitmaps", cases(2013), bitmap_case, 500, 5000, nt, r),
        Prop("image-runs", runs(2007), bitmap_case, 700, 8000, nt, r),
        Prop("bitmaps-runs", runs(2013), bitmap_case, 700, 8000, nt, r),
    ]
