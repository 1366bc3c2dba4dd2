"""Whole fonts with consistent content: generator, VFB entries, and export.

A font is a dict: axes, n (masters), master_names, locs, ps (one PostScript info
per master), head (further font entries), glyphs, tail.  A glyph is a dict with
``d`` (the glyph entry), ``cts`` (its contours, see outline.py), ``post`` (entries
that follow it) and the plain values these were made from.
"""
from __future__ import annotations

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt import outline as o
from pbt.common import check, eq

crd = st.one_of(*[st.integers(-20, 20), st.integers(-1500, 1500), st.integers(-30000, 30000)] * 3, st.integers(-70000, 70000))
scale = st.one_of(st.sampled_from([1.0, 1.0, -1.0, 0.5, 1 / 3, 2.0, 0.0]), st.integers(-400, 400).map(lambda v: v / 100))
AXES = [("Weight", "wght"), ("Width", "wdth"), ("Optical Size", "opsz"), ("Serif", "SERF")]
plain_words = st.text(st.sampled_from("abcXYZ 019-é"), min_size=1, max_size=10)
# Not in attributes of GLIF files: <>&" (ufonormalizer, which is not part of vfbLib, does not escape them)
words = st.one_of(*[plain_words] * 4, st.text(st.sampled_from("aB 1;'%{}[]#/\\€é\xa0"), min_size=1, max_size=60))
texts = st.one_of(words, st.text(st.sampled_from("ab <>&;\"'%é\\"), min_size=1, max_size=60))
small_crd = st.one_of(st.integers(-20, 20), st.integers(-1500, 1500), st.integers(-30000, 30000))
names = st.one_of(
    st.sampled_from(["A", "B", "C", "a", "b", "space", ".notdef", "Adieresis", "a.sc", "f_i", "uni20AC", "A.alt1", "o", "O"]),
    st.text(st.sampled_from("abcABC019._-"), min_size=1, max_size=12).filter(lambda s: s.strip(".")),
)


def per(s, n):
    return st.lists(s, min_size=n, max_size=n)


def psinfo(draw, values=st.integers(-500, 1500)):
    d = {}
    for k, f in m.PSI:
        num = int(f[:-1]) if f[:-1] else None
        if k == "bounding_box":
            d[k] = {x: max(-0x8000, min(draw(values), 0x7FFF)) for x in ("xMin", "yMin", "xMax", "yMax")}
            continue
        s = {"d": st.sampled_from([0.0, 1.0, 0.039625, 0.5, -2.25]), "i": values, "I": st.integers(0, 1500), "h": values}[f[-1]]
        d[k] = draw(per(s, num)) if num else draw(s)
    return d


def minimal_psinfo():
    """A fixed one: for fonts whose font info is not looked at."""
    d = {}
    for k, f in m.PSI:
        num = int(f[:-1]) if f[:-1] else None
        if k == "bounding_box":
            d[k] = {x: 0 for x in ("xMin", "yMin", "xMax", "yMax")}
        elif f[-1] == "d":
            d[k] = [0.001] * num if num else 0.05
        else:
            d[k] = [0] * num if num else 0
    return d


def guides(n, max_guides=2):
    one = st.builds(lambda p, s: {"pos": p, "angle": m.angle_of(s)}, crd, m.slope)
    return st.fixed_dictionaries({d: st.lists(per(one, n), max_size=max_guides) for d in "hv"})


@st.composite
def guide_props(draw, g):
    """Properties for some of the guides; index 1 is the first, each at most once."""
    out = {}
    for d in "hv":
        idx = draw(st.sets(st.integers(1, len(g[d]) + 1), max_size=max(2, len(g[d]))))
        out[d] = [{"index": i, **draw(st.fixed_dictionaries({}, optional={
            "color": st.integers(0, 0xFFFFFF).map(lambda v: f"#{v:06x}"), "name": words}))} for i in sorted(idx)]
    return out


@st.composite
def anchors(draw, n, max_anchors=3):
    k = draw(st.integers(0, max_anchors))
    return [{**({"name": draw(words)} if draw(st.integers(0, 3)) else {}), "x": draw(per(crd, n)), "y": draw(per(crd, n))} for _ in range(k)]


ALL = frozenset(("components", "anchors", "unicodes", "mark", "note", "mask", "guides", "customdata", "image"))


@st.composite
def glyph(draw, n, num, name, used, parts, kinds=o.KINDS_ALL, closing="any", max_contours=3, crd=crd, max_segs=4):
    small = 1 if n > 4 else max_contours
    rich = 0
    if n <= 2 and max_contours and draw(st.integers(0, 24)) == 24:  # now and then, much more of everything
        rich = small = draw(st.integers(7, 10))
        max_segs = 2
    cts = draw(st.lists(o.contour(n, crd, kinds=kinds, closing=closing, flags=o.FLAGS, max_segs=max_segs), max_size=small))
    metrics = draw(per(st.tuples(crd, crd), n))
    d = {"name": name, "num_masters": n, "nodes": o.nodes(cts, n), "metrics": metrics}
    g = {"name": name, "d": d, "cts": cts, "post": []}
    post = g["post"]
    if "components" in parts and draw(st.integers(0, 2)) == 0:
        d["components"] = draw(st.lists(st.fixed_dictionaries({
            "gid": st.integers(0, num - 1), "offsetX": per(crd, n), "offsetY": per(crd, n),
            "scaleX": per(scale, n), "scaleY": per(scale, n)}), min_size=rich or 1, max_size=rich or 2))
    if "guides" in parts and draw(st.integers(0, 2)) == 0:
        d["guides"] = draw(guides(n, rich or 2))
    if "image" in parts and draw(st.integers(0, 5)) == 0:
        g["image"] = draw(m._bg_gen(m.Ctx(n, "windows")))
        post.append((2007, g["image"]))
    if "image" in parts and draw(st.integers(0, 5)) == 0:
        g["bitmaps"] = draw(m._gb_gen(m.Ctx(n, "windows")))
        post.append((2013, g["bitmaps"]))
    if "mask" in parts and draw(st.integers(0, 2)) == 0:
        g["mask"] = draw(st.lists(o.contour(n, crd, kinds=kinds, closing=closing, flags=o.FLAGS, max_segs=3), max_size=2))
        post.append((2009, {"weight_vector": [], "num_masters": n, "nodes": o.nodes(g["mask"], n)}))
        if draw(st.booleans()):
            g["maskmetrics"] = draw(per(st.tuples(small_crd, small_crd), n))
            post.append((2011, g["maskmetrics"][0]))
            if n > 1:
                post.append((2028, g["maskmetrics"][1:]))
    if "unicodes" in parts:
        new = [u for u in draw(st.lists(st.one_of(st.integers(0x20, 0x7F), st.integers(1, 0xFFFF), st.integers(0x10000, 0x10FFFF)), unique=True, min_size=rich, max_size=rich or 3)) if u not in used]
        used.update(new)
        g["unicodes"] = sorted(new, key=lambda u: u > 0xFFFF)
        bmp = [u for u in new if u <= 0xFFFF]
        if bmp:
            post.append((1250, bmp))
        if len(new) > len(bmp):
            post.append((1253, [u for u in new if u > 0xFFFF]))
    if "mark" in parts and draw(st.booleans()):
        g["mark"] = draw(st.integers(1, 255))
        post.append((2012, g["mark"]))
    if "customdata" in parts and draw(st.integers(0, 3)) == 0:
        g["customdata"] = draw(texts)
        post.append((2015, g["customdata"]))
    if "note" in parts and draw(st.integers(0, 2)) == 0:
        g["note"] = draw(texts.map(str.strip).filter(bool))
        post.append((2017, g["note"]))
    if "anchors" in parts:
        a = g["anchors"] = draw(anchors(n, rich or 3))
        if a or draw(st.booleans()):
            gd = {"anchors": [{**({"name": x["name"]} if "name" in x else {}), "x": x["x"][0], "y": x["y"][0]} for x in a]} if a else {}
            if draw(st.booleans()):
                gd["glyph_class"] = draw(st.sampled_from(m.GC[1:]))
            post.append((2018, gd))
            if a and n > 1:
                post.append((2029, [{"x": x["x"], "y": x["y"]} for x in a]))
            elif n > 1:
                for x in a:  # same position in all masters
                    x["x"], x["y"] = [x["x"][0]] * n, [x["y"][0]] * n
    if d.get("guides") and draw(st.booleans()):
        g["guideprops"] = draw(guide_props(d["guides"]))
        post.append((2031, g["guideprops"]))
    return g


@st.composite
def fonts(draw, parts=ALL, axes=(0, 0, 0, 1, 1, 2, 3, 4), max_glyphs=4, min_glyphs=0, unique_names=False, ps=False, glyph_names=names, **kw):
    k = draw(st.sampled_from(axes))
    n = 2**k
    num = draw(st.integers(min_glyphs, max_glyphs if n < 8 else 2))
    if n <= 2 and max_glyphs > 2 and draw(st.integers(0, 24)) == 24:
        num = draw(st.integers(7, 12))
    if draw(st.integers(0, 2)) == 0 and not unique_names:
        glyph_names = st.sampled_from("ABa")
    nm = draw(st.lists(glyph_names, min_size=num, max_size=num, unique=unique_names))
    used: set[int] = set()
    font = {
        "axes": k, "n": n, "head": [], "tail": [],
        "ps": [psinfo(draw) for _ in range(n)] if ps else None,
        "platform": draw(st.sampled_from(["windows"] * 3 + ["macos"])),
        "master_names": [f"m{i}" for i in range(n)],
        "glyphs": [draw(glyph(n, num, x, used, parts, **kw)) for x in nm],
    }
    if "guides" in parts and draw(st.integers(0, 2)) == 0:
        font["guides"] = draw(guides(n))
        if draw(st.booleans()):
            font["guideprops"] = draw(guide_props(font["guides"]))
    return font


def location(i, k):
    return tuple(float(i >> a & 1) for a in range(4)) if k else (0.0,) * 4


def entries(font):
    k, n = font["axes"], font["n"]
    out = [(1, ""), (4, ""), (10, {"platform": font.get("platform", "windows"), "version": (5, 0, 0, 0), "owner": 1}), (257, ""), (1503, n)]
    out += font["head"]
    out += [(513, ""), (271, ""), (1513, k)]
    out += font.get("mm") or [(1514, AXES[a][0]) for a in range(k)]
    for i in range(n):
        if font["master_names"][i] is not None:
            out.append((1504, font["master_names"][i]))
        out.append((1505, font["locs"][i] if "locs" in font else (i + 1, location(i, k))))
    out += font.get("mm_post", [])
    out += [(1536, p) for p in font["ps"] or [minimal_psinfo()] * n][: font.get("num_ps", n)] + [(527, "")]
    if "guides" in font:
        out.append((1294, font["guides"]))
    if "guideprops" in font:
        out.append((1296, font["guideprops"]))
    for g in font["glyphs"]:
        out.append((2001, g["d"]))
        out += g["post"]
    return out + font["tail"] + [(5, ""), (2, "")]


def data_of(font):
    ctx = m.Ctx(font["n"], font.get("platform", "windows"), *font.get("stems", (0, 0)))
    return c.file_bytes(ctx, entries(font))


def vfb_of(font, **kw):
    v = m.read_vfb(data_of(font), **kw)
    v.decompile()
    return v


def builder(font, vfb=None, **kw):
    from vfbLib.ufo.builder import VfbToUfoBuilder

    return VfbToUfoBuilder(vfb if vfb is not None else vfb_of(font), **kw)


def export(font, vfb=None, **kw):
    return builder(font, vfb, **kw).get_ufo_masters(silent=True)


def share_names(draw, font):
    """Give several glyphs of some fonts the same name: they are exported under different ones, see `rename`."""
    if draw(st.integers(0, 4)) == 0:
        for g in font["glyphs"]:
            g["name"] = g["d"]["name"] = draw(st.sampled_from(["A", "A", "a", "A#1"]))


def rename(font, order):
    """Call the glyphs what they are called in the export (C14 is about those names)."""
    eq(len(order), len(font["glyphs"]), "number of glyphs")
    for g, name in zip(font["glyphs"], order):
        check(name.startswith(g["d"]["name"]), lambda: f"glyph {g['d']['name']!r} is called {name!r}")
        g["name"] = name
    eq(len(set(order)), len(order), "number of different names")


def glyph_order(font):
    """Unique glyph names, or None where any unique derived name is fine."""
    out, seen = [], set()
    for g in font["glyphs"]:
        out.append(None if g["name"] in seen else g["name"])
        seen.add(g["name"])
    return out
