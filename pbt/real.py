"""Fonts put together from glyphs and font data of the real files in Tests/Data.

They have what generators hardly come up with: long hint programs, hundreds of
hinting commands, deep class and kerning data.  The library is only used to read
the files; the model encodes what was read, and the oracles judge the result.
"""
from __future__ import annotations

import copy
from functools import lru_cache

from fontTools.ttLib.tables.ttProgram import Program
from hypothesis import strategies as st

from pbt import model as m
from pbt.common import DATA
from pbt.font import minimal_psinfo

# Written by font.entries itself, or specific to the number of masters
OWN = {1, 2, 4, 5, 10, 257, 271, 513, 527, 1294, 1296, 1503, 1504, 1505, 1513, 1514, 1515, 1516, 1523, 1254, 1536, 1410}
AFTER = {1250, 1253, *range(2002, 2100)}
PLAIN = {2012: "mark", 2015: "customdata", 2017: "note", 2007: "image", 2013: "bitmaps", 2031: "guideprops", 2008: "links"}
FIRST, SECOND = 1024, 2048
PARTS = {"width", "lsb", "unknown1", "unknown2", "unknown3", "bbox", "num_contours", "endpoints", "instructions", "hdmx"}


def contours(nodes, n=1):
    """The contours (see outline.py) of VFB nodes."""
    out, off = [], []
    for nd in nodes:
        p = [[tuple(nd["points"][i][j]) for i in range(n)] for j in range(len(nd["points"][0]))]
        t = nd["type"]
        if t == "move":
            if out:
                out[-1]["tail"] = off
            off = []
            out.append({"open": bool(nd["flags"] & 8), "start": p[0], "segs": [], "tail": [], "flags": [nd["flags"]]})
            continue
        if t == "qcurve":
            off.append(p[0])
            continue
        if t == "curve":
            seg = ("curve", [p[1], p[2], p[0]])
        else:
            seg = ("qcurve", [*off, p[0]]) if off else ("line", [p[0]])
        off = []
        out[-1]["segs"].append(seg)
        out[-1]["flags"].append(nd["flags"])
    if out:
        out[-1]["tail"] = off
    return out


class Source:
    """A single master file; glyphs are decompiled when they are asked for."""

    def __init__(self, name):
        from vfbLib.vfb.vfb import Vfb

        self.name = name
        v = Vfb(DATA / name, timing=False)
        self.ok = v.num_masters == 1
        self.head, self.ps, self.glyphs = [], [], []
        if not self.ok:
            return
        for e in v.entries:
            if e.id == 2001:
                self.glyphs.append([e])
            elif self.glyphs and e.id in AFTER:
                self.glyphs[-1].append(e)
            elif e.id == 1536:
                e.decompile()
                self.ps.append(e.data)
            elif e.id in m.SPECS and e.id not in OWN:
                e.decompile()
                self.head.append((e.id, e.data))

    @lru_cache(maxsize=None)
    def glyph(self, i):
        first, *rest = self.glyphs[i]
        first.decompile()
        d = first.data
        g = {"name": d["name"], "d": d, "cts": contours(d.get("nodes", [])), "post": []}
        d.setdefault("nodes", [])
        if "imported" in d:
            x = d["imported"]
            if PARTS <= set(x):
                program = Program()
                program.fromAssembly(x["instructions"])
                x["code"] = program.getBytecode()
            else:
                del d["imported"]
        for e in rest:
            if e.id not in m.SPECS:
                continue
            e.decompile()
            x = e.data
            g["post"].append((e.id, x))
            if e.id in (1250, 1253):
                g["unicodes"] = g.get("unicodes", []) + x
            elif e.id == 2018:
                g["anchors"] = [{**({"name": a["name"]} if "name" in a else {}), "x": [a["x"]], "y": [a["y"]]} for a in x.get("anchors", [])]
            elif e.id == 2009:
                g["mask"] = contours(x["nodes"])
            elif e.id == 2011:
                g["maskmetrics"] = [x]
            elif e.id in PLAIN and (e.id != 2012 or x):
                g[PLAIN[e.id]] = x
        return g


@lru_cache(maxsize=None)
def source(name):
    return Source(name)


def names():
    return sorted(p.name for p in DATA.glob("*.vfb") if p.stat().st_size > 5000)


def dropped(d, gids):
    """The glyph entry with the glyph numbers of the new font."""
    d = copy.deepcopy(d)
    for x in d.get("components", []):
        x["gid"] = gids[x["gid"]]
    if "kerning" in d:
        d["kerning"] = {gids[k]: v for k, v in d["kerning"].items() if k in gids}
        if not d["kerning"]:
            del d["kerning"]
    return d


@st.composite
def fonts(draw, max_glyphs=6, prefer=None, only=None):
    """prefer: glyphs that are taken if there are some of them among those that come up."""
    src = source(draw(st.sampled_from(only or names())))
    total = len(src.glyphs) if src.ok else 0
    chosen: list[int] = []

    def add(i):
        if i in chosen or not 0 <= i < total:
            return
        for x in src.glyph(i)["d"].get("components", []):
            add(x["gid"])
        chosen.append(i)

    for _ in range(draw(st.integers(1, max_glyphs)) if total else 0):
        i = draw(st.integers(0, total - 1))
        for k in range(8 if prefer else 0):
            if prefer(src.glyph((i + k) % total)):
                i = (i + k) % total
                break
        add(i)
        kern = sorted(src.glyph(i)["d"].get("kerning", {}))
        if kern and draw(st.booleans()):
            add(draw(st.sampled_from(kern)))
    if draw(st.booleans()):
        chosen.sort()
    gids = {old: new for new, old in enumerate(chosen)}
    glyphs = []
    for i in chosen:
        g = copy.deepcopy({k: v for k, v in src.glyph(i).items() if k != "d"})
        g["d"] = dropped(src.glyph(i)["d"], gids)
        glyphs.append(g)
    font = {"axes": 0, "n": 1, "head": copy.deepcopy(src.head), "tail": [], "ps": copy.deepcopy(src.ps) or [minimal_psinfo()],
            "master_names": ["Regular"], "glyphs": glyphs, "source": src.name}
    font["info"] = {}
    for eid, d in font["head"]:
        font["info"].setdefault(eid, d)
    h = font["info"]
    stems = h.get(1269, {})
    font["stems"] = (len(stems.get("ttStemsV", [])), len(stems.get("ttStemsH", [])))
    font["tt"] = {k: h[e] for k, e in (("ppems", 1268), ("stems", 1269), ("ppems1", 1524), ("zones", 1255), ("stemsnaplimit", 1272), ("zoneppm", 1274),
                                       ("codeppm", 1275), ("dropoutppm", 1604), ("deltas", 1273), ("gasp", 1265), ("info", 1264)) if e in h}
    font["prog"] = {k: bytes.fromhex(h[e]) for k, e in (("prep", 1262), ("fpgm", 1263)) if h.get(e)}
    if h.get(1261):
        b = bytes.fromhex(h[1261])
        font["prog"]["cvt"] = [int.from_bytes(b[i : i + 2], "little", signed=True) for i in range(0, len(b), 2)]
    font["maxp"] = h.get(1264, {})
    font["kern"] = {(i, r): v for i, g in enumerate(glyphs) for r, v in g["d"].get("kerning", {}).items()}
    font["classes"] = []
    for eid, d in font["head"]:
        if eid == 1277:
            name, _, body = d.partition(":")
            fl = h.get(2026, {}).get(name, (0,))[0]
            font["classes"].append({"name": name, "members": [x.rstrip("'") for x in body.split()], "keys": [x[:-1] for x in body.split() if x.endswith("'")],
                                    "sides": [s for s, b in ((1, FIRST), (2, SECOND)) if fl & b]})
    return font
