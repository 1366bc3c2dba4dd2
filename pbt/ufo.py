"""Views of exported UFOs: in memory (ufoLib2) and on disk (fontTools.ufoLib)."""
from __future__ import annotations

from fontTools.pens.recordingPen import RecordingPointPen

from pbt.common import check


def num(x):
    return int(x) if isinstance(x, float) and x == int(x) else x


def outline(draw):
    """draw(pen) -> contours [[(type, smooth, name, (x, y))]], components [(base, transformation)]"""
    p = RecordingPointPen()
    draw(p)
    cts, comps = [], []
    for name, args, kw in p.value:
        if name == "beginPath":
            cts.append([])
        elif name == "addPoint":
            a = dict(zip(("pt", "segmentType", "smooth", "name"), args))
            a.update({k: v for k, v in kw.items() if k in ("segmentType", "smooth", "name")})
            cts[-1].append((a.get("segmentType"), bool(a.get("smooth")), a.get("name"), (num(a["pt"][0]), num(a["pt"][1]))))
        elif name == "addComponent":
            comps.append((args[0], tuple(num(v) for v in args[1])))
    return cts, comps


def _anchors(l):
    return [(a.get("name"), num(a["x"]), num(a["y"])) for a in l or []]


def _guides(l):
    return [{k: num(g[k]) for k in ("x", "y", "angle", "name", "color") if g.get(k) is not None} for g in l or []]


def _attr(objs, keys):
    return [o if isinstance(o, dict) else {k: getattr(o, k, None) for k in keys} for o in objs]


AK = ("name", "x", "y", "color")
GK = ("x", "y", "angle", "name", "color")


def view_glyph(g):
    cts, comps = outline(g.drawPoints)
    return {"width": num(g.width), "height": num(g.height), "unicodes": list(g.unicodes), "contours": cts, "components": comps,
            "anchors": _anchors(_attr(g.anchors, AK)), "guidelines": _guides(_attr(g.guidelines, GK)),
            "lib": dict(g.lib), "note": g.note}


def view(font):
    """In-memory ufoLib2 font."""
    out = {"order": list(font.lib.get("public.glyphOrder", [])), "glyphs": {n: view_glyph(font[n]) for n in font.keys()},
           "lib": dict(font.lib), "groups": {k: list(v) for k, v in font.groups.items()}, "kerning": dict(font.kerning),
           "features": font.features.text, "info": font.info, "layers": {}}
    for layer in font.layers:
        if layer is not font.layers.defaultLayer:
            out["layers"][layer.name] = {n: view_glyph(layer[n]) for n in layer.keys()}
    return out


def plain_layers(v, what):
    """Points of the background have no names: hints refer to points of the glyph."""
    for ln, layer in v["layers"].items():
        for n, g in layer.items():
            named = [p for ct in g["contours"] for p in ct if p[2] is not None]
            check(not named, lambda: f"{what}: named points in layer {ln}, glyph {n!r}: {named}")


class _Obj:
    pass


def _read(gs, name):
    o = _Obj()
    p = RecordingPointPen()
    gs.readGlyph(name, o, p)
    cts, comps = outline(p.replay)
    return {"width": num(getattr(o, "width", 0)), "height": num(getattr(o, "height", 0)), "unicodes": list(getattr(o, "unicodes", [])),
            "contours": cts, "components": comps, "anchors": _anchors(getattr(o, "anchors", [])),
            "guidelines": _guides(getattr(o, "guidelines", [])), "lib": dict(getattr(o, "lib", {})), "note": getattr(o, "note", None)}


class Info(_Obj):
    pass


def read(path):
    """A UFO on disk, read and validated by fontTools.ufoLib."""
    from fontTools.ufoLib import UFOReader

    r = UFOReader(str(path), validate=True)
    info = Info()
    r.readInfo(info)
    lib = r.readLib()
    out = {"order": list(lib.get("public.glyphOrder", [])), "lib": lib, "groups": r.readGroups(), "kerning": r.readKerning(),
           "features": r.readFeatures(), "info": info, "layers": {}}
    d = r.getDefaultLayerName()
    for ln in r.getLayerNames():
        gs = r.getGlyphSet(ln)
        v = {n: _read(gs, n) for n in gs.keys()}
        if ln == d:
            out["glyphs"] = v
        else:
            out["layers"][ln] = v
    r.close()
    return out
