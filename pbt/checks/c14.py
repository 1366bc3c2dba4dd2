import colorsys
import re
import shutil
from contextlib import contextmanager

from hypothesis import strategies as st
from ufonormalizer import normalizeUFO

from pbt import cli, real, ufo
from pbt import font as f
from pbt import outline as o
from pbt.common import Prop, check, eq, label

RULE = "Fonts of up to 4 glyphs and 16 masters with well-formed contours, components, anchors, metrics, Unicode values, masks, guides, notes, images and bitmaps; every master exported in memory and to disk and compared value by value."
ASSUMPTIONS = [
    "contours are well-formed, every glyph has a name and metrics, and components refer to existing glyphs",
    "later glyphs with a name that is already taken get any unused name that starts with the original one",
    "anchor, guide and axis names have no control characters and none of <>&\" (ufonormalizer, which is not part of vfbLib, does not escape attributes)",
    "mark colours are compared by hue, as the source stores only a hue",
]


def close(a, b, eps):
    return abs(a - b) <= eps


def names_ok(got, font):
    want = f.glyph_order(font)
    eq(len(got), len(want), "number of glyphs in the glyph order")
    check(len(set(got)) == len(got), lambda: f"glyph order has a name twice: {got}")
    for k, (a, b) in enumerate(zip(got, want)):
        if b is not None:
            eq(a, b, f"name of glyph {k}")
        else:
            check(a.startswith(font["glyphs"][k]["name"]), lambda: f"glyph {k} is called {a!r}")


def same_guides(got, want, props, i, what):
    exp = []
    for d in "hv":
        pr = {p["index"]: p for p in (props or {}).get(d, [])}
        for k, mg in enumerate(want[d]):
            p = pr.get(k + 1, {})
            exp.append((d, mg[i]["pos"], mg[i]["angle"], p.get("name"), p.get("color")))
    eq(len(got), len(exp), f"{what}: number of guides")
    for g, (d, pos, ang, name, col) in zip(got, exp):
        eq((g.get("x", 0), g.get("y", 0)), (pos, 0) if d == "v" else (0, pos), f"{what}: guide position")
        ang = 90 - ang if d == "v" else ang
        a = g.get("angle", 0)
        check(0 <= a <= 360, lambda: f"{what}: angle {a} is outside of the valid range")
        diff = (a - ang) % 180
        check(min(diff, 180 - diff) < 0.0051, lambda: f"{what}: angle {a} instead of {ang}")
        eq(g.get("name"), name, f"{what}: guide name")
        check((g.get("color") is None) == (col is None), lambda: f"{what}: guide colour {g.get('color')} for {col}")
        if col:
            rgba = [float(x) for x in g["color"].split(",")]
            check(all(close(x * 255, int(col[j:j + 2], 16), 0.1) for x, j in zip(rgba, (1, 3, 5))) and rgba[3] == 1,
                  lambda: f"{what}: guide colour {g['color']} for {col}")


def check_glyph(got, g, order, n, i, name, minimal):
    what = f"glyph {name!r}, master {i}"
    eq([got["width"], got["height"]], list(g["d"]["metrics"][i]), f"{what}: advance width and height")
    eq(got["unicodes"], g.get("unicodes", []), f"{what}: Unicode values")
    eq([[(t, s, p) for t, s, _, p in ct] for ct in got["contours"]], [o.point_list(ct, i) for ct in g["cts"]], f"{what}: contours")
    comps = g["d"].get("components", [])
    eq([x[0] for x in got["components"]], [order[x["gid"]] for x in comps], f"{what}: component base glyphs")
    for (_, tr), x in zip(got["components"], comps):
        want = (x["scaleX"][i], 0, 0, x["scaleY"][i], x["offsetX"][i], x["offsetY"][i])
        check(all(close(a, b, 1e-9) for a, b in zip(tr, want)), lambda: f"{what}: component transformation {tr} instead of {want}")
    eq(got["anchors"], [(a.get("name"), a["x"][i], a["y"][i]) for a in g.get("anchors", [])], f"{what}: anchors")
    lib = got["lib"]
    eq("public.markColor" in lib, "mark" in g and not minimal, f"{what}: has a mark colour")
    if "public.markColor" in lib:
        r = [float(x) for x in lib["public.markColor"].split(",")]
        hue = colorsys.rgb_to_hls(*r[:3])[0] * 255
        diff = (hue - g["mark"]) % 255
        check(min(diff, 255 - diff) < 0.2 and r[3] == 1, lambda: f"{what}: mark colour {lib['public.markColor']} for hue {g['mark']}")
    eq(lib.get("com.fontlab.v5.userData"), g.get("customdata"), f"{what}: custom data")
    eq(got["note"], None if minimal else g.get("note"), f"{what}: note")
    same_guides(got["guidelines"], g["d"].get("guides", {"h": [], "v": []}) if not minimal else {"h": [], "v": []}, g.get("guideprops"), i, what)
    im = None if minimal else g.get("image")
    bg = lib.get("com.fontlab.v5.background")
    eq(bg is None, im is None, f"{what}: has no background image")
    if im:
        for k in ("origin", "size_units", "size_pixels"):
            eq(bg[k], im[k], f"{what}: background image {k}")
        eq(bg["bitmap"]["data"], im["bitmap"]["data"], f"{what}: background image data")
    bm = [] if minimal else g.get("bitmaps", [])
    got_bm = lib.get("com.fontlab.v5.bitmaps", [])
    eq(len(got_bm), len(bm), f"{what}: number of bitmaps")
    for a, b in zip(got_bm, bm):
        eq([a["ppemX"], a["ppemY"], a["horiAdvance"], a["vertAdvance"], a["width"], a["height"]],
           [b["ppm"], b["ppm"], *b["adv"], *b["size_pixels"]], f"{what}: bitmap metrics")
        eq([a["horiBearingX"], a["horiBearingY"]], [b["origin"][0], b["origin"][1] + b["size_pixels"][1]], f"{what}: bitmap bearings")
        eq(a["bitDepth"], 1, f"{what}: bits per pixel")
        eq(a["imageData"], b["bitmap"]["data"][::-1], f"{what}: bitmap rows")


def check_view(v, font, i, minimal=False):
    order = v["order"]
    names_ok(order, font)
    eq(sorted(v["glyphs"]), sorted(order), "glyph set and glyph order")
    masks = {}
    for name, g in zip(order, font["glyphs"]):
        check_glyph(v["glyphs"][name], g, order, font["n"], i, name, minimal)
        if g.get("mask") and not minimal:
            masks[name] = g
    ufo.plain_layers(v, f"master {i}")
    bg = v["layers"].get("public.background", {})
    eq(sorted(bg), sorted(masks), "glyphs of the background layer")
    eq(sorted(v["layers"]), ["public.background"] if masks else [], "layers")
    for name, g in masks.items():
        what = f"mask of {name!r}, master {i}"
        eq([[(t, s, p) for t, s, _, p in ct] for ct in bg[name]["contours"]], [o.point_list(ct, i) for ct in g["mask"]], f"{what}: contours")
        eq([bg[name]["width"], bg[name]["height"]], list(g.get("maskmetrics", g["d"]["metrics"])[i]), f"{what}: metrics")
    return order


def export_case(case):
    font, minimal, hints = case
    label(f"{font['n']} masters")
    ms = f.export(font, f.vfb_of(font, minimal=minimal), minimal=minimal, pshints=hints)
    eq(len(ms), font["n"], "number of masters exported")
    for i, u in enumerate(ms):
        v = ufo.view(u)
        check_view(v, font, i, minimal)
        same_guides(ufo._guides(ufo._attr(u.info.guidelines or [], ufo.GK)), font.get("guides", {"h": [], "v": []}) if not minimal else {"h": [], "v": []},
                    font.get("guideprops"), i, f"font, master {i}")


def disk_case(case):
    font, ufoz, norm = case
    with cli.scratch() as d:
        out = d / ("Font.ufoz" if ufoz else "Font.ufo")
        f.builder(font, normalize=norm).write(out, silent=True, ufoz=ufoz)
        found = sorted(p.name for p in d.iterdir() if p.suffix in (".ufo", ".ufoz"))
        paths = [out if i == 0 else out.with_name(f"Font-{i}{out.suffix}") for i in range(font["n"])]
        eq(found, sorted(p.name for p in paths), "UFOs written")
        for i, p in enumerate(paths):
            check_view(ufo.read(p), font, i)
            if norm and not ufoz:
                q = d / "again.ufo"
                shutil.copytree(p, q)
                normalizeUFO(q, onlyModified=False, writeModTimes=False)
                eq(files(q), files(p), f"files of master {i} after normalizing the UFO once more")
                shutil.rmtree(q)


def files(p):
    return {str(x.relative_to(p)): x.read_bytes() for x in sorted(p.rglob("*")) if x.is_file()}


def nt(case):
    font = case[0]
    return any(g["cts"] or g["d"].get("components") for g in font["glyphs"])


def rich(case):
    return nt(case) and case[0]["n"] > 1


def props(tier):
    b = st.booleans()
    few = st.sampled_from([False, False, False, True])
    disk = f.fonts(axes=(0,) * 8 + (1, 1, 2, 2, 3), max_glyphs=3)
    return [
        Prop("glyphs", st.tuples(f.fonts(max_glyphs=5), few, b), export_case, 1000, 15000, nt, "a font with at least one contour or component"),
        Prop("masters", st.tuples(f.fonts(axes=(1, 1, 1, 1, 2, 2, 2, 3, 3, 4)), few, b), export_case, 700, 12000, rich, "a font with several masters and at least one contour or component"),
        Prop("real", st.tuples(real.fonts(), few, b), export_case, 150, 3000, nt, "glyphs of a real file, at least one contour or component"),
        Prop("disk", st.tuples(disk, b, b), disk_case, 250, 3000, nt, "a font with at least one contour or component, written as UFO or zipped UFO and read back"),
    ]
