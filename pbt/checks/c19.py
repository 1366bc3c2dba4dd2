import os
from pathlib import Path

from fontTools.designspaceLib import DesignSpaceDocument
from hypothesis import strategies as st

from pbt import cli, ufo
from pbt import font as f
from pbt.common import Prop, check, eq, label

RULE = "Fonts with 0 to 4 axes, generated axis names and mappings, master names and locations, primary instances and glyphs; designspace and masters compared with the model in memory and on disk, below relative and absolute paths."
ASSUMPTIONS = [
    "a font with n axes has 2^n masters and a location for each of them",
    "axis names are unique in their first four characters, and family and instance names are fit for file names",
    "the designspace names the masters' design coordinates in thousandths, as the axis mappings do",
]
TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF"}
coord = st.one_of(st.integers(0, 1000), st.integers(-200, 3000), st.integers(0, 9990000).map(lambda v: v / 10000))
design = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.25]), st.integers(0, 1000).map(lambda v: v / 1000), st.floats(0, 1, allow_nan=False))
name = st.text(st.sampled_from("abcXYZ 019-é"), min_size=1, max_size=10).map(str.strip).filter(bool)


@st.composite
def mm(draw, axes=(0, 1, 1, 2, 2, 3, 4), parts=frozenset(["components", "anchors", "guides", "mask"]), incomplete=True):
    font = draw(f.fonts(parts=parts, axes=axes, max_glyphs=3, unique_names=True))
    k, n = font["axes"], font["n"]
    pool = draw(st.permutations(list(TAGS))) if draw(st.booleans()) else draw(st.permutations([*TAGS, "Contrast", "slope", "Zeta Size", "Ärger"]))
    font["axis_names"] = pool[:k]
    mm = font["mm"] = [(1514, a) for a in font["axis_names"]]
    if draw(st.booleans()):
        mm.append((1523, [[(0, 0)] * draw(st.integers(0, 2)) + [(100, draw(st.sampled_from([100, 200])))] * draw(st.integers(0, 1)) for _ in range(k)]))
    font["maps"] = [[] for _ in range(k)]
    if draw(st.integers(0, 3)):
        for a in range(k):
            num = draw(st.integers(0, 10))
            us = sorted(draw(st.sets(coord, min_size=num, max_size=num)))
            ds = sorted(draw(st.lists(design, min_size=len(us), max_size=len(us))))
            font["maps"][a] = list(zip(map(float, us), ds))
            if draw(st.integers(0, 5)) == 0:  # not in ascending order
                font["maps"][a] = draw(st.permutations(font["maps"][a]))
        junk = draw(st.tuples(st.floats(-10, 10), st.floats(-10, 10)))
        mm.append((1515, [len(x) for x in font["maps"]] + [0] * (4 - k)))
        mm.append((1516, [p for x in font["maps"] for p in x + [junk] * (10 - len(x))] + [junk] * 10 * (4 - k)))
    font["locs"] = [(i + 1, tuple(draw(design) if a < k and draw(st.integers(0, 2)) == 0 else float(i >> a & 1) if a < k else 0.0 for a in range(4))) for i in range(n)]
    font["master_names"] = [draw(st.one_of(st.just(f"M {i}"), name)) for i in range(n)]
    if incomplete and draw(st.integers(0, 4)) == 0:
        have = draw(st.integers(0, n))
        font["master_names"] = font["master_names"][:have] + [None] * (n - have)
    if draw(st.integers(0, 3)):
        font["instances"] = draw(st.lists(st.fixed_dictionaries({"name": name, "values": st.tuples(*[st.integers(-20000, 30000000).map(lambda v: v / 10000)] * 4)}), max_size=4))
        font["tail"].append((1254, font["instances"]))
    font["family"] = draw(st.one_of(st.none(), name))
    if font["family"]:
        font["head"].append((draw(st.sampled_from([1027, 1026])), font["family"]))
    font["ot_family"] = draw(st.one_of(st.none(), name))
    if font["ot_family"]:
        font["head"].append((1024, font["ot_family"]))
    return font


def closeto(a, b):
    return abs(a - b) <= 1.01e-6 + 1e-9 * max(abs(a), abs(b))  # the file format has 6 decimals


def same_loc(got, want, what):
    check(set(got) == set(want) and all(closeto(got[a], want[a]) for a in want), lambda: f"{what}: {got} instead of {want}")


def forward(x, pts):
    """Reference: piecewise linear, shifted beyond the ends."""
    if not pts:
        return x
    pts = sorted(pts)
    if x <= pts[0][0]:
        return x + pts[0][1] - pts[0][0]
    if x >= pts[-1][0]:
        return x + pts[-1][1] - pts[-1][0]
    for (a, b), (c, d) in zip(pts, pts[1:]):
        if a <= x <= c:
            return b + (d - b) * (x - a) / (c - a)


def check_ds(ds, font, files):
    k, n = font["axes"], font["n"]
    names = font["axis_names"]
    eq([a.name for a in ds.axes], names, "axis names")
    eq(len({a.tag for a in ds.axes}), k, "number of different axis tags")
    inst = font.get("instances", [])
    for a, axis in enumerate(ds.axes):
        what = f"axis {axis.name!r}"
        if axis.name in TAGS:
            eq(axis.tag, TAGS[axis.name], f"{what}: tag")
        maps = font["maps"][a]
        if maps:
            eq([(x, y) for x, y in axis.map], [(u, round(d * 1000)) for u, d in maps], f"{what}: mappings")
            eq((axis.minimum, axis.maximum), (min(maps)[0], max(maps)[0]), f"{what}: range")
        else:
            eq(list(axis.map), [], f"{what}: mappings")
        check(axis.minimum <= axis.default <= axis.maximum, lambda: f"{what}: default {axis.default} outside of {axis.minimum}-{axis.maximum}")
        eq([(x.name, x.userValue) for x in axis.axisLabels], [(i["name"], i["values"][0]) for i in inst] if k == 1 else [], f"{what}: labels")
    eq(len(ds.sources), n, "number of sources")
    for i, s in enumerate(ds.sources):
        what = f"source {i}"
        same_loc(s.location, {names[a]: 1000 * font["locs"][i][1][a] for a in range(k)}, f"{what}: location")
        if font["master_names"][i] is not None:
            eq(s.name, font["master_names"][i], f"{what}: name")
        if s.path and s.filename:
            eq(os.path.basename(s.path), os.path.basename(s.filename), f"{what}: file name")
        if files is not None:
            eq(os.path.realpath(s.path), os.path.realpath(files[i]), f"{what}: path")
    eq(len({s.name for s in ds.sources if s.name not in font["master_names"]}), font["master_names"].count(None) if not overlap(font) else len({s.name for s in ds.sources if s.name not in font["master_names"]}), "names of unnamed masters")
    eq(len(ds.instances), len(inst), "number of instances")
    families = {s.familyName for s in [*ds.sources, *ds.instances]}
    check(len(families) == 1, lambda: f"different families: {families}")
    if font["ot_family"]:
        eq(families, {font["ot_family"]}, "family name")
    for s, p in zip(ds.instances, inst):
        what = f"instance {p['name']!r}"
        eq(s.styleName, p["name"], f"{what}: style name")
        same_loc(s.userLocation, {names[a]: p["values"][a] for a in range(k)}, f"{what}: location")
        got = s.getFullDesignLocation(ds)
        same_loc(got, {names[a]: forward(p["values"][a], [(u, round(d * 1000)) for u, d in font["maps"][a]]) for a in range(k)}, f"{what}: design location")
    check(len({s.filename for s in ds.instances}) == len({p["name"] for p in inst}), lambda: "instances share a file name")


def overlap(font):
    """An unnamed master gets a made-up name that another master has."""
    return any(x and x[0] == "m" for x in font["master_names"])


def shape(g):
    return ([[(t, s) for t, s, _, _ in ct] for ct in g["contours"]], [b for b, _ in g["components"]], [a[0] for a in g["anchors"]], g["unicodes"])


def compatible(vs):
    for i, v in enumerate(vs[1:], 1):
        what = f"masters 0 and {i}"
        eq(v["order"], vs[0]["order"], f"{what}: glyph order")
        eq(set(v["glyphs"]), set(vs[0]["glyphs"]), f"{what}: glyphs")
        for n in v["glyphs"]:
            eq(shape(v["glyphs"][n]), shape(vs[0]["glyphs"][n]), f"{what}: structure of glyph {n!r}")
        eq(v["groups"], vs[0]["groups"], f"{what}: groups")
        eq(v["features"], vs[0]["features"], f"{what}: features")
        eq({k: set(x) for k, x in v["layers"].items()}, {k: set(x) for k, x in vs[0]["layers"].items()}, f"{what}: layers")
        for k in v["layers"]:
            for n in v["layers"][k]:
                eq(shape(v["layers"][k][n]), shape(vs[0]["layers"][k][n]), f"{what}: structure of {k} of glyph {n!r}")


def memory_case(font):
    label(f"{font['axes']} axes")
    b = f.builder(font)
    ms, ds = b.get_ufos_designspace(Path("x/y.ufo"), silent=True)
    eq(len(ms), font["n"], "number of masters")
    compatible([ufo.view(u) for u in ms])
    if not font["axes"]:
        check(ds is None, lambda: "a designspace for a single master")
        return
    check_ds(ds, font, None)
    # Asking again gives the same document
    check_ds(b.get_designspace(Path("x/y.ufo")), font, None)
    check_ds(ds, font, None)


def disk_case(case):
    font, where, absolute, again = case
    label(where or "no folder")
    with cli.scratch() as d:
        folder = Path(where)
        if where:
            (d / folder).mkdir(parents=True)
        out = folder / "My Font.ufo"
        b = f.builder(font)
        b.write(d / out if absolute else out, silent=True)
        if again:
            b.write(d / out if absolute else out, silent=True, overwrite=True)
        files = [d / folder / (f"My Font-{i}.ufo" if i else "My Font.ufo") for i in range(font["n"])]
        dsp = d / folder / "My Font.designspace"
        eq(sorted(str(p) for p in (d / folder).iterdir()), sorted(map(str, files + [dsp] * bool(font["axes"]))), "files written")
        vs = [ufo.read(p) for p in files]
        for i, v in enumerate(vs):
            for g in font["glyphs"]:
                got = v["glyphs"][g["name"]]
                eq([got["width"], got["height"]], list(g["d"]["metrics"][i]), f"metrics of {g['name']!r} in file {i}")
        compatible(vs)
        if font["axes"]:
            check_ds(DesignSpaceDocument.fromfile(dsp), font, files)
            # The files can be moved together
            moved = d / "moved"
            (d / folder).rename(moved) if where and where != "." else None
            if moved.exists():
                check_ds(DesignSpaceDocument.fromfile(moved / dsp.name), font, [moved / p.name for p in files])


def props(tier):
    r = "a font with axes"
    return [
        Prop("memory", mm(), memory_case, 1200, 15000, lambda x: x["axes"] > 0, r),
        Prop("disk", st.tuples(mm(axes=(0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 4), parts=frozenset(["mask"])), st.sampled_from(["", "out", "a/b"]), st.booleans(), st.booleans()), disk_case, 250, 2500, lambda x: x[0]["axes"] > 0, r),
    ]
