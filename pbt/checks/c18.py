import json
import tomllib
import xml.etree.ElementTree as ET
from base64 import b64decode

from fontTools.pens.hashPointPen import HashPointPen
from fontTools.ttLib.tables.ttProgram import Program
from hypothesis import strategies as st

from pbt import cli, real, ufo
from pbt import font as f
from pbt import model as m
from pbt import outline as o
from pbt.common import Prop, check, eq, label

RULE = "Fonts with generated TrueType stems, zones, deltas, limits, programs and glyph commands (plain and composite glyphs), any of the font-level entries left out; the UFO libs and the output of the hinting exporter are compared with a reference, every reference in a command being resolved."
ASSUMPTIONS = [
    "in fonts without missing items, point numbers refer to nodes of the glyph or to one of its side bearings",
    "a link to a missing stem refers to the first stem, as the program announces in its warning",
    "a glyph has either nodes or components, and the hinted contours of a base glyph are not closed by merging curve points",
    "where two pixel sizes have the same ppm, the bigger size wins, as the program announces in its warning",
    "the exporter's tool for hinting data does not output the dropout limit and the obsolete entry for 2 and 3 pixels",
]
GLYPH, FONT, PROG = "com.fontlab.ttprogram", "com.fontlab.v2.tth", "public.truetype.instructions"
ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}
CODES = {"AlignBottom": "alignb", "AlignTop": "alignt", "SingleLinkH": "singleh", "SingleLinkV": "singlev", "DoubleLinkH": "doubleh",
         "DoubleLinkV": "doublev", "AlignH": "alignh", "AlignV": "alignv", "InterpolateH": "interpolateh", "InterpolateV": "interpolatev",
         "MDeltaH": "mdeltah", "MDeltaV": "mdeltav", "FDeltaH": "fdeltah", "FDeltaV": "fdeltav"}
POINTS = {"pt": "point", "pti": "point", "pt1": "point1", "pt2": "point2"}
LIMITS = {"stemsnaplimit": (1272, 68), "zoneppm": (1274, 48), "codeppm": (1275, None), "dropoutppm": (1604, 255)}
MAXP = {"max_zones": "maxZones", "max_twilight_points": "maxTwilightPoints", "max_storage": "maxStorage", "max_function_defs": "maxFunctionDefs",
        "max_instruction_defs": "maxInstructionDefs", "max_stack_elements": "maxStackElements"}
tname = st.one_of(st.sampled_from(["", "", "X", "X", "h00", "v00", "v01", "X#00", "X#1", "Y: 90", "é<&\"'>"]), f.words)
clash = st.sampled_from(["X", "X", "X", "X#00", "X#01", "X#1", "X#2", "X%", "X%", "50%", "50%"])  # names that get in each other's way
ppm = st.one_of(st.integers(1, 12), st.integers(0, 250))
small = st.one_of(st.integers(-2000, 2000), m.val)


def total(glyphs, g):
    comps = g["d"].get("components")
    return sum(total(glyphs, glyphs[c["gid"]]) for c in comps) if comps else sum(o.num_nodes(c) for c in g["cts"])


TT = ["ComicJensPro-Regular3.000.ttf.vfb", "ComicJensPro-Regular3.000.ttf.vfb", "IBMPlexSerif-Text.vfb", "BinaryImport.vfb", "truetype_stems.vfb", "imported_glyph.vfb"]


@st.composite
def tt(draw, stale=False, axes=(0,) * 9 + (1, 1, 1, 2, 2, 3), closing="any", ends=False):
    """ends: closed cubic contours that end where they start, commands at these points."""
    comp = not ends and draw(st.booleans())
    kw = {"kinds": ("line", "qcurve")} if comp else {"kinds": ("line", "curve", "curve")} if ends else {}
    font = draw(f.fonts(parts=frozenset(["mask"]), axes=axes, min_glyphs=1, max_glyphs=4, unique_names=True, closing=closing, **kw))
    n, gs = font["n"], font["glyphs"]
    for g in gs if ends else []:
        for ct in g["cts"]:
            ct["open"] = False
            if ct["segs"]:
                ct["segs"][-1][1][-1] = list(ct["start"])
        g["d"]["nodes"] = o.nodes(g["cts"], n)
    t = font["tt"] = {}
    stems = {}
    stem_name = clash if draw(st.integers(0, 3)) == 0 else tname
    zone_name = clash if draw(st.integers(0, 3)) == 0 else tname
    for d in ("ttStemsV", "ttStemsH"):
        stems[d] = draw(m.some(st.fixed_dictionaries({"value": small, "name": stem_name, "6": ppm}), 4, 14))
    if draw(st.integers(0, 7)):
        t["stems"] = {d: [{"value": s["value"], "name": s["name"], "round": {6: s["6"]}} for s in v] for d, v in stems.items()}
    else:
        stems = {d: [] for d in stems}
    if draw(st.integers(0, 4)):
        num = {d: len(stems[d]) if draw(st.integers(0, 5)) else draw(st.integers(0, 5)) for d in stems}
        t["ppems"] = {d: [{"stem": i, "round": {k: draw(ppm) for k in (2, 3, 4, 5)}} for i in range(num[d])] for d in stems}
    if "stems" in t and draw(st.integers(0, 4)):
        t["ppems1"] = {d: [{"stem": i, "round": {1: draw(ppm)}} for i in range(len(stems[d]))] for d in stems}
    zones = {k: draw(m.some(st.fixed_dictionaries({"position": small, "value": small, "name": zone_name}), 4, 14)) for k in ("ttZonesT", "ttZonesB")}
    if draw(st.integers(0, 7)):
        t["zones"] = zones
    else:
        zones = {k: [] for k in zones}
    nz = sum(map(len, zones.values()))
    idx = st.integers(-nz - 2, nz + 2) if stale else st.integers(0, nz - 1) if nz else st.nothing()
    if draw(st.integers(0, 2)):
        t["deltas"] = draw(st.dictionaries(idx, st.dictionaries(st.integers(0, 300), small, min_size=1, max_size=4), max_size=3)) if nz or stale else {}
    for k, (_, default) in LIMITS.items():
        if draw(st.booleans()):
            t[k] = draw(st.one_of(st.integers(0, 260), st.just(default if default else 0)))
    u16 = st.integers(0, 0xFFFF)
    if draw(st.integers(0, 2)) == 0:
        t["gasp"] = draw(m.some(st.fixed_dictionaries({"maxPpem": u16, "flags": u16}), 4, 9, unique_by=lambda r: r["maxPpem"]))
        font["head"].append((1265, t["gasp"]))
    if draw(st.integers(0, 2)) == 0:
        t["info"] = draw(m._ttinfo_gen(None))
        font["head"].append((1264, t["info"]))
    for i, g in enumerate(gs):
        d = g["d"]
        if comp and i and draw(st.booleans()):
            d["nodes"], g["cts"] = [], []
            d["components"] = [
                {"gid": draw(st.integers(0, i - 1)), "offsetX": draw(f.per(f.crd, n)), "offsetY": draw(f.per(f.crd, n)), "scaleX": [1.0] * n, "scaleY": [1.0] * n}
                for _ in range(draw(st.integers(1, 3)))]
        if draw(st.integers(0, 3)) == 0:
            continue
        num = total(gs, g)
        pt = st.one_of(st.integers(0, max(num - 1, 0)), st.integers(-2 * stale, num + 1 + 2 * stale))
        if g["cts"] and (ends or draw(st.integers(0, 2)) == 0):
            # The ends of contours: they may be one point in the UFO
            at = [x for i in range(len(g["cts"])) for x in (sum(map(o.num_nodes, g["cts"][:i])), sum(map(o.num_nodes, g["cts"][: i + 1])) - 1)]
            pt = st.sampled_from(at)
        cmds = []
        for _ in range(draw(st.integers(6, 12) if ends else st.integers(1, 6))):
            code, names = m.TT[draw(st.sampled_from(sorted(m.TT)))]
            p = {}
            for k in names:
                if k in POINTS:
                    p[k] = draw(pt)
                elif k == "zone":
                    side = "ttZonesT" if code == "AlignTop" else "ttZonesB"
                    z = len(zones[side])
                    p[k] = draw(st.integers(-1, z + 1) if stale or not z else st.integers(0, z - 1))
                elif k == "stem":
                    z = len(stems["ttStemsH" if code.endswith("H") else "ttStemsV"])
                    p[k] = draw(st.one_of(st.sampled_from([-1, -2, -3]), st.integers(0, z + 1) if stale else st.integers(0, z - 1) if z else st.nothing()))
                elif k == "align":
                    p[k] = draw(st.sampled_from([-1, 0, 1, 2, 3, 4, 5, -2]))
                else:
                    p[k] = draw(small)
            cmds.append({"cmd": code, "params": p})
        d["tth"] = cmds
    f.share_names(draw, font)
    head = font["head"]
    for k, num in (("ppems", 1268), ("stems", 1269), ("ppems1", 1524), ("zones", 1255), ("stemsnaplimit", 1272), ("zoneppm", 1274), ("codeppm", 1275), ("dropoutppm", 1604), ("deltas", 1273)):
        if k in t:
            head.append((num, t[k]))
    return font


def ref_stems(t):
    """direction -> reference stems."""
    out = {}
    for d in ("ttStemsH", "ttStemsV"):
        out[d] = []
        for i, s in enumerate(t.get("stems", {}).get(d, [])):
            px = dict(s["round"])
            for k in ("ppems", "ppems1"):
                for x in t.get(k, {}).get(d, []):
                    if x["stem"] == i:
                        px.update(x["round"])
            r = {}
            for size, p in sorted(px.items()):
                r[str(p)] = size
            out[d].append({"horizontal": d == "ttStemsV", "width": s["value"], "round": r, "name": s["name"]})
    return out


def ref_zones(t, delta="delta"):
    z = {k: [{"position": x["position"], "top": k == "ttZonesT", "width": x["value"], "name": x["name"]} for x in t.get("zones", {}).get(k, [])]
         for k in ("ttZonesB", "ttZonesT")}
    both = z["ttZonesB"] + z["ttZonesT"]
    for i, d in t.get("deltas", {}).items():
        if 0 <= i < len(both):
            both[i][delta] = {str(k): v for k, v in d.items()}
    return z


def no_name(d):
    return {k: v for k, v in d.items() if k != "name"}


def named(got, want, what):
    """The exported items are the wanted ones; unique original names are kept."""
    key = lambda x: json.dumps(x, sort_keys=True)
    eq(sorted(map(key, got.values())), sorted(key(no_name(x)) for x in want), what)
    names = [x["name"] for x in want]
    for x in want:
        if x["name"] and names.count(x["name"]) == 1 and not any(y != x["name"] and "#" in x["name"] for y in names) and x["name"][0] not in "hv":
            eq(got.get(x["name"]), no_name(x), f"{what}: {x['name']!r}")


def place(cts, i):
    out = {}
    k = 0
    for ci, c in enumerate(cts):
        pts = o.point_list(c, i)
        for idx in o.on_curve_map(c):
            out[k] = (ci, idx if idx < len(pts) else 0)
            k += 1
    return out


def locate(gs, g, node, i):
    """Reference: the exported point of a node: side bearing, (contour, point), or component index and the same within it; None if there is no such node."""
    num = total(gs, g)
    if node >= num:
        return {0: "lsb", 1: "rsb"}.get(node - num)
    if node < 0:
        return None
    comps = g["d"].get("components")
    if not comps:
        return place(g["cts"], i)[node]
    for k, c in enumerate(comps):
        base = gs[c["gid"]]
        n = total(gs, base)
        if node < n:
            return (k, locate(gs, base, node, i))
        node -= n


def resolve(view, gs, g, name):
    if name in ("lsb", "rsb"):
        return name
    comps = g["d"].get("components")
    if not comps:
        hits = [(ci, pi) for ci, ct in enumerate(view["glyphs"][g["name"]]["contours"]) for pi, p in enumerate(ct) if p[2] == name]
        check(len(hits) <= 1, lambda: f"glyph {g['name']!r}: {len(hits)} points are called {name!r}")
        return hits[0] if hits else None
    inner, _, k = name.rpartition("-")
    if not k.isdigit() or int(k) >= len(comps):
        return None
    at = resolve(view, gs, gs[comps[int(k)]["gid"]], inner)
    return at and (int(k), at)


def attrs_of(p, code, stems, zones):
    """Reference: attributes with plain values, and the stem or zone."""
    out = {"code": CODES[code]}
    ref = None
    if "align" in p and p["align"] > -1:
        out["align"] = ALIGN.get(p["align"], "round")
    if "stem" in p:
        if p["stem"] < -1:
            out["round"] = "true"
        elif p["stem"] >= 0:
            s = stems["ttStemsH" if code.endswith("H") else "ttStemsV"]
            if s:
                ref = ("stem", s[p["stem"] if p["stem"] < len(s) else 0])
    if "zone" in p:
        z = zones["ttZonesT" if code == "AlignTop" else "ttZonesB"]
        if 0 <= p["zone"] < len(z):
            ref = ("zone", z[p["zone"]])
    if "shift" in p:
        out.update(delta=str(p["shift"]), ppm1=str(p["ppm1"]), ppm2=str(p["ppm2"]))
    return out, ref


def check_font(v, font, i, b64=False):
    ufo.plain_layers(v, f"master {i}")
    f.rename(font, v["order"])
    t, gs = font["tt"], font["glyphs"]
    stems, zones = ref_stems(t), ref_zones(t)
    lib = v["lib"].get(FONT, {})
    want = {k: t[k] for k, (_, default) in LIMITS.items() if k in t and t[k] != default}
    eq({k: x for k, x in lib.items() if k in LIMITS}, want, "limits")
    named(lib.get("stems", {}), stems["ttStemsH"] + stems["ttStemsV"], "stems")
    named(lib.get("zones", {}), zones["ttZonesB"] + zones["ttZonesT"], "zones")
    check(not set(lib) - {"stems", "zones", *LIMITS}, lambda: f"unknown hinting data {sorted(lib)}")
    for g in gs:
        name = g["name"]
        data = v["glyphs"][name]["lib"].get(GLYPH)
        cmds = g["d"].get("tth")
        if not cmds:
            check(data is None, lambda: f"glyph {name!r}: unexpected hints {data!r}")
            continue
        check(data is not None, lambda: f"glyph {name!r}: no hints")
        if b64:
            data = b64decode(data).decode("utf-8")
        root = ET.fromstring(data)
        els = [dict(e.attrib) for e in root]
        eq((root.tag, {e.tag for e in root}, len(els)), ("ttProgram", {"ttc"}, len(cmds)), f"glyph {name!r}: program")
        for cmd, a in zip(cmds, els):
            what = f"glyph {name!r}, master {i}, {cmd}"
            p = cmd["params"]
            want, ref = attrs_of(p, cmd["cmd"], stems, zones)
            for k, attr in POINTS.items():
                if k in p:
                    check(attr in a, lambda: f"{what}: no {attr}")
                    eq(resolve(v, gs, g, a.pop(attr)), locate(gs, g, p[k], i), f"{what}: {attr}")
            if ref:
                kind, item = ref
                check(kind in a, lambda: f"{what}: no {kind}")
                eq(lib[f"{kind}s"].get(a.pop(kind)), no_name(item), f"{what}: {kind}")
            eq(a, want, what)


def ufo_case(font):
    label(f"{font['n']} masters")
    if any(g["d"].get("components") and g["d"].get("tth") for g in font["glyphs"]):
        label("composite")
    ms = f.export(font)
    plain = f.export(font, pshints=False, base64=True)
    for i, (u, p) in enumerate(zip(ms, plain)):
        check_font(ufo.view(u), font, i)
        check_font(ufo.view(p), font, i, True)


def disk_case(font):
    with cli.scratch() as d:
        f.builder(font).write(d / "a.ufo", silent=True)
        for i in range(font["n"]):
            check_font(ufo.read(d / (f"a-{i}.ufo" if i else "a.ufo")), font, i)


# ------------------------------------------------------------- the exporter


@st.composite
def exported(draw):
    """Some fonts have several glyphs of the same name: they are told apart as in the font object."""
    font = draw(tt(axes=(0,), stale=True))
    seen = set()
    for g in font["glyphs"]:
        i = 0
        while g["name"] in seen:
            i += 1
            g["name"] = f"{g['d']['name']}#{i}"
        seen.add(g["name"])
    return font


def check_tth(got, font):
    t, gs = font["tt"], font["glyphs"]
    stems, zones = ref_stems(t), ref_zones(t, "deltas")
    fo = got["font"]
    named(fo.get("stems", {}), stems["ttStemsH"] + stems["ttStemsV"], "stems")
    named(fo.get("zones", {}), zones["ttZonesB"] + zones["ttZonesT"], "zones")
    want = {k: t[k] for k in ("stemsnaplimit", "zoneppm", "codeppm") if k in t}
    if "gasp" in t:
        want["gasp"] = {str(r["maxPpem"]): r["flags"] for r in t["gasp"]}
    want.update({k: t["info"][k] for k in ("head_lowest_rec_ppem", "head_units_per_em") if k in t.get("info", {})})
    eq({k: x for k, x in fo.items() if k not in ("stems", "zones")}, want, "font")
    eq(set(got["glyphs"]), {g["name"] for g in gs if g["d"].get("tth")}, "glyphs with hints")
    for g in gs:
        for cmd, a in zip(g["d"].get("tth", []), got["glyphs"].get(g["name"], []), strict=True):
            what = f"glyph {g['name']!r}, {cmd}"
            p, a = cmd["params"], dict(a)
            want, ref = attrs_of(p, cmd["cmd"], stems, zones)
            if "round" in want:
                want["round"] = True
            for k in ("delta", "ppm1", "ppm2"):
                if k in want:
                    want[k] = int(want[k])
            want.update({POINTS[k]: v for k, v in p.items() if k in POINTS})
            if ref:
                kind, item = ref
                check(kind in a, lambda: f"{what}: no {kind}")
                eq(fo[f"{kind}s"].get(a.pop(kind)), no_name(item), f"{what}: {kind}")
            eq(a, want, what)


def tth_case(case):
    from vfbLib.tth import vfb2tth

    font, fmt = case
    label(fmt)
    label("duplicate names" if any(g["name"] != g["d"]["name"] for g in font["glyphs"]) else "unique names")
    with cli.scratch() as d:
        (d / "a.vfb").write_bytes(f.data_of(font))
        (d / "out").mkdir()
        cli.run(vfb2tth, d / "a.vfb", "-f", fmt, "-p", d / "out")
        eq(sorted(cli.tree(d)), ["a.vfb", f"out/a.tth.{fmt}"], "files")
        p = d / "out" / f"a.tth.{fmt}"
        if fmt == "toml":
            got = tomllib.loads(p.read_text("utf-8"))
        elif fmt == "yaml":
            import yaml

            got = yaml.safe_load(p.read_text("utf-8"))
        else:
            got = json.loads(p.read_text("utf-8"))
    check_tth(got, font)


# ------------------------------------------------------------- programs

PUSH = st.lists(st.integers(0, 255), min_size=1, max_size=8).map(lambda l: bytes([0xB0 + len(l) - 1, *l]))
NPUSH = st.lists(st.integers(0, 255), min_size=1, max_size=12).map(lambda l: bytes([0x40, len(l), *l]))
PUSHW = st.lists(st.integers(0, 255), min_size=2, max_size=16).filter(lambda l: len(l) % 2 == 0).map(lambda l: bytes([0xB8 + len(l) // 2 - 1, *l]))
OPS = st.sampled_from([bytes([x]) for x in (0x00, 0x01, 0x18, 0x19, 0x1B, 0x20, 0x21, 0x23, 0x2A, 0x2B, 0x2C, 0x2D, 0x2F, 0x30, 0x31, 0x39, 0x42, 0x43, 0x44, 0x45, 0x4F, 0x58, 0x59, 0x60, 0x61, 0x70, 0x85, 0xC0, 0xDF, 0xE0, 0xFF)])
prog = st.lists(st.one_of(OPS, OPS, PUSH, NPUSH, PUSHW), max_size=12).map(b"".join)


@st.composite
def programs(draw):
    font = draw(f.fonts(parts=frozenset(), axes=(0, 0, 1), min_glyphs=1, max_glyphs=4, unique_names=True))
    gs = font["glyphs"]
    font["prog"] = draw(st.fixed_dictionaries({}, optional={"prep": prog, "fpgm": prog, "cvt": st.lists(st.integers(-32768, 32767), max_size=12)}))
    if draw(st.booleans()):
        font["maxp"] = {k: draw(st.one_of(st.just(0), st.integers(0, 65535))) for k in MAXP}
    imp = m.imported_gen(None)
    for i, g in enumerate(gs):
        if i and draw(st.integers(0, 2)) == 0:
            g["d"]["components"] = [{"gid": draw(st.integers(0, i - 1)), "offsetX": draw(f.per(f.crd, font["n"])), "offsetY": draw(f.per(f.crd, font["n"])),
                                     "scaleX": [1.0] * font["n"], "scaleY": draw(st.sampled_from([[1.0], [-1.0], [0.5]])) * font["n"]}]
        if draw(st.booleans()):
            g["d"]["imported"] = {**draw(imp), "code": draw(prog)}
    p = font["prog"]
    if "cvt" in p:
        font["head"].append((1261, b"".join(v.to_bytes(2, "little", signed=True) for v in p["cvt"]).hex()))
    for k, num in (("prep", 1262), ("fpgm", 1263)):
        if k in p:
            font["head"].append((num, p[k].hex()))
    if "maxp" in font:
        font["head"].append((1264, {**draw(m._ttinfo_gen(None)), **font["maxp"]}))
    f.share_names(draw, font)
    return font


def assembled(text):
    p = Program()
    p.fromAssembly(text)
    return p.getBytecode()


def check_programs(v, font, glyphset):
    f.rename(font, v["order"])
    p = font["prog"]
    lib = v["lib"].get(PROG, {})
    want = {MAXP[k]: x for k, x in font.get("maxp", {}).items() if k in MAXP}
    if "cvt" in p:
        want["controlValue"] = {str(i): x for i, x in enumerate(p["cvt"])}
    eq({k: x for k, x in lib.items() if k in ("controlValue", *MAXP.values())}, want if any(want.values()) or len(p) else {}, "font-level values")
    for k, key in (("prep", "controlValueProgram"), ("fpgm", "fontProgram")):
        eq(key in lib, k in p, f"{key} exported")
        if k in p:
            eq(assembled(lib[key]), p[k], f"bytecode of {key}")
    for g in font["glyphs"]:
        gl = v["glyphs"][g["name"]]["lib"].get(PROG)
        code = g["d"].get("imported", {}).get("code", b"")
        eq(gl is not None, bool(code), f"{g['name']!r}: program exported")
        if gl:
            eq(assembled(gl["assembly"]), code, f"{g['name']!r}: bytecode")
            pen = HashPointPen(glyphset[g["name"]].width, glyphSet=glyphset)
            glyphset[g["name"]].drawPoints(pen)
            eq(gl["id"], pen.hash, f"{g['name']!r}: hash of the outline the program belongs to")


def prog_case(font):
    for u in f.export(font):
        check_programs(ufo.view(u), font, u)


def nt(font):
    return any(g["d"].get("tth") for g in font["glyphs"]) or bool(font["tt"].get("stems") or font["tt"].get("zones"))


def props(tier):
    r = "a font with stems, zones or glyph commands"
    return [
        Prop("ufo", tt(), ufo_case, 1500, 20000, nt, r),
        Prop("contour-ends", tt(axes=(0,), ends=True), ufo_case, 300, 4000, nt, r + " at the ends of contours"),
        Prop("missing-items", tt(stale=True), ufo_case, 800, 10000, nt, r + ", some references to stems or zones that do not exist"),
        Prop("real-ufo", real.fonts(prefer=lambda g: "tth" in g["d"], only=TT), ufo_case, 120, 2000, nt, r + " of a real file"),
        Prop("real-exporter", st.tuples(real.fonts(prefer=lambda g: "tth" in g["d"], only=TT), st.sampled_from(["json", "toml", "yaml"])), tth_case, 80, 1500, lambda x: nt(x[0]), r + " of a real file"),
        Prop("real-programs", real.fonts(prefer=lambda g: "imported" in g["d"], only=TT), prog_case, 80, 1500, lambda x: bool(x["prog"]) or any(g["d"].get("imported") for g in x["glyphs"]), "a font with programs of a real file"),
        Prop("disk", tt(axes=(0, 1)), disk_case, 250, 2500, nt, r + ", written and read back"),
        Prop("exporter", st.tuples(exported(), st.sampled_from(["json", "toml", "yaml"])), tth_case, 800, 8000, lambda x: nt(x[0]), r),
        Prop("programs", programs(), prog_case, 800, 8000, lambda x: bool(x["prog"]) or any(g["d"].get("imported") for g in x["glyphs"]), "a font with programs"),
    ]
