from hypothesis import strategies as st

from pbt import cli, real, ufo
from pbt import font as f
from pbt import model as m
from pbt import outline as o
from pbt.common import Prop, check, eq, label

RULE = "Fonts whose glyphs have generated outlines, stem and ghost hints, links between nodes and hint replacement programs; every master exported, hint sets resolved to points and compared with a reference, and outlines compared with an export without hints."
ASSUMPTIONS = [
    "hint and node numbers refer to existing items, except in the property about stale data, where only the validity of the result is required",
    "where the start and the end of a contour coincide, the hints of the start point win",
    "widths of -20 and -21 in stored hints mean ghost hints, as in Type 1 fonts",
    "if a point has two hint sets, the last one counts",
    "a negative node number -1-n in a hint replacement stands for node n, as the exporter reads it; the glyph objects are only checked with non-negative ones",
]
KEY = "com.adobe.type.autohint.v2"


def total(cts):
    return sum(o.num_nodes(c) for c in cts)


@st.composite
def hinted(draw, axes=(0, 0, 1, 2), stale=False, closing="any", neg=True):
    font = draw(f.fonts(parts=frozenset(["components", "mask"] if stale else ["mask"]), axes=axes, max_glyphs=3, min_glyphs=1, unique_names=True, closing=closing))
    n = font["n"]
    width = st.one_of(st.integers(-60, 200), st.sampled_from([-20, -21, 20, 21, 0]))
    for g in font["glyphs"]:
        num = total(g["cts"])
        if draw(st.integers(0, 5)) == 0:
            continue
        hint = f.per(st.fixed_dictionaries({"pos": f.crd, "width": width}), n)
        h = {k: draw(m.some(hint, 3)) for k in "hv"}
        links = {"x": [], "y": []}
        node = st.integers(0, num - 1) if num else st.nothing()
        if stale:
            node = st.integers(0, num + 3)
        if (num or stale) and draw(st.booleans()):
            link = st.tuples(node, st.one_of(node, st.sampled_from([-1, -2] + [-3, -9] * stale)))
            links = {k: draw(m.some(link, 3)) for k in "xy"}
        have = {"h": len(h["h"]) + len(links["y"]), "v": len(h["v"]) + len(links["x"])}
        prog = []
        if (num or stale) and draw(st.integers(0, 3)):
            kinds = [k for k in "hv" if have[k] or stale]
            for j in range(draw(st.integers(1, 5))):
                if j:
                    x = draw(node)
                    prog.append(("r", -1 - x if neg and draw(st.integers(0, 5)) == 0 else x))
                for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3, 0])) if kinds else 0):
                    k = draw(st.sampled_from(kinds))
                    prog.append((k, draw(st.integers(0, have[k] - 1 + stale))))
        if prog:
            h["hintmasks"] = prog
        if h["h"] or h["v"] or prog:
            g["d"]["hints"] = h
        if links["x"] or links["y"]:
            g["links"] = links
            g["post"].insert(0, (2008, links))
    f.share_names(draw, font)
    return font


def stems(g, i):
    """Reference: direction -> [(pos, width)] of the glyph in master i, None for links to missing nodes."""
    h = g["d"].get("hints", {"h": [], "v": []})
    out = {}
    pts = [nd["points"][i][0] for nd in g["d"]["nodes"]]
    for d, axis, k in (("h", "y", 1), ("v", "x", 0)):
        out[d] = []
        for mm in h[d]:
            p, w = mm[i]["pos"], mm[i]["width"]
            out[d].append((p + w, -w) if w < 0 and w not in (-20, -21) else (p, w))
        for s, t in g.get("links", {}).get(axis, []):
            if s >= len(pts) or not -2 <= t < len(pts):
                out[d].append(None)
                continue
            a = pts[s][k]
            if t == -1:
                out[d].append((a + 21, -21))
            elif t == -2:
                out[d].append((a, -20))
            else:
                b = pts[t][k]
                out[d].append((min(a, b), abs(b - a)))
    return out


def hint_sets(g, i):
    """Reference: node -> set of stems."""
    s = stems(g, i)
    prog = g["d"].get("hints", {}).get("hintmasks")
    if not prog:
        every = {(d, *x) for d in "hv" for x in s[d] if x}
        return {0: every} if every and g["d"]["nodes"] else {}
    out, node, cur = {}, 0, set()
    for k, x in [*prog, ("r", 0)]:
        if k == "r":
            if cur:
                out[node] = cur
            node, cur = x if x >= 0 else -1 - x, set()
        else:
            if x < len(s[k]) and s[k][x]:
                cur.add((k, *s[k][x]))
    return {k: cur for k, cur in out.items() if k < len(g["d"]["nodes"])}


def place(cts, i):
    """node -> (contour, point) in master i, and the nodes which are merged with the start."""
    out, merged, k = {}, set(), 0
    for ci, c in enumerate(cts):
        pts = o.point_list(c, i)
        for idx in o.on_curve_map(c):
            if idx >= len(pts):
                idx = 0
                merged.add(k)
            out[k] = (ci, idx)
            k += 1
    return out, merged


def found(glyph, what):
    """The exported hint sets by the point they are attached to."""
    pts = {}
    for ci, ct in enumerate(glyph["contours"]):
        for pi, p in enumerate(ct):
            if p[2] is not None:
                check(p[2] not in pts, lambda: f"{what}: two points are called {p[2]!r}")
                pts[p[2]] = (ci, pi)
    if KEY not in glyph["lib"]:
        return {}
    out = {}
    for hs in glyph["lib"][KEY]["hintSetList"]:
        tag = hs["pointTag"]
        check(tag in pts, lambda: f"{what}: hint set for point {tag!r}, which does not exist")
        check(pts[tag] not in out, lambda: f"{what}: two hint sets for point {tag!r}")
        cur = set()
        for s in hs["stems"]:
            kind, p, w = s.split(" ")
            cur.add(({"hstem": "h", "vstem": "v"}[kind], int(p), int(w)))
        check(len(cur) == len(hs["stems"]), lambda: f"{what}: repeated stems {hs['stems']}")
        out[pts[tag]] = cur
    return out


def unnamed(v):
    return {n: [[(t, s, p) for t, s, _, p in ct] for ct in g["contours"]] + g["components"] for n, g in v["glyphs"].items()}


def check_master(v, plain, font, i):
    f.rename(font, v["order"])
    eq(unnamed(v), unnamed(plain), f"master {i}: outlines with and without hints")
    for g in font["glyphs"]:
        what = f"glyph {g['name']!r}, master {i}"
        got = found(v["glyphs"][g["name"]], what)
        where, merged = place(g["cts"], i)
        want = {}
        for node, s in hint_sets(g, i).items():
            if node in merged and want.get(where[node], (None,))[0] == "start":
                continue
            want[where[node]] = ("end" if node in merged else "start", s)
        eq(got, {k: s for k, (_, s) in want.items()}, f"{what}: hint sets")
        check(KEY not in plain["glyphs"][g["name"]]["lib"], f"{what}: hint data in the export without hints")


def export_case(font):
    label(f"{font['n']} masters")
    ms = f.export(font)
    plain = f.export(font, pshints=False)
    for i, (u, p) in enumerate(zip(ms, plain)):
        check_master(ufo.view(u), ufo.view(p), font, i)


def stale_case(font):
    ms = f.export(font)
    plain = f.export(font, pshints=False)
    for i, (u, p) in enumerate(zip(ms, plain)):
        v = ufo.view(u)
        ufo.plain_layers(v, f"master {i}")
        check_master(v, ufo.view(p), font, i)


def disk_case(font):
    with cli.scratch() as d:
        f.builder(font).write(d / "a.ufo", silent=True)
        f.builder(font, pshints=False).write(d / "b.ufo", silent=True)
        for i in range(font["n"]):
            s = f"-{i}" if i else ""
            check_master(ufo.read(d / f"a{s}.ufo"), ufo.read(d / f"b{s}.ufo"), font, i)


def api_case(font):
    """The hint sets that the glyph objects give."""
    v = f.vfb_of(font)
    f.rename(font, list(v.keys()))
    for i in range(font["n"]):
        for g in font["glyphs"]:
            obj = v[g["name"]]
            obj.master_index = i
            got = obj.resolve_hint_sets()
            nodes = {0, *(x for k, x in g["d"].get("hints", {}).get("hintmasks", ()) if k == "r")}
            if any(x < 0 for x in nodes):
                if len({x if x >= 0 else -1 - x for x in nodes}) < len(nodes):
                    label("one node, two numbers")
                    continue
                got = {k if k >= 0 else -1 - k: s for k, s in got.items()}
            want = hint_sets(g, i)
            eq({k: {(d[0], p, w) for d, p, w in s} for k, s in got.items() if s}, want if g["d"]["nodes"] else {
                k: s for k, s in {0: {(d, *x) for d in "hv" for x in stems(g, i)[d]}}.items() if s}, f"hint sets of {g['name']!r}, master {i}")


V1 = st.lists(st.tuples(st.sampled_from(["hr00", "at01", "sv03"]), st.lists(
    st.tuples(st.sampled_from(["hstem", "vstem"]), st.integers(-500, 1500), st.integers(-60, 200)), max_size=4)), max_size=3)


def v1_case(case):
    from vfbLib.ufo.pshints import update_adobe_hinting

    sets, as_bytes = case
    xml = "<hintSetList>" + "".join(
        f'<hintset pointTag="{t}">' + "".join(f'<{k} pos="{p}" width="{w}" />' for k, p, w in s) + "</hintset>" for t, s in sets) + "</hintSetList>"
    got = update_adobe_hinting(xml.encode() if as_bytes else xml)
    want = [{"pointTag": t, "stems": [f"{k} {p + w} {-w}" if w < 0 and w not in (-20, -21) else f"{k} {p} {w}" for k, p, w in s]} for t, s in sets]
    eq(dict(got), {"hintSetList": want} if want else {}, "converted hint data")
    eq(update_adobe_hinting(got), got, "converted a second time")


def nt(font):
    return any(hint_sets(g, 0) for g in font["glyphs"])


def multi(font):
    return any(len(hint_sets(g, 0)) > 1 for g in font["glyphs"])


def props(tier):
    r = "a font with at least one hint set"
    return [
        Prop("export", hinted(), export_case, 1500, 20000, nt, r),
        Prop("masters", hinted(axes=(1, 1, 1, 2, 2, 2, 3, 3, 4)), export_case, 800, 12000, multi, "a multiple master font with at least one glyph with hint replacement"),
        Prop("stale", hinted(stale=True), stale_case, 800, 10000, lambda x: any(g["d"].get("hints") or g.get("links") for g in x["glyphs"]), "a font with composites, hints and links, some for points that do not exist"),
        Prop("real", real.fonts(prefer=lambda g: "hints" in g["d"]), export_case, 150, 3000, nt, r + " of a real file"),
        Prop("disk", hinted(axes=(0, 1)), disk_case, 250, 2500, nt, r + ", written and read back"),
        Prop("glyph-api", st.one_of(hinted(neg=False), hinted()), api_case, 800, 10000, nt, r),
        Prop("v1-data", st.tuples(V1, st.booleans()), v1_case, 800, 8000, lambda x: len(x[0]) > 0, "hint data with at least one set"),
    ]
