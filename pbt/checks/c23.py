from math import hypot

from hypothesis import strategies as st

from pbt import cli, real
from pbt import font as f
from pbt import model as m
from pbt import outline as o
from pbt.checks import c17
from pbt.codec import eqa
from pbt.common import Prop, check, eq, label, normalize

RULE = "Fonts of line, cubic and quadratic contours (open and closed, with coinciding points in some or all masters), components, hints and all other glyph and font data, in 1 to 4 masters, converted with different tolerances; the written file is read again and measured against the original outlines."
ASSUMPTIONS = [
    "the font states its units per em; coordinates are within a few em",
    "the tolerance is at least 1/2000 em; points are rounded to integers, which adds at most 0.71 units",
    "the conversion turns TrueType-wise: all contours are reversed, hints and links of the old outlines are dropped",
]
crd = st.one_of(st.integers(-5, 5), st.integers(-200, 200), st.integers(-2000, 2000))
ROUND = 0.7072


@st.composite
def fonts(draw, axes=(0, 0, 1, 2), kinds=o.KINDS_ALL, closing="any", hinted=False, crd=crd):
    if hinted:
        font = draw(c17.hinted(axes=axes))
    else:
        font = draw(f.fonts(axes=axes, kinds=kinds, closing=closing, crd=crd))
    font["upm"] = draw(st.sampled_from([1000, 1000, 2048, 250]))
    font["head"].append((1135, font["upm"]))
    return font


def cubic_fonts():
    def upm(font):
        font["upm"] = font["info"][1135]
        return font

    return real.fonts(max_glyphs=3, prefer=lambda g: any(k == "curve" for c in g["cts"] for k, _ in c["segs"])).filter(lambda x: 1135 in x["info"]).map(upm)


# --- geometry


def segments(c, i):
    """Segments of a contour in one master, each with its start point; closing line included."""
    out, cur = [], tuple(c["start"][i])
    for k, pts in c["segs"]:
        out.append((k, [cur] + [tuple(p[i]) for p in pts]))
        cur = out[-1][1][-1]
    start = tuple(c["start"][i])
    if c["tail"]:
        out.append(("qcurve", [cur] + [tuple(p[i]) for p in c["tail"]] + [start]))
    elif not c["open"] and cur != start:
        out.append(("line", [cur, start]))
    return [s for s in out if not (s[0] == "line" and s[1][0] == s[1][1])]


def parse_nodes(nodes, n):
    """The contours of a list of VFB nodes, in the generator's form."""
    cts = []
    for nd in nodes:
        p = [tuple(nd["points"][i][0]) for i in range(n)]
        t = nd["type"]
        if t == "move":
            cts.append({"open": bool(nd["flags"] & 8), "start": p, "segs": [], "tail": []})
            continue
        check(bool(cts), "a contour without a start point")
        c = cts[-1]
        if t == "qcurve":
            c["tail"].append(p)
        elif t == "line":
            c["segs"].append(("qcurve" if c["tail"] else "line", c["tail"] + [p]))
            c["tail"] = []
        else:
            check(False, f"a node of type {t!r} after the conversion")
    for c in cts:
        check(not (c["open"] and c["tail"]), "off-curve points at the end of an open contour")
    return cts


def quads(pts):
    """Quadratic segment with implied on-curve points -> list of 3-point curves."""
    p0, *offs, p1 = pts
    out = []
    for a, b in zip(offs, offs[1:]):
        mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
        out.append((p0, a, mid))
        p0 = mid
    out.append((p0, offs[-1], p1) if offs else (p0, p0, p1))
    return out


def q_at(q, t):
    (x0, y0), (x1, y1), (x2, y2) = q
    a, b, c = (1 - t) ** 2, 2 * t * (1 - t), t * t
    return a * x0 + b * x1 + c * x2, a * y0 + b * y1 + c * y2


def c_at(p, t):
    a, b, c, d = (1 - t) ** 3, 3 * t * (1 - t) ** 2, 3 * t * t * (1 - t), t**3
    return sum(k * x for k, (x, _) in zip((a, b, c, d), p)), sum(k * y for k, (_, y) in zip((a, b, c, d), p))


def dist_to_line(p, line):
    best = 1e18
    for (ax, ay), (bx, by) in zip(line, line[1:]):
        dx, dy = bx - ax, by - ay
        l2 = dx * dx + dy * dy
        t = 0 if l2 == 0 else max(0, min(1, ((p[0] - ax) * dx + (p[1] - ay) * dy) / l2))
        best = min(best, hypot(p[0] - ax - t * dx, p[1] - ay - t * dy))
    return best


def flat(fn, pieces, num=40):
    return [fn(p, k / num) for p in pieces for k in range(num + 1)]


def check_curve(cubic, spline, tol, what):
    """Both curves are within the tolerance of each other (sampled)."""
    qs = quads(spline)
    # the sampled polygons deviate from the curves by less than slack
    size = max(hypot(p[0] - cubic[0][0], p[1] - cubic[0][1]) for p in cubic)
    fine = 160
    slack = 0.02 + 6 * 2 * size / (8 * fine**2)
    ref = flat(c_at, [cubic], fine)
    got = flat(q_at, qs, 24)
    for k in range(0, fine + 1, 8):
        d = dist_to_line(ref[k], got)
        check(d <= tol + ROUND + slack, lambda: f"{what}: point {ref[k]} of the curve {cubic} is {d:.3f} away from {spline}, allowed: {tol}")
    for p in got[:: max(1, len(got) // 40)]:
        d = dist_to_line(p, ref)
        check(d <= tol + ROUND + slack, lambda: f"{what}: point {p} of {spline} is {d:.3f} away from the curve {cubic}, allowed: {tol}")


def check_contour(src, got, i, tol, what):
    a, b = segments(src, i), segments(got, i)
    if not a:
        eq(b, [], f"{what}: segments")
        return
    a = [(k, pts[::-1]) for k, pts in reversed(a)]
    eq([("qcurve" if k == "curve" else k, p[0], p[-1]) for k, p in a], [(k, p[0], p[-1]) for k, p in b], f"{what}: on-curve structure (source is 'got')")
    for (k, p), (_, q) in zip(a, b):
        if k == "curve":
            check_curve(p, q, tol, what)
        else:
            eq(q, p, f"{what}: {k}")


SKIP = {2001, 2008}


def check_files(font, before, after, tol, what=""):
    n = font["n"]
    ea = [(e.id, e.data) for e in before.entries if e.id != 2008]
    eb = [(e.id, e.data) for e in after.entries]
    eq([e for e, _ in eb], [e for e, _ in ea], f"{what}entries")
    gl = iter(font["glyphs"])
    for (eid, x), (_, y) in zip(ea, eb):
        if eid != 2001:
            eqa(normalize(y), normalize(x), f"{what}entry {m.SPECS[eid].name}")
            continue
        g = next(gl)
        gname = f"{what}glyph {g['name']!r}"
        drop = ("nodes", "hints") if g["cts"] else ()
        eqa({k: normalize(v) for k, v in y.items() if k not in drop}, {k: normalize(v) for k, v in x.items() if k not in drop}, gname)
        if not g["cts"]:
            continue
        check("hints" not in y or not any(y["hints"].get(k) for k in "hv"), lambda: f"{gname}: hints of the old outlines remain")
        cts = parse_nodes(y["nodes"], n)
        eq(len(cts), len(g["cts"]), f"{gname}: number of contours")
        for k, (src, got) in enumerate(zip(g["cts"], cts)):
            if src["segs"] or src["tail"]:
                eq(got["open"], src["open"], f"{gname}: contour {k} is open")
            for i in range(n):
                check_contour(src, got, i, tol, f"{gname}, contour {k}, master {i}")


def convert(case):
    from vfbLib.cu2qu import vfbcu2qu

    font, err = case
    label(f"{font['n']} masters")
    data = f.data_of(font)
    with cli.scratch() as d:
        (d / "F.vfb").write_bytes(data)
        (d / "out").mkdir()
        cli.run(vfbcu2qu, "-p", d / "out", *([] if err is None else ["-m", err]), d / "F.vfb")
        eq((d / "F.vfb").read_bytes(), data, "input file")
        out = d / "out" / "F.vfb"
        if not any(g["cts"] for g in font["glyphs"]):
            check(not out.exists(), "an output file without anything to convert")
            return
        check(out.exists(), "no output file")
        converted = out.read_bytes()
        before, after = m.read_vfb(data), m.read_vfb(converted)
        before.decompile()
        after.decompile()
        check_files(font, before, after, (0.001 if err is None else err) * font["upm"])
        # Writing it again is stable
        eq(m.write_vfb(after), converted, "the converted file, read and written")


def nt(case):
    return any(k == "curve" for g in case[0]["glyphs"] for ct in g["cts"] for k, _ in ct["segs"])


def props(tier):
    err = st.sampled_from([None, None, 0.001, 0.0005, 0.002, 0.02])
    r = "at least one cubic curve"
    return [
        Prop("single", st.tuples(fonts(axes=(0,)), err), convert, 400, 8000, nt, r),
        Prop("masters", st.tuples(fonts(axes=(1,) * 6 + (2, 2, 2, 3), closing="same"), err), convert, 300, 6000, nt, r + ", more than one master"),
        Prop("cubic", st.tuples(fonts(kinds=("line", "curve", "curve")), err), convert, 300, 6000, nt, r),
        Prop("coinciding", st.tuples(fonts(axes=(0, 1, 1, 2), crd=st.integers(-1, 1)), err), convert, 500, 8000, nt, r + ", many points at the same position in some masters"),
        Prop("real", st.tuples(cubic_fonts(), err), convert, 100, 2000, nt, r + " of a real file"),
        Prop("hinted", st.tuples(fonts(hinted=True), err), convert, 200, 4000, nt, r + ", with hints"),
    ]
