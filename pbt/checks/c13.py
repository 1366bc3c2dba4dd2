import copy

from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen
from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt import outline as o
from pbt.checks import c12
from pbt.common import Prop, Skip, check, eq, label, normalize

RULE = "Histories of up to 8 operations (clear, draw contours and components through segment and point pens in every master, compile, write, read again) on files with up to 3 glyphs."
ASSUMPTIONS = [
    "drawn curves are quadratic (cubic curves are rejected by the pens); offsets of components are whole numbers after rounding",
    "between two writes, contours drawn into the masters of a glyph are compatible (same number and types of points, same coincidence of start and end)",
    "the smooth flag of points is not stored by the pens and not part of the property",
]

crd = st.one_of(st.integers(-1200, 1200), st.integers(-5, 5), st.integers(-40000, 40000))
# the fraction depends on the integer, so that rounding never makes different points equal
fcrd = crd.map(lambda v: 3 * v + (0, 0.25, -0.3, 0.5, 0.0)[v % 5])


@st.composite
def drawn(draw, n, crd):
    """A contour to be drawn, as a list of (type, points per master), point pen order."""
    form = draw(st.sampled_from(["plain", "plain", "plain", "off first", "no on"]))
    if form == "no on":
        return [(None, draw(o.points(crd, n))) for _ in range(draw(st.integers(2, 5)))]
    ct = draw(o.contour(n, crd, kinds=("line", "qcurve"), closing="same"))
    pts = [["move", ct["start"]]]
    for k, ps in ct["segs"]:
        pts += [[None, p] for p in ps[:-1]] + [[k, ps[-1]]]
    pts += [[None, p] for p in ct["tail"]]
    if not ct["open"]:
        pts[0][0] = "qcurve" if ct["tail"] else "line"
        if len(pts) > 1 and pts[-1][0] and pts[-1][1] == pts[0][1]:
            # point pens have no duplicate start point
            k, p = pts.pop()
            pts[0][0] = k
        if form == "off first":
            r = draw(st.integers(0, len(pts) - 1))
            pts = pts[r:] + pts[:r]
        elif len(pts) > 1 and draw(st.booleans()):
            r = draw(st.integers(0, len(pts) - 1))
            while pts[r][0] is None:
                r -= 1
            pts = pts[r:] + pts[:r]
    return [tuple(p) for p in pts]


def seg_calls(pts, i):
    """The segment pen calls for drawn points in master i."""
    nf = o.from_points([(t, p[i]) for t, p in pts])
    op, start, segs = nf
    if pts[0][0] != "move" and all(t is None for t, _ in pts):
        return [("qCurveTo", tuple(p[i] for _, p in pts) + (None,)), ("closePath", ())]
    out = [("moveTo", (start,))]
    out += [({"line": "lineTo", "qcurve": "qCurveTo"}[k], ps) for k, ps in segs]
    out.append(("endPath" if pts[0][0] == "move" else "closePath", ()))
    return out


def near(got, want):
    """Equal after rounding to integers."""
    return len(got) == len(want) and all(isinstance(a, int) and abs(a - b) <= 0.5 for a, b in zip(got, want))


def check_normals(got, want, what):
    ok = len(got) == len(want)
    for (go, gs, gg), (wo, ws, ww) in zip(got, want):
        ok = ok and go == wo and near(gs, ws) and len(gg) == len(ww)
        for (gk, gp), (wk, wp) in zip(gg, ww):
            ok = ok and gk == wk and len(gp) == len(wp) and all(near(a, b) for a, b in zip(gp, wp))
    check(ok, lambda: f"{what}:\n   got {got}\n  want {want}")


OPS = ["draw", "draw", "draw", "clear", "comp", "write", "reread", "compile", "redraw", "reject"]


@st.composite
def histories(draw, integral):
    co = crd if integral else fcrd
    n, glyphs = draw(c12.fonts(max_glyphs=3, crd=crd, closing="same", flags=(0,)))
    for d, _ in glyphs:
        if draw(st.booleans()):
            d["hints"] = {"v": [[{"pos": 1, "width": 2}] * n], "h": []}
        if draw(st.booleans()):
            d["kerning"] = {0: [5] * n}
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(OPS))
        k = draw(st.integers(0, len(glyphs) - 1))
        via = draw(st.sampled_from(["glyph", "master"]))
        if op == "draw":
            cts = draw(m.some(drawn(n, co), 3, 8, 1))
            if n > 1 and any(len({len(set(map(tuple, p))) for p in zip(*[q[1] for q in ct])}) > n + 1 for ct in cts):
                continue
            seg = draw(st.booleans())
            order = draw(st.permutations(range(n)))
            ops.append((op, k, via, cts, seg, order))
        elif op == "clear":
            ops.append((op, k, via, draw(st.permutations(range(n)))))
        elif op == "comp":
            ops.append((op, k, via, draw(st.integers(0, len(glyphs) - 1)),
                        [(draw(c12.scale), draw(c12.scale), draw(co), draw(co)) for _ in range(n)]))
        elif op == "reject":
            ops.append((op, k, draw(st.sampled_from(["curve", "curve first", "base"]))))
        else:
            ops.append((op, k, via, draw(st.booleans())))
    return n, glyphs, ops, draw(st.booleans())


def compatible(pts, n):
    """Whether the segment pen drops the same points in all masters."""
    f = [o.from_points([(t, p[i]) for t, p in pts]) for i in range(n)]
    sh = {(a[0], tuple((k, len(ps)) for k, ps in a[2])) for a in f}
    coin = {tuple(tuple(p[i]) == tuple(pts[0][1][i]) for _, p in pts) for i in range(n)}
    return len(sh) == 1 and len(coin) == 1


def case_fn(case):
    n, glyphs, ops, keep = case
    kept = {}  # glyph objects that live as long as the file object is not written or read

    def master(name, i):
        if not keep:
            return v.getGlyphMaster(name, i)
        return kept.setdefault((name, i), v.getGlyphMaster(name, i))

    head = [(10, {"platform": "windows", "version": (5, 0, 0, 0), "owner": 1}), (1503, n)]
    v = m.read_vfb(c12.file_of(n, glyphs))
    order = c12.unique([d["name"] for d, _ in glyphs])
    # the model: per glyph a list of contours per master (normal forms), and components
    model = [{"cts": [[o.normal(ct, i) for i in range(n)] for ct in cts], "comps": [[w for w in c12.want_components(d, order, i)] for i in range(n)],
              "hints": "hints" in d, "d": d, "touched": False} for d, cts in glyphs]
    for op, k, *a in ops:
        g = model[k]
        name = order[k]
        label(op)

        def obj(i, via):
            if keep:
                return master(name, i) if n > 1 or via == "master" else kept.setdefault(name, v[name])
            return v.getGlyphMaster(name, i) if n > 1 or via == "master" else v[name]

        if op == "draw":
            via, cts, seg, perm = a
            cts = [ct for ct in cts if compatible(ct, n)]
            for i in perm:
                t = obj(i, via)
                if seg:
                    p = t.getPen()
                    for ct in cts:
                        for f, args in seg_calls(ct, i):
                            getattr(p, f)(*args)
                else:
                    p = t.getPointPen()
                    for ct in cts:
                        p.beginPath()
                        for ty, pt in ct:
                            p.addPoint(pt[i], ty)
                        p.endPath()
            for ct in cts:
                g["cts"].append([o.from_points([(ty, pt[i]) for ty, pt in ct]) for i in range(n)])
            g["touched"] |= bool(cts)
        elif op == "clear":
            via, perm = a
            for i in perm:
                obj(i, via).clearContours()
            g["cts"] = []
            g["hints"] = False
            g["touched"] = True
        elif op == "comp":
            via, base, tr = a
            for i in range(n):
                sx, sy, dx, dy = tr[i]
                obj(i, via).getPointPen().addComponent(order[base], (sx, 0, 0, sy, dx, dy))
                g["comps"][i].append((order[base], (sx, 0, 0, sy, dx, dy)))
            g["touched"] = True
        elif op == "reject":
            rejected(v, name, a[0], order)
        elif op == "write":
            m.write_vfb(v)
        elif op == "compile":
            v.compile()
        elif op == "reread":
            v = m.read_vfb(m.write_vfb(v))
        elif op == "redraw":
            if n == 1:
                verify(v, model, order, 1)
        if op in ("write", "compile", "reread"):
            kept.clear()
        elif keep and n == 1:
            verify(v, model, order, 1, master)
    out = m.write_vfb(v)
    verify(v, model, order, n)
    w = m.read_vfb(out)
    verify(w, model, order, n)
    raw = c.parse(out)[1][2:-1]
    eq(len(raw), len(glyphs), "number of glyphs")
    for (eid, b), g in zip(raw, model):
        if not g["touched"]:
            check(b == m.encode(m.SPECS[2001], g["d"], m.Ctx(n)), "a glyph that was not drawn into was changed")


def verify(v, model, order, n, master=None):
    eq(v.glyph_order, order, "glyph order")
    for g, name in zip(model, order):
        gl = v[name]
        data = gl.entry.data
        eq("hints" in data, g["hints"], f"hints of {name!r}")
        for k in ("metrics", "kerning"):
            eq(normalize(data.get(k)), normalize(g["d"].get(k)), f"{k} of {name!r}")
        eq(data["name"], g["d"]["name"], "name")
        eq(data["num_masters"], n, "number of masters")
        eq(len(gl), len(g["cts"]), f"number of contours of {name!r}")
        for i in range(n):
            p = RecordingPointPen()
            (master or v.getGlyphMaster)(name, i).drawPoints(p)
            got, gc, _ = o.from_point_calls(p.value)
            check_normals(got, [ct[i] for ct in g["cts"]], f"contours of {name!r}, master {i}")
            w = g["comps"][i]
            ok = len(gc) == len(w) and all(
                x[0] == y[0] and all(abs(p - q) < 1e-12 for p, q in zip(x[1][:4], y[1][:4])) and near(x[1][4:], y[1][4:]) for x, y in zip(gc, w))
            check(ok, lambda: f"components of {name!r}, master {i}: {gc} instead of {w}")
            gl.master_index = i
            p = RecordingPointPen()
            gl.drawPoints(p)
            got, _, _ = o.from_point_calls(p.value)
            check_normals(got, [ct[i] for ct in g["cts"]], f"contours of {name!r}, master {i}, from the glyph")
            p = RecordingPen()
            gl.draw(p)
            gl.master_index = 0
            got, _ = o.from_calls(p.value)
            check_normals(got, [ct[i] for ct in g["cts"]], f"contours of {name!r}, master {i}, segment pen")


def rejected(v, name, how, order):
    g = v[name]
    before = copy.deepcopy(g.entry.data)
    p = g.getPointPen()
    try:
        if how == "base":
            p.addComponent("no such glyph", (1, 0, 0, 1, 0, 0))
        else:
            p.beginPath()
            pts = [((0, 0), "line"), ((1, 1), None), ((2, 2), None), ((3, 0), "curve")]
            if how == "curve first":
                pts = [((3, 0), "curve"), ((0, 0), "line"), ((1, 1), None), ((2, 2), None)]
            for pt, t in pts:
                p.addPoint(pt, t)
            p.endPath()
    except Exception:
        check(g.entry.data == before, "a rejected contour or component changed the glyph")
        return
    check(False, f"{how}: drawn without an error, glyph is now {g.entry.data}")


def point_case(case):
    """Point pen: exact nodes of one contour in a single master font."""
    pts, via, n = case
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.glyph import VfbGlyph, VfbGlyphMaster

    v = m.make_vfb(m.Ctx(n))
    g = VfbGlyph(VfbEntry(v, eid=2001), v)
    p = (VfbGlyphMaster(g, 0) if via else g).getPointPen()
    p.beginPath()
    for t, pt in pts:
        p.addPoint(pt[0], t)
    p.endPath()
    nodes = g.entry.data["nodes"]
    on = [k for k, x in enumerate(pts) if x[0] is not None]
    if on:
        rot = pts[on[0]:] + pts[: on[0]]
    else:
        (x0, y0), (x1, y1) = pts[-1][1][0], pts[0][1][0]
        rot = [("qcurve", [((x0 + x1) / 2, (y0 + y1) / 2)])] + pts
    want = []
    for k, (t, pt) in enumerate(rot):
        want.append(("move" if k == 0 else "qcurve" if t is None else "line", 8 if t == "move" else 0, pt[0]))
    eq([(x["type"], x["flags"]) for x in nodes], [x[:2] for x in want], "types and flags of the nodes")
    for x, w in zip(nodes, want):
        check(len(x["points"]) == n and all(len(q) == 1 for q in x["points"]), "points of a node")
        check(all(near(q[0], w[2]) for q in x["points"]), f"node {x} instead of {w}")
    e = g.entry
    e.data["name"] = "new"
    want = copy.deepcopy(e.data)
    check(e.compile() is True and isinstance(e.data, bytes), "a new glyph can't be compiled")
    e.decompile()
    eq(normalize(e.data), normalize(want), "new glyph after compiling and decompiling it")


def nt(case):
    return any(op[0] == "draw" for op in case[2])


def props(tier):
    r = "history of up to 8 operations; non-trivial if something is drawn"
    return [
        Prop("single", histories(True).filter(lambda x: x[0] == 1), case_fn, 300, 5000, nt, r),
        Prop("history-1", histories(True), case_fn, 500, 8000, nt, r),
        Prop("history-2", histories(True), case_fn, 500, 8000, nt, r),
        Prop("fractions", histories(False), case_fn, 400, 6000, nt, r),
        Prop("nodes", st.tuples(drawn(1, fcrd), st.booleans(), st.integers(1, 3)), point_case, 1500, 20000, lambda k: len(k[0]) > 1, "one contour drawn onto the point pen; non-trivial with more than one point"),
    ]
