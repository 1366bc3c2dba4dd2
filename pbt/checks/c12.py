import copy

from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen
from hypothesis import strategies as st

from pbt import real
from pbt import container as c
from pbt import model as m
from pbt import outline as o
from pbt.codec import approx
from pbt.common import Prop, check, eq, label

RULE = "Files with 1 to 4 glyphs of up to 4 well-formed contours (open, closed, cubic, quadratic, mixed, coinciding start and end points) and components, drawn in every master through every drawing method."
ASSUMPTIONS = [
    "contours are well-formed: quadratic off-curve points are followed by an on-curve point, or end a closed contour",
    "components refer to existing glyphs and every glyph has metrics",
    "a closed contour may be drawn with or without its closing line, which every pen implies",
]

crd = st.one_of(st.integers(-5, 5), st.integers(-1200, 1200), st.integers(-40000, 40000), st.integers(-(2**29), 2**29))
scale = st.one_of(st.sampled_from([1.0, -1.0, 0.5, 1 / 3, 2.0, 0.0]), st.floats(-100, 100))


def per(s, n):
    return st.lists(s, min_size=n, max_size=n)


@st.composite
def fonts(draw, max_glyphs=4, kinds=o.KINDS_ALL, crd=crd, closing="any", flags=tuple(range(8))):
    n = draw(st.sampled_from([1, 1, 2, 2, 4, 3, 8, 16]))
    num = draw(st.integers(1, max_glyphs))
    names = draw(st.lists(st.one_of(st.sampled_from("ABCab"), m.glyph_name), min_size=num, max_size=num))
    glyphs = []
    for name in names:
        cts = draw(m.some(o.contour(n, crd, kinds=kinds, closing=closing, flags=flags), 4))
        comps = draw(m.some(st.fixed_dictionaries({
            "gid": st.integers(0, num - 1), "offsetX": per(m.small, n), "offsetY": per(m.small, n),
            "scaleX": per(scale, n), "scaleY": per(scale, n)}), 2, 8))
        d = {"name": name, "num_masters": n, "nodes": o.nodes(cts, n), "metrics": draw(per(st.tuples(m.small, m.small), n))}
        if comps:
            d["components"] = comps
        glyphs.append((d, cts))
    return n, glyphs


def file_of(n, glyphs, extra=()):
    ctx = m.Ctx(n, "windows")
    ents = [(10, {"platform": "windows", "version": (5, 0, 0, 0), "owner": 1}), (1503, n), *extra]
    return c.file_bytes(ctx, ents + [(2001, d) for d, _ in glyphs] + [(2, "")])


def unique(names):
    out = []
    for n in names:
        k, u = 1, n
        while u in out:
            u = f"{n}#{k}"
            k += 1
        out.append(u)
    return out


def want_components(d, order, i):
    return [(order[x["gid"]], (x["scaleX"][i], 0, 0, x["scaleY"][i], x["offsetX"][i], x["offsetY"][i])) for x in d.get("components", [])]


def check_components(got, want, what):
    check(approx([list(x) for x in got], [list(x) for x in want]) or
          (len(got) == len(want) and all(g[0] == w[0] and all(abs(a - b) < 1e-12 for a, b in zip(g[1], w[1])) for g, w in zip(got, want))),
          lambda: f"{what}: components {got} instead of {want}")


def check_master(g, mg, d, cts, order, i, gname):
    what = f"glyph {gname!r}, master {i}"
    want = [o.normal(ct, i) for ct in cts]
    comps = want_components(d, order, i)
    if g is not None:
        g.master_index = i
        p = RecordingPen()
        g.draw(p)
        got, gc = o.from_calls(p.value)
        eq(got, want, f"{what} drawn onto a segment pen")
        check_components(gc, comps, f"{what} drawn onto a segment pen")
        p = RecordingPointPen()
        g.drawPointsDirect(p)
        got, gc, _ = o.from_point_calls(p.value)
        eq(got, want, f"{what} drawn onto a point pen directly")
        check_components(gc, comps, f"{what} drawn onto a point pen directly")
    for obj in (g, mg):
        if obj is None:
            continue
        p = RecordingPointPen()
        obj.drawPoints(p)
        got, gc, exact = o.from_point_calls(p.value)
        eq(got, want, f"{what} drawn onto a point pen ({type(obj).__name__})")
        eq(exact, [o.point_list(ct, i) for ct in cts], f"{what}, points drawn onto a point pen ({type(obj).__name__})")
        check_components(gc, comps, f"{what} drawn onto a point pen ({type(obj).__name__})")


def draw_case(case):
    n, glyphs, order_seed = case
    label(f"{n} masters")
    data = file_of(n, glyphs)
    v = m.read_vfb(data)
    order = unique([d["name"] for d, _ in glyphs])
    todo = [(k, i) for k in range(len(glyphs)) for i in range(n)]
    order_seed.shuffle(todo)
    masters = v.get_masters()
    eq(len(masters), n, "number of masters")
    before = None
    for k, i in todo:
        d, cts = glyphs[k]
        g = v[order[k]]
        if before is None:
            before = copy.deepcopy([e.data for e in v.entries])
        check_master(g, masters[i][order[k]], d, cts, order, i, order[k])
        g.master_index = 0
    if before is not None:
        check([e.data for e in v.entries] == before, "drawing changed the content of the file")
    check(m.write_vfb(v) == data, "the file was changed by drawing")


def repeat_case(case):
    """Drawing the same glyph object again, after another master, gives the same result."""
    n, glyphs, picks = case
    v = m.read_vfb(file_of(n, glyphs))
    order = unique([d["name"] for d, _ in glyphs])
    objs = {}
    for k, i in picks:
        k, i = k % len(glyphs), i % n
        d, cts = glyphs[k]
        g = objs.setdefault(k, v[order[k]])
        mg = objs.setdefault((k, i), v.getGlyphMaster(order[k], i))
        check_master(g, mg, d, cts, order, i, order[k])


def nt(case):
    return any(len(cts) for _, cts in case[1])


def props(tier):
    r = "a file with up to 4 glyphs; non-trivial with at least one contour"
    f = fonts()
    one = st.tuples(f, st.randoms(use_true_random=False)).map(lambda x: (*x[0], x[1]))
    rep = st.tuples(f, st.lists(st.tuples(st.integers(0, 3), st.integers(0, 15)), min_size=2, max_size=8)).map(lambda x: (*x[0], x[1]))
    quad = st.tuples(fonts(kinds=("line", "qcurve"), max_glyphs=2), st.randoms(use_true_random=False)).map(lambda x: (*x[0], x[1]))
    cubic = st.tuples(fonts(kinds=("line", "curve"), max_glyphs=2), st.randoms(use_true_random=False)).map(lambda x: (*x[0], x[1]))
    real_fonts = st.tuples(real.fonts(), st.randoms(use_true_random=False)).map(lambda x: (1, [(g["d"], g["cts"]) for g in x[0]["glyphs"]], x[1]))
    return [
        Prop("draw", one, draw_case, 350, 6000, nt, r),
        Prop("quadratic", quad, draw_case, 500, 8000, nt, r),
        Prop("cubic", cubic, draw_case, 500, 8000, nt, r),
        Prop("real", real_fonts, draw_case, 150, 3000, nt, "glyphs of a real file, at least one contour"),
        Prop("repeat", rep, repeat_case, 350, 6000, nt, r),
    ]
