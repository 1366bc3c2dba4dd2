"""Well-formed contours: generator, VFB nodes, and what drawing them must produce.

A contour is ``{"open", "start", "segs", "tail", "flags"}``; points are lists with
one (x, y) per master.  ``tail`` are the off-curve points of a closing quadratic
segment that ends at the start point.
"""
from __future__ import annotations

from hypothesis import strategies as st

from pbt.common import check

KINDS_ALL = ("line", "curve", "qcurve")
# Bit 0 marks smooth points; the other bits occur in real files and have no counterpart in UFO
FLAGS = (0, 0, 1, 1, 2, 3, 6, 7)


def points(crd, m):
    return st.lists(st.tuples(crd, crd), min_size=m, max_size=m)


@st.composite
def contour(draw, m, crd, kinds=KINDS_ALL, max_segs=5, closing="any", flags=FLAGS, one_kind=None):
    """closing: "any", or "same" for the same coincidence of start and end in all masters."""
    p = points(crd, m)
    is_open = draw(st.booleans())
    start = draw(p)
    segs = []
    for _ in range(draw(st.integers(0, max_segs))):
        k = draw(st.sampled_from(kinds))
        n = {"line": 1, "curve": 3, "qcurve": draw(st.integers(2, 4))}[k]
        segs.append((k, [draw(p) for _ in range(n)]))
    tail = []
    if not is_open:
        if "qcurve" in kinds and draw(st.integers(0, 3)) == 0:
            tail = [draw(p) for _ in range(draw(st.integers(1, 3)))]
        elif segs and draw(st.booleans()):
            k, pts = segs[-1]
            mask = [True] * m if closing == "same" else draw(st.sampled_from([[True] * m, [i % 2 == 0 for i in range(m)], [i == m - 1 for i in range(m)]]))
            segs[-1] = (k, pts[:-1] + [[s if on else e for s, e, on in zip(start, pts[-1], mask)]])
    return {"open": is_open, "start": start, "segs": segs, "tail": tail,
            "flags": [draw(st.sampled_from(flags)) for _ in range(1 + len(segs))]}


def nodes(cts, m):
    """The VFB nodes of a list of contours."""
    out = []

    def nd(kind, fl, *pts):
        # VFB keeps the on-curve point of a cubic segment first
        out.append({"type": kind, "flags": fl, "points": [[p[i] for p in pts] for i in range(m)]})

    for c in cts:
        nd("move", c["flags"][0] | (8 if c["open"] else 0), c["start"])
        for (k, pts), fl in zip(c["segs"], c["flags"][1:]):
            if k == "line":
                nd("line", fl, pts[0])
            elif k == "curve":
                nd("curve", fl, pts[2], pts[0], pts[1])
            else:
                for p in pts[:-1]:
                    nd("qcurve", 0, p)
                nd("line", fl, pts[-1])
        for p in c["tail"]:
            nd("qcurve", 0, p)
    return out


def num_nodes(c):
    return 1 + sum(len(p) if k == "qcurve" else 1 for k, p in c["segs"]) + len(c["tail"])


def pts_equal(c):
    """The end point is on the start point in every master, so both are the same point."""
    return tuple(map(tuple, c["segs"][-1][1][-1])) == tuple(map(tuple, c["start"]))


def point_list(c, i):
    """The UFO points [(type, smooth, pt)] of the contour in master i."""
    out = [["move", bool(c["flags"][0] & 1), c["start"][i]]]
    for (k, pts), fl in zip(c["segs"], c["flags"][1:]):
        for p in pts[:-1]:
            out.append([None, False, p[i]])
        out.append([k, bool(fl & 1), pts[-1][i]])
    for p in c["tail"]:
        out.append([None, False, p[i]])
    if not c["open"] and len(out) > 1:
        if out[-1][0] is None:
            out[0][0] = "qcurve"
        elif out[-1][0] == "curve" and pts_equal(c):
            out[0] = out.pop()
        else:
            out[0][0] = "line"
    return [tuple(x) for x in out]


def on_curve_map(c):
    """Index of each VFB node of the contour among its (unmerged) points."""
    idx = [0]
    n = 1
    for k, pts in c["segs"]:
        if k == "curve":
            idx.append(n + 2)
        elif k == "qcurve":
            idx.extend(range(n, n + len(pts)))
        else:
            idx.append(n)
        n += len(pts)
    idx.extend(range(n, n + len(c["tail"])))
    return idx


def calls(c, i):
    """The segment pen calls of the contour in master i."""
    out = [("moveTo", (c["start"][i],))]
    for k, pts in c["segs"]:
        name = {"line": "lineTo", "curve": "curveTo", "qcurve": "qCurveTo"}[k]
        out.append((name, tuple(p[i] for p in pts)))
    if c["tail"]:
        out.append(("qCurveTo", tuple(p[i] for p in c["tail"]) + (c["start"][i],)))
    out.append(("endPath" if c["open"] else "closePath", ()))
    return out


# ------------------------------------------------------------- normal form


def _norm(is_open, start, segs):
    """Drop closing lines: they are implied."""
    segs = [(k, tuple(tuple(p) for p in pts)) for k, pts in segs]
    start = tuple(start)
    while not is_open and segs and segs[-1][0] == "line" and segs[-1][1][-1] == start:
        segs.pop()
    if not segs:
        is_open = None  # a single point
    return (is_open, start, tuple(segs))


def normal(c, i):
    segs = [(k, [p[i] for p in pts]) for k, pts in c["segs"]]
    if c["tail"]:
        segs.append(("qcurve", [p[i] for p in c["tail"]] + [c["start"][i]]))
    return _norm(c["open"], c["start"][i], segs)


def from_calls(value):
    """RecordingPen value -> (normal contours, components)."""
    cts, comps = [], []
    start, segs = None, []
    for name, args in value:
        if name == "moveTo":
            check(start is None, "a path starts before the previous one ended")
            start, segs = args[0], []
        elif name in ("lineTo", "curveTo", "qCurveTo"):
            check(start is not None, "a segment outside of a path")
            check(len(args) == 3 if name == "curveTo" else len(args) >= 1, f"{name} with {len(args)} points")
            segs.append(({"lineTo": "line", "curveTo": "curve", "qCurveTo": "qcurve"}[name], args))
        elif name in ("closePath", "endPath"):
            check(start is not None, f"{name} outside of a path")
            cts.append(_norm(name == "endPath", start, segs))
            start = None
        elif name == "addComponent":
            comps.append((args[0], tuple(args[1])))
        else:
            check(False, f"unexpected call {name}")
    check(start is None, "the last path was not ended")
    return cts, comps


def from_points(pts):
    """Points [(type, pt)] of one contour, in point pen order -> normal form."""
    pts = [(t, tuple(p)) for t, p in pts]
    check(bool(pts), "empty contour")
    is_open = pts[0][0] == "move"
    if not is_open:
        on = [k for k, p in enumerate(pts) if p[0] is not None]
        if not on:
            (x0, y0), (x1, y1) = pts[-1][1], pts[0][1]
            pts = [("qcurve", ((x0 + x1) / 2, (y0 + y1) / 2))] + pts
            on = [0]
        pts = pts[on[0]:] + pts[: on[0]]
    start = pts[0][1]
    segs, offs = [], []
    rest = pts[1:] if is_open else pts[1:] + [(pts[0][0], start)]
    if not is_open and len(pts) == 1:
        rest = []
    for t, p in rest:
        if t is None:
            offs.append(p)
            continue
        check(t != "move", "a move point inside of a contour")
        if t == "line":
            check(not offs, "off-curve points before a line")
        if t == "curve":
            check(len(offs) == 2, f"{len(offs)} off-curve points before a cubic curve point")
        if t == "qcurve" and not offs:
            t = "line"
        segs.append((t, offs + [p]))
        offs = []
    check(not offs, "off-curve points at the end of an open contour")
    return _norm(is_open, start, segs)


def from_point_calls(value):
    """RecordingPointPen value -> (normal contours, components, exact points)."""
    cts, comps, exact = [], [], []
    cur = None
    for name, args, kwargs in value:
        if name == "beginPath":
            check(cur is None, "a path starts before the previous one ended")
            cur = []
        elif name == "addPoint":
            check(cur is not None, "a point outside of a path")
            pt, t, smooth, pname = args
            cur.append((t, bool(smooth), tuple(pt)))
        elif name == "endPath":
            check(cur is not None, "endPath outside of a path")
            exact.append(cur)
            cts.append(from_points([(t, p) for t, _, p in cur]))
            cur = None
        elif name == "addComponent":
            check(cur is None, "a component inside of a path")
            comps.append((args[0], tuple(args[1])))
        else:
            check(False, f"unexpected call {name}")
    check(cur is None, "the last path was not ended")
    return cts, comps, exact
