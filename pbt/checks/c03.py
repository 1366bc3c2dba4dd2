import random

from hypothesis import strategies as st

from pbt import model as m
from pbt.codec import codec_case, codec_prop, nontrivial
from pbt.common import Prop

RULE = "Glyph entries with 1-16 masters: reference-encoded bytes are decompiled, compared with the generated structure, recompiled and compared with the reference bytes."
ASSUMPTIONS = [
    "glyph names are Windows-1252 text and not empty", "successive coordinates differ by less than 2**31",
    "imported TrueType programs are valid bytecode (fontTools decides their assembly text)",
]


@st.composite
def focused(draw, part):
    ctx = draw(m.ctxs)
    return 2001, ctx, draw(m.glyph_gen(ctx, part=part)), draw(st.one_of(st.none(), st.integers(0, 2**16)))


@st.composite
def big(draw):
    """Counts beyond the one-byte form: many nodes, hints, kerning pairs, ..."""
    ctx = draw(m.ctxs)
    M = ctx.masters
    rnd = random.Random(draw(st.integers(0, 2**32)))
    n = draw(st.sampled_from([107, 108, 120, 400, 1131 // M, 1132]))
    r = lambda a=-2000, b=2000: rnd.randint(a, b)  # noqa: E731
    nodes = []
    for _ in range(n):
        t = rnd.choice(["move", "line", "curve", "qcurve"])
        nodes.append({"type": t, "flags": rnd.randrange(16),
                      "points": [[(r(), r()) for _ in range(3 if t == "curve" else 1)] for _ in range(M)]})
    d = {"name": "n" * rnd.choice([1, 107, 108, 300]), "num_masters": M, "nodes": nodes}
    k = draw(st.sampled_from(["none", "hints", "guides", "components", "kerning", "tth"]))
    if k == "hints":
        h = lambda: [[{"pos": r(), "width": r()} for _ in range(M)] for _ in range(rnd.choice([0, 109, 200]))]  # noqa: E731
        d["hints"] = {"h": h() or [[{"pos": 1, "width": 2}] * M], "v": h(), "hintmasks": [(rnd.choice("hvr"), r()) for _ in range(150)]}
    elif k == "guides":
        d["guides"] = {x: [[{"pos": r(), "angle": m.angle_of(r())} for _ in range(M)] for _ in range(rnd.choice([0, 110]))] for x in "hv"}
    elif k == "components":
        d["components"] = [{"gid": r(), **{f: [r() for _ in range(M)] for f in ("offsetX", "offsetY")},
                            **{f: [r() / 7 for _ in range(M)] for f in ("scaleX", "scaleY")}} for _ in range(110)]
    elif k == "kerning":
        d["kerning"] = {i * 3: [r() for _ in range(M)] for i in range(300)}
    elif k == "tth":
        d["tth"] = []
        for _ in range(130):
            c = rnd.choice(sorted(m.TT))
            d["tth"].append({"cmd": m.TT[c][0], "params": {p: r() for p in m.TT[c][1]}})
    return 2001, ctx, d, draw(st.one_of(st.none(), st.integers(0, 2**16)))


def props(tier):
    out = [codec_prop("glyph", [2001], 1500, 20000)]
    for part in ("nodes", "hints", "guides", "components", "kerning", "imported", "tth", "metrics"):
        out.append(Prop("part-" + part, focused(part), codec_case, 1000, 8000, lambda c, p=part: bool(c[2].get(p)),
                        f"glyph holding only {part}; non-trivial if present"))
    out.append(Prop("big", big(), codec_case, 60, 800, lambda c: True, "glyphs with 100-1132 nodes and long lists of hints, guides, components, kerning or commands"))
    return out
