from pbt import model as m
from pbt.codec import codec_prop

RULE = "Glyph-attached entries: reference-encoded bytes are decompiled, compared with the generated structure, recompiled and compared with the reference bytes."
ASSUMPTIONS = ["text fields hold Windows-1252 text", "bitmaps are covered by C05, the glyph entry itself by C03"]


def props(tier):
    ids = [e for e, s in m.SPECS.items() if s.group == "glyph" and s.kind not in ("glyph", "image", "bitmaps")]
    return [codec_prop("all", ids, 3000, 20000)] + [
        codec_prop(f"each-{e}-{m.SPECS[e].kind}", [e], 800, 8000) for e in ids
    ]
