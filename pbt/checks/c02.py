from pbt import model as m
from pbt.codec import codec_prop, names_prop
from pbt.common import Prop, check, eq, normalize
from pbt.codec import decompile, compile_
from hypothesis import strategies as st

RULE = "Font-level entries: reference-encoded bytes are decompiled, compared with the generated structure, recompiled and compared with the reference bytes."
ASSUMPTIONS = [
    "text fields hold Windows-1252 text (see C09 and known_findings.json)",
    "autohinting_options/expand_kern_flags: only the documented bits; ttinfo: only keys the reader gives a name",
]
FONT = {e: s for e, s in m.SPECS.items() if s.group == "font"}


def kinds(*ks):
    return [e for e, s in FONT.items() if s.kind in ks]


def fea_case(lines):
    """Feature code: no line with content is lost, changed or reordered."""
    sep, ls = lines
    raw = sep.join(ls).encode("cp1252")
    ctx = m.Ctx()
    d = decompile(ctx, 1276, raw)
    want = m.norm_lines(sep.join(ls).splitlines())
    eq(normalize(d), want, "feature lines")
    eq([x for x in d if x.strip()], [x for x in sep.join(ls).splitlines() if x.strip()], "non-blank feature lines")
    again = decompile(ctx, 1276, compile_(ctx, 1276, d))
    eq(again, d, "feature code after write and re-read")


def props(tier):
    simple = kinds("hex", "emptystr", "str", "vendor", "u16", "i16", "i32", "dbl", "dbls", "u32s", "panose", "bits128", "countvals", "genc", "psgopt")
    used = set(simple)
    tt = kinds("gasp", "vdmx", "ttinfo", "ttstems", "ttppems", "ttppems23", "ttppems1", "ttzones", "ttzdeltas")
    used |= set(tt)
    opts = kinds("fontopts", "exportopts", "mapmode", "flversion", "mflags", "kflags")
    used |= set(opts)
    mm = kinds("aniso", "axcount", "axmap", "masterloc", "instances", "psinfo", "mmkern")
    used |= set(mm)
    rest = [e for e in FONT if e not in used]
    one = [codec_prop(f"each-{FONT[e].kind}", [e], 600, 6000) for e in FONT if FONT[e].kind not in
           ("hex", "emptystr", "str", "u16", "i16", "dbl", "dbls", "genc")]
    return [
        names_prop(),
        codec_prop("simple", simple, 6000, 40000),
        codec_prop("truetype", tt, 3000, 20000),
        codec_prop("options", opts, 3000, 20000),
        codec_prop("mm", mm, 2500, 20000),
        codec_prop("rest", rest, 3000, 20000),
        *one,
        Prop("features", st.tuples(st.sampled_from(["\n", "\r\n", "\r"]), st.lists(m._line, max_size=14)), fea_case, 3000, 20000,
             lambda c: any(x.strip() for x in c[1]), "feature text with runs of blank lines and any line ending; non-trivial with content"),
    ]
