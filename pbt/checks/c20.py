import re
from io import StringIO

from fontTools.feaLib import ast
from fontTools.feaLib.error import FeatureLibError
from fontTools.feaLib.parser import Parser
from hypothesis import strategies as st

from pbt import cli, codec, ufo
from pbt import font as f
from pbt import model as m
from pbt.checks import c15
from pbt.common import Prop, Violation, check, eq, label

RULE = "Feature code of generated lines (features, lookups, rules, comments, blank lines, pair positioning with kerning classes in every legal spacing) and generated class lists; read, written, split and exported in every mode, and the exported code parsed with fontTools.feaLib."
ASSUMPTIONS = [
    "one statement per line; kerning classes are referenced in pair positioning statements",
    "more than two blank lines in a row and blank lines at the end are no content (the reader drops them)",
    "the amount of white space between the words of a pair positioning statement is no content",
    "no control characters in the feature code",
]
ws = st.sampled_from(["", "", " ", "    ", "\t", "\t "])
gap = st.sampled_from([" ", " ", " ", "  ", "\t", " \t"])
comment = st.one_of(st.just(""), st.text(st.sampled_from("ab #@_;{}é pos"), max_size=12))
GL = ["A", "B", "a.sc", "f_i", "V"]
side = st.one_of(st.sampled_from(GL), st.sampled_from(["@_A", "@_B", "@_A_top", "@sc", "@lc.x", "@_é"]))
value = st.one_of(st.integers(-300, 300).map(str), st.sampled_from(["<0 0 -10 0>", "-20 ", "NULL"]))


@st.composite
def kern_line(draw, sides=side, values=value):
    kw = draw(st.sampled_from([["pos"], ["pos"], ["enum", "pos"], ["enumerate", "pos"], ["position"], ["enum", "position"]]))
    L, R, v = draw(sides), draw(sides), draw(values)
    text = draw(ws)
    for t in kw + [L]:
        text += t + draw(gap)
    text += R + draw(gap) + v + ";"
    want = [*kw, cls(L, 1), cls(R, 2), *(v + ";").split()]
    if draw(st.integers(0, 2)) == 0:
        c = draw(comment)
        text += draw(ws) + "#" + c
        return text, (want, c)
    return text + draw(st.sampled_from(["", "", " "])), (want, None)


def cls(x, s):
    return f"@public.kern{s}.{x[1:]}" if x.startswith("@_") else x


plain = st.one_of(
    st.sampled_from(["feature liga {", "} liga;", "feature kern { # x", "} kern;", "lookup one {", "} one;", "sub f i by f_i;", "lookupflag 0;", "script latn;", "language DEU exclude_dflt;",
                     "include(a/b.fea);", "subtable;", "@x = [a b];", "@sc", "languagesystem DFLT dflt;", "pos A 10;", "sub [a b]' A by B;", "ignore sub A' B;", "nopos @_A @_B 10;", 'table name { nameid 9 "a # b"; } name;']),
    st.text(st.sampled_from("abcAB01 @_;{}[]'\"éß"), max_size=20).filter(lambda t: not t.strip().startswith(("pos", "enum"))),
)


@st.composite
def line(draw):
    k = draw(st.integers(0, 7))
    if k < 3:
        return draw(kern_line())
    if k == 3:
        t = draw(st.sampled_from(["", "", " ", "\t"]))
    elif k == 4:
        t = draw(ws) + "#" + draw(comment)
    else:
        t = draw(ws) + draw(plain)
    return t, None


doc = m.some(line(), 14, 60)


def content(text):
    """Lines without blank lines at the end."""
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    return lines


def squeeze(lines):
    return content("\n".join(m.norm_lines(lines)))


def same_code(got: str, src, what):
    """The code holds the source lines in order, with kerning classes renamed."""
    want = squeeze([t for t, _ in src])
    info = [i for t, i in _kept(src)]
    got = content(got)
    eq(len(got), len(want), f"{what}: number of lines of {got!r} for {want!r}")
    for g, w, i in zip(got, want, info):
        if i is None:
            eq(g, w, f"{what}: line")
        else:
            tokens, c = i
            code, sep, rest = g.partition("#")
            eq((code.split(), rest if sep else None), (tokens, c), f"{what}: line {w!r}")


def _kept(src):
    out, blanks = [], 0
    for t, i in src:
        blanks = 0 if t.strip() else blanks + 1
        if blanks <= 2:
            out.append((t, i))
    return out


def raw_case(case):
    lines, nl, tail = case
    text = [t for t, _ in lines]
    raw = (nl.join(text) + tail).encode("cp1252")
    ctx = m.Ctx(1, "windows", 0, 0)
    got = codec.decompile(ctx, 1276, raw)
    want = squeeze(text)
    eq(content("\n".join(got)), want, "lines read")
    out = codec.compile_(ctx, 1276, got)
    eq(content(out.decode("cp1252")), want, "lines written")
    eq(codec.decompile(ctx, 1276, out), got, "lines read again")


def split_case(case):
    from vfbLib.parsers.text import OpenTypeStringParser

    prefix, feats = case
    lines = list(prefix)
    for tag, head, body in feats:
        lines += [head, *body]
    d = OpenTypeStringParser.build_fea_dict(list(lines))
    label(f"{min(len(feats), 3)} features")
    eq(d["prefix"], list(prefix), "prefix")
    got = [x for x in d["features"] if x["tag"] or x["code"]]
    eq([x["tag"] for x in got], [t for t, _, _ in feats], "feature tags")
    for x, (_, head, body) in zip(got, feats):
        eq(x["code"], [head, *body], f"code of feature {x['tag']!r}")


@st.composite
def feature(draw):
    tag = draw(st.text(st.sampled_from("abckernliga0129"), min_size=4, max_size=4))
    head = f"{draw(ws)}feature{draw(gap)}{tag}{draw(ws)}{{{draw(ws)}" + draw(st.sampled_from(["", "", "# feature liga {", "sub a by b;"]))
    return tag, head, draw(st.lists(other, max_size=5))


other = st.one_of(plain, kern_line().map(lambda t: t[0]), comment.map(lambda t: "#" + t), st.sampled_from(["", " # feature liga {"])).filter(lambda t: not re.search(r"feature", t.split("#")[0]))


def class_lines(font, order, minimal, add, move):
    """Reference: class definitions in the feature code, in order."""
    keep = set(order) if minimal else None
    out = []
    for cl in font["classes"]:
        members = c15.ordered(cl, keep)
        if cl["members"] and not members:
            continue
        if cl["name"].startswith("_"):
            if add:
                out += [(f"public.kern{s}.{cl['name']}", members) for s in cl["sides"]]
        elif not cl["name"].startswith(".") and move:
            out.append((cl["name"], members))
    return out


@st.composite
def export_fonts(draw, missing=False, axes=(0,) * 6 + (1, 1, 1, 2)):
    font = draw(c15.fonts(missing=missing, axes=axes))
    junk = draw(st.sampled_from([[], [], ["no class definition"], [""]]))
    for j in junk:
        font["head"].insert(draw(st.integers(0, len(font["head"]))), (1277, j))
    src = draw(doc)
    if draw(st.integers(0, 5)):
        font["head"].insert(draw(st.integers(0, len(font["head"]))), (1276, m.norm_lines([t for t, _ in src])))
        font["src"] = src
    else:
        font["src"] = []
    return font


def check_export(v, font, what, minimal=False, add=False, move=True):
    order = v["order"]
    want = [f"@{n} = [{' '.join(l)}];" for n, l in class_lines(font, order, minimal, add, move)]
    lines = v["features"].split("\n")
    eq(lines[: len(want)], want, f"{what}: class definitions")
    rest = lines[len(want):]
    while rest and not rest[0].strip():
        rest.pop(0)
    src = list(font["src"])
    while src and not src[0][0].strip():
        src.pop(0)
    same_code("\n".join(rest), src, what)
    # Class definitions agree with the groups
    for n, l in class_lines(font, order, minimal, add, move):
        if n.startswith("public.kern"):
            if l:
                eq(v["groups"][n], l, f"{what}: group {n!r}")
        else:
            check(n not in v["groups"], lambda: f"{what}: class {n!r} is in the groups as well")
    if not move:
        for cl in font["classes"]:
            if cl["name"][0] not in "._":
                l = c15.ordered(cl, set(order) if minimal else None)
                if l or not cl["members"]:
                    eq(v["groups"].get(cl["name"]), l, f"{what}: group {cl['name']!r}")


def export_case(case):
    font, minimal, add, move = case
    label(f"minimal={minimal} add={add} move={move}")
    for i, u in enumerate(f.export(font, f.vfb_of(font, minimal=minimal), minimal=minimal, add_kerning_groups=add, move_groups=move)):
        check_export(ufo.view(u), font, f"master {i}", minimal, add, move)


def disk_case(case):
    font, minimal = case
    with cli.scratch() as d:
        f.builder(font, f.vfb_of(font, minimal=minimal), minimal=minimal).write(d / "F.ufo", silent=True)
        for i in range(font["n"]):
            check_export(ufo.read(d / ("F.ufo" if i == 0 else f"F-{i}.ufo")), font, f"file {i}", minimal)


@st.composite
def semantic(draw):
    font = draw(c15.fonts(axes=(0, 0, 1)))
    order = list(dict.fromkeys(g["name"] for g in font["glyphs"]))
    order = [g for g in order if re.fullmatch(r"[A-Za-z_][A-Za-z0-9._]*", g)]
    L = order + [f"@{c['name']}" for c in font["classes"] if 1 in c["sides"] and c["members"]]
    R = order + [f"@{c['name']}" for c in font["classes"] if 2 in c["sides"] and c["members"]]
    rules = []
    if L and R:
        for _ in range(draw(st.integers(0, 5))):
            rules.append((draw(st.sampled_from(L)), draw(st.sampled_from(R)), draw(st.integers(-300, 300)), draw(st.booleans()), draw(gap), draw(gap)))
    font["rules"] = rules
    text = ["# kerning", "feature kern {"]
    text += [f"  {'enum ' * e}pos {a}{s1}{b}{s2}{v}; # {a} {b}" for a, b, v, e, s1, s2 in rules]
    text += ["} kern;", ""] if rules else ["} kern; # empty", ""]
    font["head"].append((1276, text))
    return font


def semantic_case(font):
    """The exported code means what the source means, to an independent parser."""
    bad = [n for c in font["classes"] for n in c["members"] if not re.fullmatch(r"[A-Za-z_][A-Za-z0-9._]*", n)]
    if bad:
        label("glyph names unfit for feature code")
        return
    members = {c["name"]: c15.ordered(c) for c in font["classes"]}
    for u in f.export(font, add_kerning_groups=True):
        v = ufo.view(u)
        try:
            fea = Parser(StringIO(v["features"]), glyphNames=v["order"], followIncludes=False).parse()
        except FeatureLibError as e:
            raise Violation(f"the exported feature code is not valid: {e}\n{v['features']}")
        blocks = [s for s in fea.statements if isinstance(s, ast.FeatureBlock)]
        eq([b.name for b in blocks], ["kern"], "features")
        pos = [s for s in blocks[0].statements if isinstance(s, ast.PairPosStatement)]
        eq(len(pos), len(font["rules"]), "pair positioning statements")
        for s, (a, b, val, enum, _, _) in zip(pos, font["rules"]):
            what = f"statement {s.asFea()!r}"
            for got, x in ((s.glyphs1, a), (s.glyphs2, b)):
                eq(list(got.glyphSet()), members[x[1:]] if x[0] == "@" else [x], what)
            eq((s.valuerecord1.xAdvance, s.enumerated), (val, enum), what)
        label("rules" if pos else "no rules")


def nt(case):
    font = case[0] if isinstance(case, tuple) else case
    return any(i for _, i in font["src"]) and bool(font["classes"])


def props(tier):
    b = st.booleans()
    r = "at least one pair positioning line and one class"
    return [
        Prop("read", st.tuples(doc, st.sampled_from(["\n", "\n", "\r\n", "\r"]), st.sampled_from(["", "\n", "\n\n\n", "\n \n"])), raw_case, 1200, 20000, lambda x: len(x[0]) > 2, "at least three lines"),
        Prop("split", st.tuples(m.some(other, 5, 30), m.some(feature(), 4, 12)), split_case, 800, 10000, lambda x: bool(x[1]), "at least one feature"),
        Prop("export", st.tuples(export_fonts(), b, b, b), export_case, 700, 10000, nt, r),
        Prop("missing", st.tuples(export_fonts(missing=True), b, b, b), export_case, 400, 6000, nt, r + "; classes may list glyphs the font does not have"),
        Prop("semantic", semantic(), semantic_case, 500, 6000, lambda x: bool(x["rules"]), "at least one kerning statement"),
        Prop("disk", st.tuples(export_fonts(), b), disk_case, 100, 1500, nt, r + "; written and read back"),
    ]
