import re

from hypothesis import strategies as st

from pbt import cli, real, ufo
from pbt import font as f
from pbt.common import Prop, check, eq, label

RULE = "Fonts of 2 to 9 glyphs with up to 6 kerning, metrics and OpenType classes and kerning pairs of every combination of key, member and ungrouped glyphs, in up to 4 masters; all glyph pairs looked up in the export."
ASSUMPTIONS = [
    "for the pair lookup, no glyph is in two kerning classes of the same side (the source application rejects that as well)",
    "kerning classes without a side flag are not exported, as the source application ignores them",
    "a key glyph is listed before the other members of its class",
]
FIRST, SECOND = 1024, 2048
value = st.one_of(st.integers(-3, 3), st.integers(-300, 300), st.integers(-32000, 32000))


@st.composite
def fonts(draw, overlap=False, missing=False, axes=(0,) * 7 + (1, 1, 1, 2, 2, 2, 3, 4)):
    font = draw(f.fonts(parts=frozenset(), max_contours=0, min_glyphs=2, max_glyphs=9, axes=axes, unique_names=draw(st.integers(0, 3)) > 0))
    n = font["n"]
    order = [g["name"] for g in font["glyphs"]]
    pool = sorted(set(order)) + (["missing1", "missing2"] if missing else [])
    free = {1: list(pool), 2: list(pool)}
    classes, flags = [], {}
    for k in range(draw(st.sampled_from([0, 1, 2, 3, 3, 4, 5, 9]))):
        kind = draw(st.sampled_from(["k1", "k1", "k2", "k2", "k12", "noflag", "metrics", "ot"]))
        name = {"metrics": ".", "ot": ""}.get(kind, "_") + draw(st.sampled_from(["A", "B", "x", "A_top", "public.kern"] if kind != "ot" else ["sc", "lc", "Class1", "public.x"])) + str(k)
        sides = {"k1": [1], "k2": [2], "k12": [1, 2]}.get(kind, [])
        cand = pool if overlap or not sides else [g for g in pool if all(g in free[s] for s in sides)]
        members = draw(st.lists(st.sampled_from(cand), unique=True, min_size=draw(st.integers(0, min(2, len(cand)))), max_size=9)) if cand else []
        if not overlap:
            for s in sides:
                free[s] = [g for g in free[s] if g not in members]
        keys = []
        if members and (name[0] == "_" and draw(st.integers(0, 5)) or draw(st.integers(0, 8)) == 0):
            keys = [draw(st.sampled_from(members))]
            if draw(st.integers(0, 7)) == 0:  # more than one marked glyph
                keys = [g for g in members if g in keys or draw(st.booleans())]
        classes.append({"name": name, "sides": sides, "members": members, "keys": keys,
                        "sep": draw(st.sampled_from([" ", " ", "  "]))})
        if sides:
            flags[name] = (sum({1: FIRST, 2: SECOND}[s] for s in sides) + draw(st.sampled_from([0, 1, 512, 4096])), draw(st.integers(-3, 3)))
        elif kind == "noflag" and draw(st.booleans()):
            flags[name] = (0, 0)
    ids = st.integers(0, len(order) - 1)
    kern = {}
    for left in draw(st.sets(ids, min_size=draw(st.integers(0, 2)), max_size=9)):
        pairs = draw(st.dictionaries(ids, f.per(value, n), min_size=1, max_size=9))
        font["glyphs"][left]["d"]["kerning"] = pairs
        for right, v in pairs.items():
            kern[left, right] = v
    font["classes"], font["kern"] = classes, kern
    if flags or draw(st.booleans()):
        font["head"].append((2026, flags))
    for cl in classes:
        body = cl["sep"].join(g + ("'" if g in cl["keys"] else "") for g in cl["members"])
        font["head"].append((1277, f"{cl['name']}: {body}"))
    if classes and draw(st.integers(0, 5)) == 0:
        # A further class of the same name, which does not count
        again = draw(st.sampled_from(classes))["name"]
        font["head"].append((1277, f"{again}: " + " ".join(draw(st.lists(st.sampled_from(pool), unique=True, max_size=4)))))
    return font


def ordered(cl, keep=None):
    m = [g for g in cl["members"] if keep is None or g in keep]
    return [g for g in m if g in cl["keys"]] + [g for g in m if g not in cl["keys"]]


def vfb_lookup(font, order, i):
    """-> function: the value FontLab shows for a pair of glyph indices."""
    key = {1: {}, 2: {}}
    gid = {n: k for k, n in reversed(list(enumerate(order)))}
    for cl in font["classes"]:
        for s in cl["sides"]:
            k = [g for g in cl["keys"] if g in gid]
            if k:
                for g in cl["members"]:
                    if g in gid:
                        key[s][gid[g]] = gid[k[0]]

    def look(a, b):
        for pair in ((a, b), (a, key[2].get(b)), (key[1].get(a), b), (key[1].get(a), key[2].get(b))):
            if pair in font["kern"]:
                return font["kern"][pair][i]
        return 0

    return look


def ufo_lookup(v, what):
    side = {1: {}, 2: {}}
    for name, members in v["groups"].items():
        for s in (1, 2):
            if name.startswith(f"public.kern{s}."):
                for g in members:
                    check(g not in side[s], lambda: f"{what}: {g!r} is in {name!r} and in {side[s][g]!r}")
                    side[s][g] = name

    def look(a, b):
        for pair in ((a, b), (a, side[2].get(b)), (side[1].get(a), b), (side[1].get(a), side[2].get(b))):
            if pair in v["kerning"]:
                return v["kerning"][pair]
        return 0

    return look


def check_groups(v, font, order, what, minimal=False, moved=True):
    keep = set(order) if minimal else None
    want, fea = {}, {}
    for cl in font["classes"]:
        members = ordered(cl, keep)
        if cl["name"].startswith("_"):
            for s in cl["sides"]:
                if members:
                    want[f"public.kern{s}.{cl['name']}"] = members
        elif cl["name"].startswith(".") or not moved:
            if members or not cl["members"] or not minimal:
                want[cl["name"]] = members
        elif members or not cl["members"] or not minimal:
            fea[cl["name"]] = members
    eq(sorted(v["groups"]), sorted(want), f"{what}: groups")
    for k, l in want.items():
        eq(v["groups"][k], l, f"{what}: members of {k!r}")
    keys = v["lib"].get("com.lucasfonts.vfblib.groupKeyGlyphs", {})
    for cl in font["classes"]:
        for s in cl["sides"]:
            name = f"public.kern{s}.{cl['name']}"
            k = [g for g in cl["keys"] if g in order]
            if k:
                eq(keys.get(name), k[0], f"{what}: key glyph of {name!r}")
            elif not cl["keys"]:
                eq(keys.get(name), None, f"{what}: key glyph of {name!r}")
    go = v["lib"].get("public.groupOrder", [])
    eq([g for g in go if g in want], list(want), f"{what}: group order")
    return fea


def check_references(v, order, what):
    for pair in v["kerning"]:
        for s, x in zip((1, 2), pair):
            check(x in v["groups"] if x.startswith("public.kern") else x in order, lambda: f"{what}: kerning pair {pair} refers to a missing item")
            check(not x.startswith("public.kern") or x.startswith(f"public.kern{s}."), lambda: f"{what}: kerning pair {pair} has a group on the wrong side")


def check_master(v, font, i, minimal=False, moved=True):
    what = f"master {i}"
    order = v["order"]
    eq(len(order), len(font["glyphs"]), "glyph order")
    fea = check_groups(v, font, order, what, minimal, moved)
    check_references(v, order, what)
    want, got = vfb_lookup(font, order, i), ufo_lookup(v, what)
    for a in range(len(order)):
        for b in range(len(order)):
            x, y = got(order[a], order[b]), want(a, b)
            check(x == y, lambda: f"{what}: kerning of ({order[a]}, {order[b]}) is {x}, not {y}\n   groups: {v['groups']}\n   kerning: {v['kerning']}")
    if any(len(set(vs)) > 1 for vs in font["kern"].values()):
        label("values differ between masters")
    for name, members in fea.items():
        line = f"@{name} = [{' '.join(members)}];"
        check(v["features"].splitlines().count(line) == 1, lambda: f"{what}: {line!r} is not in the feature code {v['features']!r}")


def kerning_case(case):
    font, minimal, add, move = case
    for i, u in enumerate(f.export(font, f.vfb_of(font, minimal=minimal), minimal=minimal, add_kerning_groups=add, move_groups=move)):
        v = ufo.view(u)
        check_master(v, font, i, minimal, move)
        for name in v["groups"]:
            line = f"@{name} = [{' '.join(v['groups'][name])}];"
            if name.startswith("public.kern"):
                eq(v["features"].splitlines().count(line), int(add), f"kerning group {name!r} in the feature code")


def seen_keys(font, s, cl, order):
    """Keys of the classes before this one."""
    out = set()
    for c in font["classes"]:
        if c is cl:
            return out
        if s in c["sides"]:
            out.update([g for g in c["keys"] if g in order][:1])


def overlap_case(font):
    for i, u in enumerate(f.export(font)):
        v = ufo.view(u)
        look = ufo_lookup(v, f"master {i}")
        check_references(v, v["order"], f"master {i}")
        # A pair of two glyphs has its value, unless one of them is the key of a class that lost it
        lost = {1: set(), 2: set()}
        for s in (1, 2):
            for c in font["classes"]:
                k = [g for g in c["keys"] if g in v["order"]][:1] if s in c["sides"] else []
                lost[s].update(g for g in k if g not in v["groups"].get(f"public.kern{s}.{c['name']}", ()) and g not in seen_keys(font, s, c, v["order"]))
        for (left, right), vs in font["kern"].items():
            a, b = v["order"][left], v["order"][right]
            if a not in lost[1] and b not in lost[2]:
                check(look(a, b) == vs[i], lambda: f"master {i}: kerning of ({a}, {b}) is {look(a, b)}, not {vs[i]}")
                label("pair of overlapping classes")
        for name, members in v["groups"].items():
            if name.startswith("public.kern"):
                cl = [c for c in font["classes"] if name in [f"public.kern{s}.{c['name']}" for s in c["sides"]]]
                check(len(cl) == 1, lambda: f"unexpected group {name!r}")
                rest = [g for g in ordered(cl[0]) if g in members]
                eq(members, rest, f"members of {name!r}")
        for s in (1, 2):
            want = {g for c in font["classes"] if s in c["sides"] for g in c["members"]}
            got = {g for n, l in v["groups"].items() if n.startswith(f"public.kern{s}.") for g in l}
            eq(sorted(got), sorted(want), f"glyphs in kerning groups of side {s}")


def disk_case(font):
    with cli.scratch() as d:
        f.builder(font).write(d / "F.ufo", silent=True)
        for i in range(font["n"]):
            check_master(ufo.read(d / ("F.ufo" if i == 0 else f"F-{i}.ufo")), font, i)


def nt(case):
    font = case[0] if isinstance(case, tuple) else case
    return bool(font["kern"]) and any(c["sides"] and c["members"] for c in font["classes"])


def props(tier):
    b = st.booleans()
    r = "at least one kerning pair and one non-empty kerning class"
    return [
        Prop("lookup", st.tuples(fonts(), b, b, b), kerning_case, 900, 15000, nt, r),
        Prop("missing", st.tuples(fonts(missing=True), b, b, b), kerning_case, 500, 8000, nt, r + "; classes may list glyphs the font does not have"),
        Prop("overlap", fonts(overlap=True, missing=True), overlap_case, 300, 5000, nt, r + "; classes may share glyphs"),
        Prop("real", st.tuples(real.fonts(prefer=lambda g: "kerning" in g["d"]), b, b, b), kerning_case, 150, 3000, lambda x: bool(x[0]["kern"]), "glyphs, classes and kerning of a real file, with at least one pair"),
        Prop("disk", fonts(), disk_case, 120, 1500, nt, r + "; written and read back"),
    ]
