import re

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.common import Prop, check, eq, label, normalize

RULE = "Files with up to 14 glyph, glyph-attached and font entries in any order, glyph names from a small pool so that duplicates are frequent, and sequences of up to 12 accesses."
ASSUMPTIONS = ["every glyph entry has a name part (FontLab always writes one)", "entries are added through add_entry, not by editing the entry list"]

NAMES = ["A", "A", "A#1", "A#2", "B", "B", "a.sc", "", "space", "A#1#1", "ä"]
names = st.one_of(st.sampled_from(NAMES), m.glyph_name)


@st.composite
def files(draw):
    ctx = draw(m.ctxs)
    ctx = m.Ctx(ctx.masters, ctx.platform)
    ents = []
    # no glyphs is a valid case as well
    for _ in range(draw(st.integers(0, 14))):
        k = draw(st.sampled_from(["g", "g", "g", "g", "links", "hopt", "other", "psopt"]))
        if k == "g":
            parts = draw(st.sampled_from([None, None, "components", "metrics", "hints"]))
            d = dict(draw(m.glyph_gen(ctx, name=names, part=parts)))
            d["name"] = d["name"] or "A"
            ents.append((2001, d))
        else:
            eid = {"links": 2008, "hopt": 2010, "psopt": 1093}.get(k) or draw(st.sampled_from([2012, 1250, 2017, 1026, 1135, 1277]))
            ents.append((eid, draw(m.SPECS[eid].gen(ctx))))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 40)), min_size=1, max_size=12))
    new = [{**draw(m.glyph_gen(ctx, name=names, part="metrics")), "name": draw(st.sampled_from(["A", "B", "new"]))} for _ in range(2)]
    return ctx, ents, ops, new


OPS = ["contains", "get", "missing", "keys", "items", "order", "master", "masters", "write", "add", "iter", "resolve"]


def model_glyphs(ents):
    """-> [(unique name, data, links, hinting options)] in file order, PS options"""
    out, seen, ps = [], set(), None
    for i, (eid, d) in enumerate(ents):
        if eid == 2001:
            n = d["name"]
            if n in seen:
                k = 1
                while f"{n}#{k}" in seen:
                    k += 1
                n = f"{n}#{k}"
            seen.add(n)
            out.append([n, i, d, None, None])
        elif eid == 2008 and out:
            out[-1][3] = i
        elif eid == 2010 and out:
            out[-1][4] = i
        elif eid == 1093:
            ps = i
    return out, ps


def access_case(case):
    ctx, ents, ops, new = case
    ents = list(ents)
    new = list(new)
    head = [(10, {"platform": ctx.platform, "version": (5, 0, 0, 0), "owner": 1}), (1503, ctx.masters)]
    v = m.read_vfb(c.file_bytes(ctx, head + ents))
    for op, n in ops:
        label(op)
        glyphs, ps = model_glyphs(ents)
        order = [g[0] for g in glyphs]
        if op == "contains":
            for name in {*order, *NAMES, "nope", "A#3"}:
                eq(name in v, name in order, f"{name!r} in the file")
        elif op == "missing":
            for name in ("nope", "A#9", "B#9"):
                if name not in order:
                    try:
                        v[name]
                    except KeyError:
                        continue
                    check(False, f"glyph {name!r} found, the glyphs are {order}")
        elif op == "keys":
            eq(list(v.keys()), order, "keys")
        elif op == "order":
            eq(v.glyph_order, order, "glyph order")
        elif op == "items":
            got = list(v.items())
            eq([k for k, _ in got], order, "names of the items")
            for (k, g), w in zip(got, glyphs):
                check(g is v[k], "items and lookup give different glyphs")
                check(g.entry is v.entries[2 + w[1]], f"glyph {k!r} belongs to another entry")
        elif op == "iter":
            check([k for k in v.keys() if k in v] == v.glyph_order, "keys, membership and glyph order disagree")
        elif op == "get" and glyphs:
            verify(v, v[glyphs[n % len(glyphs)][0]], glyphs[n % len(glyphs)], ctx)
        elif op == "resolve" and glyphs:
            list(v.keys())
            got = v.ps_hinting_options
            check((got is None) == (ps is None), "PostScript hinting options of the file")
            if ps is not None:
                check(got is v.entries[2 + ps], "PostScript hinting options of the file belong to another entry")
                eq(normalize(got.data), normalize(ents[ps][1]), "PostScript hinting options")
        elif op == "master" and glyphs:
            w = glyphs[n % len(glyphs)]
            k = n % ctx.masters
            g = v.getGlyphMaster(w[0], k)
            eq(g.master_index, k, "master of the glyph master")
            verify(v, g.glyph, w, ctx)
            eq(len(g), contours(w[2]), f"contours of master {k} of {w[0]!r}")
            eq(g.name, w[2]["name"], "name of the glyph master")
        elif op == "masters":
            ms = v.get_masters()
            eq(len(ms), ctx.masters, "number of masters")
            for k, ma in enumerate(ms):
                eq(list(ma.keys()), order, f"keys of master {k}")
                eq(ma.glyph_order, order, f"glyph order of master {k}")
                eq([i for i, _ in ma.items()], order, f"items of master {k}")
                for (i, g), w in zip(ma.items(), glyphs):
                    eq(g.master_index, k, f"master of the item {i!r} of master {k}")
                    check(g.entry is v.entries[2 + w[1]], f"item {i!r} of master {k} belongs to another entry")
                eq(ma.num_masters, ctx.masters, "number of masters of the master")
                if order:
                    w = glyphs[n % len(glyphs)]
                    check(w[0] in ma and "nope" not in ma, "membership in the master")
                    g = ma[w[0]]
                    eq(g.master_index, k, "master of a glyph of the master")
                    check(g.entry is v.entries[2 + w[1]], f"glyph {w[0]!r} of master {k} belongs to another entry")
        elif op == "write":
            want = c.file_bytes(ctx, head + ents)
            check(m.write_vfb(v) == want, "file written after accessing glyphs")
        elif op == "add" and new:
            d = new.pop()
            raw = m.encode(m.SPECS[2001], d, ctx)
            from vfbLib.vfb.entry import VfbEntry

            e = VfbEntry(v, eid=2001)
            e.data = raw
            v.add_entry(e)
            ents.append((2001, d))
    check(m.write_vfb(v) == c.file_bytes(ctx, head + ents), "file written after accessing glyphs")


def contours(d):
    return sum(1 for n in d.get("nodes", []) if n["type"] == "move")


def verify(v, g, w, ctx):
    name, i, d, links, hopt = w
    check(g.entry is v.entries[2 + i], f"glyph {name!r} belongs to another entry")
    eq(g.name, d["name"], f"stored name of {name!r}")
    eq(normalize(g.entry.data["nodes"]), normalize(d["nodes"]), f"outlines of {name!r}")
    eq(g.entry.data.get("name"), d["name"], "stored name")
    for k in ("metrics", "components"):
        eq(normalize(g.entry.data.get(k)), normalize(d.get(k)), f"{k} of {name!r}")
    eq(len(g), contours(d), f"number of contours of {name!r}")
    for what, got, want in (("links", g.links_entry, links), ("hinting options", g.ps_hinting_options, hopt)):
        check((got is None) == (want is None), f"{what} of {name!r}: {got} instead of entry {want}")
        if want is not None:
            check(got is v.entries[2 + want], f"{what} of {name!r} belong to another glyph")


def damaged_case(case):
    """A file with a damaged glyph never shows some of its glyphs as if they were all of them."""
    ctx, ents, k, cut, n = case
    head = [(10, {"platform": ctx.platform, "version": (5, 0, 0, 0), "owner": 1}), (1503, ctx.masters)]
    gl = [i for i, (e, _) in enumerate(ents) if e == 2001]
    if not gl:
        return
    i = gl[k % len(gl)]
    raw = m.encode(m.SPECS[2001], ents[i][1], ctx)
    ents = list(ents)
    ents[i] = (2001, raw[: min(cut, len(raw) - 1)])
    v = m.read_vfb(c.file_bytes(ctx, head + ents))
    for _ in range(2):
        for f in (lambda: list(v.keys()), lambda: "A" in v, lambda: v.glyph_order, lambda: v["A"]):
            try:
                f()
            except KeyError:
                check(False, "a glyph counts as missing because another one is damaged")
            except Exception:
                continue
            check(False, f"damaged glyph was not reported, glyphs are {v._glyph_order if hasattr(v, '_glyph_order') else ''}")
    check(v.any_errors, "error flag")
    check(c.parse(m.write_vfb(v))[1][2 + i][1] == ents[i][1], "data of the damaged glyph")


@st.composite
def damaged(draw):
    ctx, ents, _, _ = draw(files())
    return ctx, ents, draw(st.integers(0, 20)), draw(st.integers(0, 5)), 0


def nt(case):
    n = [d["name"] for e, d in case[1] if e == 2001]
    return len(n) > 1 and len(n) != len(set(n))


def props(tier):
    r = "file with up to 14 entries and up to 12 accesses; non-trivial if it has duplicate glyph names"
    return [
        Prop("access-1", files(), access_case, 700, 12000, nt, r),
        Prop("access-2", files(), access_case, 700, 12000, nt, r),
        Prop("damaged", damaged(), damaged_case, 300, 4000, lambda k: any(e == 2001 for e, _ in k[1]), "a file with a truncated glyph; non-trivial with a glyph"),
    ]
