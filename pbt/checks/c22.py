import html
import json
import re
from math import isclose
from pathlib import Path

from hypothesis import strategies as st

from pbt import cli, real
from pbt import container as c
from pbt import font as f
from pbt import model as m
from pbt.common import Prop, Violation, check, eq, label, normalize

RULE = "Files of generated entries of every kind (and raw ones) and generated fonts; JSON read back with the standard library and compared with the reference structure, in every mode; diffs of pairs of files that have the same, nearly the same or unrelated content, applied as patches."
ASSUMPTIONS = [
    "floating point values are finite (JSON has no NaN)",
    "the file has a readable header and well-formed entries",
    "with --no-decompile, the entries needed to read the file may appear as structures",
]


def name_of(eid):
    return m.SPECS[eid].name if eid in m.SPECS else str(eid)


def jsonify(x):
    if isinstance(x, dict):
        return {str(k): jsonify(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonify(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and isclose(a, b, rel_tol=1e-12, abs_tol=1e-12)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def eqj(got, want, what):
    if not same(got, want):
        eq(got, want, what)
        raise Violation(f"{what}: {got!r} != {want!r}")


def strict(text):
    def bad(x):
        raise Violation(f"invalid JSON constant {x}")

    def pairs(p):
        d = dict(p)
        eq(len(d), len(p), "number of different keys in a JSON object")
        return d

    return json.loads(text, parse_constant=bad, object_pairs_hook=pairs)


def save(d, data, *opts, name="F.vfb", func=False, **kw):
    from vfbLib.cmdline import vfb2json
    from vfbLib.json import save_vfb_json

    (d / name).write_bytes(data)
    (d / "out").mkdir(exist_ok=True)
    if func:
        save_vfb_json(d / name, out_path=d / "out", **kw)
    else:
        cli.run(vfb2json, *opts, "-p", d / "out", d / name)
    eq((d / name).read_bytes(), data, "input file")
    return strict((d / "out" / Path(name).with_suffix(".vfb.json").name).read_bytes())


def expected_entries(ctx, entries):
    out = []
    for (eid, want), (_, src) in zip(c.expected(ctx, entries), entries):
        if isinstance(want, bytes):
            out.append({"key": name_of(eid), "decompiled": want.hex()})
        else:
            out.append({"key": name_of(eid), "decompiled": jsonify(normalize(want))})
    return out


def check_header(d, minor=0x32):
    eq(set(d), {"header", "entries"}, "keys of the document")
    h = d["header"]["decompiled"]
    for k, v in m.HEADER.items():
        if k == "version_minor":
            v = minor
        check(v in h.values(), lambda: f"header value {k}={v} is not in {h}")
    return h


def file_case(case):
    (ctx, entries), seed, func = case
    data = c.file_bytes(ctx, entries, seed)
    with cli.scratch() as d:
        got = save(d, data, func=func)
        check_header(got)
        want = expected_entries(ctx, entries)
        eq([e["key"] for e in got["entries"]], [e["key"] for e in want], "entries")
        for i, (a, b) in enumerate(zip(got["entries"], want)):
            eqj(a, b, f"entry {i} ({b['key']})")
            label(b["key"])
        # Round trip mode shows the same content
        again = save(d, data, "-r", func=func, roundtrip=True)
        eqj(again, got, "JSON with -r")


def modes_case(case):
    (ctx, entries), seed, func = case
    data = c.file_bytes(ctx, entries, seed)
    with cli.scratch() as d:
        full = save(d, data)
        got = save(d, data, "--header", func=func, only_header=True)
        eqj(got, {"header": full["header"], "entries": []}, "JSON with --header")
        got = save(d, data, "-d", func=func, no_decompile=True)
        eqj(got["header"], full["header"], "header with -d")
        raws = c.parse(data)[1] if seed is None else [(e, m.encode(m.SPECS[e], x, ctx, seed) if not isinstance(x, bytes) else x) for e, x in entries]
        eq(len(got["entries"]), len(raws), "number of entries with -d")
        for i, (e, (eid, raw), w) in enumerate(zip(got["entries"], raws, full["entries"])):
            what = f"entry {i} ({name_of(eid)}) with -d"
            if eid in c.READ_DECOMPILED:
                check(same(e, w) or e.get("decompiled") == raw.hex(), what)
            else:
                eqj(e, {"key": name_of(eid), "decompiled": raw.hex(), "size": len(raw)}, what)
        # -d -r: the recompiled bytes
        got = save(d, data, "-d", "-r", func=func, no_decompile=True, roundtrip=True)
        for i, (e, (eid, x)) in enumerate(zip(got["entries"], entries)):
            raw = x if isinstance(x, bytes) else m.encode(m.SPECS[eid], x, ctx)
            eqj(e, {"key": name_of(eid), "decompiled": raw.hex(), "size": len(raw)}, f"entry {i} ({name_of(eid)}) with -d -r")
        # minimal mode may leave things out but shows nothing else
        got = save(d, data, "-m", func=func, minimal=True)
        eqj(got["header"], full["header"], "header with -m")
        rest = iter(full["entries"])
        for e in got["entries"]:
            check(any(subset(e, w) for w in rest), lambda: f"entry {e!r:.300} of the minimal export is not in the full one")


def subset(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in b and subset(a[k], b[k]) for k in a)
    return same(a, b)


def font_case(font):
    """A whole font: the JSON holds every value of the model."""
    data = f.data_of(font)
    with cli.scratch() as d:
        got = save(d, data)
        es = f.entries(font)
        ctx = m.Ctx(font["n"], font.get("platform", "windows"), *font.get("stems", (0, 0)))
        want = expected_entries(ctx, es)
        eq([e["key"] for e in got["entries"]], [e["key"] for e in want], "entries")
        for a, b in zip(got["entries"], want):
            eqj(a, b, f"entry {b['key']}")


def units_case(recs):
    """Name records hold any code unit, also halves of surrogate pairs."""
    from vfbLib.diff import diffvfb

    def data(rs):
        w = m.W()
        w.v(len(rs))
        for nid, units in rs:
            w.v(nid, 3, 1, 1033, len(units), *units)
        return c.file_bytes(m.Ctx(1, "windows", 0, 0), [(10, {"platform": "windows", "version": (5, 0, 0, 0), "owner": 1}), (1503, 1), (1138, w.get()), (2, "")])

    with cli.scratch() as d:
        got = save(d, data(recs))
        entry = [e for e in got["entries"] if e["key"] == name_of(1138)]
        eq(len(entry), 1, "name entries")
        for (nid, units), r in zip(recs, entry[0]["decompiled"]):
            eq(r[:4], [nid, 3, 1, 1033], "name record")
            want = "".join(map(chr, units))
            join = want.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
            check(r[4] in (want, join), lambda: f"name {r[4]!r} instead of {want!r}")
        # Codes that look like line ends to some are different in a diff
        for x, y in ((0x2028, 0x85), (0x0B, 0x0C), (0x41, 0x42)):
            (d / "G.vfb").write_bytes(data([(n, [x if u == y else y if u == x else u for u in us]) for n, us in recs]))
            out = cli.run(diffvfb, d / "F.vfb", d / "G.vfb")[0]
            changed = any(u in (x, y) for _, us in recs for u in us)
            check(bool(out) == changed, lambda: f"the diff is {out!r} where code {x} was swapped with {y}")
        (d / "G.vfb").write_bytes(data(recs))
        eq(cli.run(diffvfb, d / "F.vfb", d / "G.vfb")[0], "", "diff of the same file")


# --- diff


def apply_patch(a, diff):
    """Apply a unified diff to lines, checking every context and removed line."""
    out, i = [], 0
    it = iter(diff)
    for ln in it:
        mm = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", ln)
        check(mm, lambda: f"not a hunk header: {ln!r}")
        start, n, _, k = mm.groups()
        n = 1 if n is None else int(n)
        k = 1 if k is None else int(k)
        pos = int(start) - 1 if n else int(start)
        out += a[i:pos]
        i = pos
        while n or k:
            ln = next(it, None)
            check(ln is not None and ln[:1] in " +-", lambda: f"line in hunk: {ln!r}")
            if ln[0] in " -":
                check(i < len(a) and a[i] == ln[1:], lambda: f"diff shows {ln!r} where the first file has {a[i] if i < len(a) else None!r}")
                i += 1
                n -= 1
            if ln[0] in " +":
                out.append(ln[1:])
                k -= 1
    return out + a[i:]


def full_json(path):
    """The compared representation: the content of the file with sorted keys."""
    import orjson

    from vfbLib.vfb.vfb import Vfb

    v = Vfb(path, timing=False)
    v.decompile()
    return orjson.dumps(v.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS | orjson.OPT_SORT_KEYS).decode().split("\n")


@st.composite
def pair(draw, max_entries=5, ids=None):
    ctx, entries = draw(c.soup(max_entries, ids))
    kind = draw(st.sampled_from(["same", "same", "edit", "edit", "edit", "swap", "drop", "add"]))
    other = list(entries)
    fixed = {10, 1503, 1269, 2}
    free = [i for i, (e, _) in enumerate(entries) if e not in fixed]
    seed = None
    if kind == "same":
        seed = draw(st.integers(0, 2**16))
    elif free:
        i = draw(st.sampled_from(free))
        eid, x = entries[i]
        if kind == "edit":
            other[i] = (eid, draw(m.SPECS[eid].gen(ctx)))
        elif kind == "drop":
            del other[i]
        elif kind == "add":
            other.insert(i, entries[i])
        else:
            j = draw(st.sampled_from(free))
            other[i], other[j] = other[j], other[i]
    return ctx, entries, other, seed


def setup(d, ctx, entries, other, seed):
    a, b = d / "one.vfb", d / "two.vfb"
    a.write_bytes(c.file_bytes(ctx, entries))
    b.write_bytes(c.file_bytes(ctx, other, seed))
    want = [normalize(x) for x in c.expected(ctx, entries)] == [normalize(x) for x in c.expected(ctx, other)]
    label("same content" if want else "different content")
    return a, b, want


def diff_case(case):
    from vfbLib.diff import diffvfb

    with cli.scratch() as d:
        a, b, equal = setup(d, *case)
        out = cli.run(diffvfb, a, b)[0]
        check((out.strip() == "") == equal, lambda: f"the diff is {out[:800]!r} for files of {'the same' if equal else 'different'} content")
        eq(cli.run(diffvfb, a, a)[0].strip(), "", "diff of a file with itself")
        if equal:
            return
        lines = out.split("\n")
        eq(lines.pop(), "", "last line")
        check(lines[0].startswith("--- ") and str(a) in lines[0], lambda: f"first line {lines[0]!r}")
        body = [ln for ln in lines[1:] if ln]  # the file lines are never empty
        check(body[0].startswith("+++ ") and str(b) in body[0], lambda: f"second line {body[0]!r}")
        patched = apply_patch(full_json(a), body[1:])
        eq(patched, full_json(b), "first file with the diff applied")
        # the other direction
        back = [ln for ln in cli.run(diffvfb, b, a)[0].split("\n") if ln]
        eq(apply_patch(full_json(b), back[2:]), full_json(a), "second file with the reverse diff applied")


CELL = re.compile(r'<td nowrap="nowrap">(.*?)</td>', re.S)


def cells(text):
    out = set()
    for x in CELL.findall(text):
        x = re.sub(r'<span class="[^"]*">|</span>', "", x)
        out.add(html.unescape(x).replace("\xa0", " ").rstrip())
    return out


def html_case(case):
    from vfbLib.diff import diffvfb

    with cli.scratch() as d:
        a, b, equal = setup(d, *case)
        x, y = full_json(a), full_json(b)
        if max(map(len, x + y)) > 2000 or len(x) + len(y) > 600:
            label("too big for the HTML differ")
            return
        out = cli.run(diffvfb, "--html", d / "d.html", a, b)[0]
        eq(out.strip(), "", "console output")
        text = (d / "d.html").read_text("utf-8")
        check(("No Differences Found" in text) == equal, lambda: f"the HTML says there are {'no ' if not equal else ''}differences for files of {'the same' if equal else 'different'} content")
        if equal:
            return
        shown = cells(text)
        for ln in (set(x) ^ set(y)):
            if "\xa0" in ln or "\t" in ln or not ln.isprintable():
                continue
            check(ln.rstrip() in shown, lambda: f"line {ln!r} differs but is not in the HTML: {sorted(shown)[:20]}")
        check(str(a) in html.unescape(text) and str(b) in html.unescape(text), lambda: "the HTML does not name the files")


def nt(case):
    return len(case[0][1]) > 3


def props(tier):
    soup, seed, b = c.soup(10), st.one_of(st.none(), st.integers(0, 2**16)), st.booleans()
    raw = st.tuples(c.unknown_ids.filter(lambda i: i not in m.SPECS), c.raw_small)

    @st.composite
    def mixed(draw):
        ctx, entries = draw(soup)
        for x in draw(st.lists(raw, max_size=2)):
            entries.insert(draw(st.integers(0, len(entries) - 1)), x)
        return ctx, entries

    small = [e for e in sorted(m.SPECS) if m.SPECS[e].kind not in ("bg", "gb", "bitmap")]
    unit = st.one_of(st.sampled_from([0x41, 0xD83D, 0xDE00, 0xDC00, 0xD800, 0xFFFF, 0x2028, 0x85, 0x22, 0x5C]), st.integers(1, 0xFFFF))
    return [
        Prop("file", st.tuples(mixed(), seed, b), file_case, 1000, 15000, nt, "more than three entries"),
        Prop("modes", st.tuples(soup, seed, b), modes_case, 400, 6000, nt, "more than three entries"),
        Prop("font", f.fonts(), font_case, 250, 4000, lambda x: bool(x["glyphs"]), "at least one glyph"),
        Prop("real", real.fonts(), font_case, 100, 1500, lambda x: bool(x["glyphs"]), "at least one glyph of a real file"),
        Prop("units", st.lists(st.tuples(m.small, st.lists(unit, max_size=8)), max_size=3), units_case, 300, 4000, lambda x: any(u for _, u in x), "at least one code unit"),
        Prop("diff", pair(), diff_case, 500, 8000, lambda x: x[1] != x[2], "files with different entries"),
        Prop("html", pair(3, small), html_case, 150, 2500, lambda x: x[1] != x[2], "files with different entries"),
    ]
