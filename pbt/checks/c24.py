import io
import json
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from pbt import cli
from pbt import font as f
from pbt.common import Prop, Violation, check, eq, label

RULE = "Sequences of 1 to 4 command-line runs (every tool, every documented option, relative and absolute paths, output folder or file given or not, forced or not, missing and damaged input files) in one folder that already holds other files; the whole folder is compared before and after each run with the files the library functions write to an empty folder."
ASSUMPTIONS = [
    "output folders exist; input files have the extension .vfb",
    "the JSON and hinting exporters and the HTML diff overwrite existing files, as documented",
    "the option that the documentation lists as not implemented is not used, and no output file is the input file of a forced run",
]
FONTS = {"parts": frozenset(["components", "anchors", "unicodes", "note"]), "axes": (0,) * 6 + (1, 1, 1, 2), "max_glyphs": 2, "unique_names": True, "min_glyphs": 0}
STEMS = ["F", "My Font", "My.Font", "a-1", "Ünï", "x.ufo"]
UFO_FLAGS = ["-g", "-k", "-64", "-n", "-nops", "-m", "-u", "-v"]


@st.composite
def font_of(draw):
    font = draw(f.fonts(**FONTS))
    if draw(st.booleans()):
        names = [g["name"] for g in font["glyphs"]] or ["A"]
        font["head"] += [(2026, {"_k": (1024, 0)}), (1277, f"_k: {names[0]}' missing"), (1277, f"ot: {names[-1]} missing"), (1276, ["pos @_k @_k 5;", ""])]
    font["head"].append((1135, 1000))
    return font


@st.composite
def op(draw):
    tool = draw(st.sampled_from(["vfb3ufo"] * 5 + ["vfbcu2qu"] * 3 + ["vfb2json"] * 2 + ["vfb2tth", "vfbdiff"]))
    o = {"tool": tool, "file": draw(st.sampled_from([0, 0, 0, 1])), "abs": draw(st.booleans()), "path": draw(st.sampled_from([None, None, "out", "in", "."])), "pabs": draw(st.booleans())}
    o["bad"] = draw(st.sampled_from([None] * 8 + ["missing", "garbage"]))
    if tool in ("vfb3ufo", "vfbcu2qu"):
        o["force"] = draw(st.booleans())
        o["to"] = draw(st.sampled_from([None, None, None, "new", "out/new", "My Font"]))
    if tool == "vfb3ufo":
        o["flags"] = draw(st.lists(st.sampled_from(UFO_FLAGS), unique=True, max_size=4))
        o["json"], o["zip"], o["silent"] = draw(st.integers(0, 4)) == 0, draw(st.integers(0, 3)) == 0, draw(st.booleans())
        o["ufoz"] = draw(st.integers(0, 3)) == 0
    if tool == "vfbcu2qu":
        o["err"] = draw(st.sampled_from([None, "0.002"]))
    if tool == "vfb2json":
        o["flags"] = draw(st.lists(st.sampled_from(["-d", "--header", "-m", "-r", "-u"]), unique=True, max_size=2))
    if tool == "vfb2tth":
        o["fmt"] = draw(st.sampled_from([None, "json", "yaml", "toml", "xml"]))
    if tool == "vfbdiff":
        o["html"] = draw(st.booleans())
    return o


@st.composite
def scenario(draw):
    stems = draw(st.lists(st.sampled_from(STEMS), min_size=2, max_size=2, unique=True))
    return {"stems": stems, "fonts": [draw(font_of()), draw(font_of())], "ops": draw(st.lists(op(), min_size=1, max_size=4)),
            "junk": draw(st.lists(st.sampled_from(["out/notes.txt", "in/F.txt", "out/F-7.ufo/metainfo.plist", "new.txt"]), unique=True, max_size=2))}


def snapshot(root):
    out = {}
    for k, v in cli.tree(root).items():
        if v[:4] == b"PK\x03\x04":  # the time stamps of a ZIP file are no content
            z = zipfile.ZipFile(io.BytesIO(v))
            eq(z.testzip(), None, f"damaged file in {k}")
            v = sorted((n, z.read(n)) for n in z.namelist() if not n.endswith("/"))
        out[k] = v
    return out


def replace(tree, new, targets):
    """The tree after these outputs were written."""
    keep = {k: v for k, v in tree.items() if not any(k == t or k.startswith(t + "/") for t in targets)}
    return {**keep, **new}


# --- what each tool has to write, made with the library in an empty folder


def ref_ufo(o, src, name, ref):
    from vfbLib.enum import F
    from vfbLib.ufo.builder import VfbToUfoBuilder
    from vfbLib.vfb.vfb import Vfb

    fl = o["flags"]
    vfb = Vfb(src, timing=False, minimal="-m" in fl, drop_keys={F.Encoding, F.EncodingDefault}, unicode_strings="-u" in fl)
    vfb.decompile()
    b = VfbToUfoBuilder(vfb, minimal="-m" in fl, base64="-64" in fl, pshints="-nops" not in fl, add_kerning_groups="-k" in fl, move_groups="-g" not in fl, normalize="-n" not in fl)
    zipped = (o["zip"] or o["to"] is not None and o["ufoz"]) and not o["json"]
    b.write(ref / (name + (".ufoz" if zipped else ".ufo")), silent=True, ufoz=o["zip"] if o["json"] else zipped, json=o["json"])


def ref_qu(o, src, name, ref):
    from fontTools.cu2qu.ufo import font_to_quadratic, fonts_to_quadratic
    from vfbLib.enum import G
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(src, timing=False, drop_keys={G.Links})
    vfb.decompile()
    kw = {"max_err_em": float(o["err"] or 0.001), "reverse_direction": True, "remember_curve_type": False, "all_quadratic": True}
    if font_to_quadratic(vfb, **kw) if vfb.num_masters == 1 else fonts_to_quadratic(vfb.get_masters(), **kw):
        vfb.write(ref / name)


def ref_json(o, src, name, ref):
    from vfbLib.json import save_vfb_json

    fl = o["flags"]
    save_vfb_json(src, ref, only_header="--header" in fl, minimal="-m" in fl, unicode_strings="-u" in fl, no_decompile="-d" in fl, roundtrip="-r" in fl)


def ref_tth(o, src, ref):
    from vfbLib.tth import extract_truetype_hinting
    from vfbLib.vfb.vfb import Vfb

    return extract_truetype_hinting(Vfb(src, timing=False))


# --- one run


def func(tool):
    from vfbLib import cmdline, cu2qu, diff, tth

    return {"vfb3ufo": cmdline.vfb2ufo, "vfb2json": cmdline.vfb2json, "vfbcu2qu": cu2qu.vfbcu2qu, "vfb2tth": tth.vfb2tth, "vfbdiff": diff.diffvfb}[tool]


def attempt(fn, *args):
    try:
        out, _ = cli.run(fn, *args)
        return None, out
    except SystemExit as e:
        return (None if e.code in (None, 0) else e), ""
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return e, ""


def step(d, sc, o, what):
    tool = o["tool"]
    stem = sc["stems"][o["file"]]
    src = d / "in" / f"{stem}.vfb"
    if o["bad"]:
        src = d / "in" / ("nothing.vfb" if o["bad"] == "missing" else "garbage.vfb")
    arg = src if o["abs"] else src.relative_to(d)
    opts, folder = [], src.parent
    if o["path"] and tool != "vfbdiff":
        folder = d / o["path"]
        opts += ["-p", folder if o["pabs"] else o["path"]]
    before = snapshot(d)
    ref = d.parent / (d.name + "-ref")
    ref.mkdir()
    try:
        new, targets, silent = plan(d, o, src, folder, opts, ref, tool, stem)
        tail = [o["_to"]] if o.get("_to") else []
        files = [arg] if tool != "vfbdiff" else [arg, (d / "in" / f"{sc['stems'][1 - o['file']]}.vfb")]
        # the compared file, the JSON etc. follow the options
        error, out = attempt(func(tool), *opts, *files, *tail)
        after = snapshot(d)
        blocked = [t for t in targets if (d / t).exists() and any(k == t or k.startswith(t + "/") for k in before)] if tool in ("vfb3ufo", "vfbcu2qu") and not o["force"] else []
        if o["bad"] or blocked or new is None:
            why = f"{what}: " + (f"{o['bad']} input" if o["bad"] else f"{blocked} exist" if blocked else "invalid option")
            check(error is not None, lambda: f"{why}, but there was no error")
            same_tree(after, before, f"{why}: files")
            label("refused: exists" if blocked else "refused")
            return
        if error is not None:
            raise Violation(f"{what}: {type(error).__name__}: {error}")
        same_tree(after, replace(before, new, targets), f"{what}: files")
        if silent:
            eq(out, "", f"{what}: output in silent mode")
        label(tool)
    finally:
        import shutil

        shutil.rmtree(ref, ignore_errors=True)


def same_tree(got, want, what):
    eq(sorted(got), sorted(want), what)
    for k in got:
        if got[k] != want[k]:
            eq(got[k], want[k], f"{what}: content of {k}")


def plan(d, o, src, folder, opts, ref, tool, stem):
    """-> (new files, names of the outputs, silent); fills in the options."""

    def rel(p):
        return str(p.relative_to(d))

    def made(base):
        return {rel(base / k): v for k, v in snapshot(ref).items()}

    if tool == "vfb3ufo":
        opts += o["flags"] + ["-j"] * o["json"] + ["-z"] * o["zip"] + ["-s"] * o["silent"] + ["-fo"] * o["force"]
        name, base = stem, folder
        if o["to"]:
            o["_to"] = o["to"] + (".ufoz" if o["ufoz"] else ".ufo")
            p = (folder if o["path"] else d) / o["to"]
            if o["path"] and not p.parent.exists():
                p.parent.mkdir()
            name, base = p.name, p.parent
        if o["bad"]:
            return {}, [], False
        ref_ufo(o, src, name, ref)
        return made(base), [rel(base / p.name) for p in ref.iterdir()], o["silent"]
    if tool == "vfbcu2qu":
        name, base = stem + (".vfb" if o["path"] else ".qu.vfb"), folder
        if o["to"]:
            o["_to"] = o["to"] + ".vfb"
            p = (folder if o["path"] else d) / o["_to"]
            if o["path"] and not p.parent.exists():
                p.parent.mkdir()
            name, base = p.name, p.parent
        if o["force"] and base / name in (d / "in").iterdir():
            o["force"] = (base / name).name in ("new.vfb",)
        opts += ["-fo"] * o["force"] + (["-m", o["err"]] if o["err"] else [])
        if o["bad"]:
            return {}, [], False
        ref_qu(o, src, name, ref)
        return made(base), [rel(base / p.name) for p in ref.iterdir()], False
    if tool == "vfb2json":
        opts += o["flags"]
        if o["bad"]:
            return {}, [], False
        ref_json(o, src, stem, ref)
        return made(folder), [rel(folder / p.name) for p in ref.iterdir()], False
    if tool == "vfb2tth":
        if o["fmt"]:
            opts += ["-f", o["fmt"]]
        if o["bad"]:
            return {}, [], False
        if o["fmt"] == "xml":
            return None, [], False
        fmt = o["fmt"] or "json"
        data = ref_tth(o, src, ref)
        return {rel(folder / f"{stem}.tth.{fmt}"): Content(data, fmt)}, [rel(folder / f"{stem}.tth.{fmt}")], False
    if o["html"]:
        opts += ["--html", "out/diff.html"]
        if o["bad"]:
            return {}, [], False
        return {"out/diff.html": Content(None, "html")}, ["out/diff.html"], False
    return {}, [], False


class Content:
    """Equal to any bytes with this content."""

    def __init__(self, data, fmt):
        self.data, self.fmt = data, fmt

    def __eq__(self, raw):
        if self.fmt == "html":
            return b"</html>" in raw
        if self.fmt == "yaml":
            import yaml

            return yaml.safe_load(raw.decode("utf-8")) == self.data
        if self.fmt == "toml":
            import tomllib

            return tomllib.loads(raw.decode("utf-8")) == self.data
        return json.loads(raw) == json.loads(json.dumps(self.data))

    def __ne__(self, raw):
        return not self == raw

    def __repr__(self):
        return f"<{self.fmt} of {self.data!r}>"


def run_case(sc):
    with cli.scratch() as root:
        d = root / "w"
        (d / "in").mkdir(parents=True)
        (d / "out").mkdir()
        import os

        os.chdir(d)
        for s, font in zip(sc["stems"], sc["fonts"]):
            (d / "in" / f"{s}.vfb").write_bytes(f.data_of(font))
        (d / "in" / "garbage.vfb").write_bytes(b"This is no VFB")
        for j in sc["junk"]:
            (d / j).parent.mkdir(parents=True, exist_ok=True)
            (d / j).write_text("x")
        for k, o in enumerate(sc["ops"]):
            o = dict(o)
            step(d, sc, o, f"run {k + 1} ({ {k: v for k, v in o.items()} })")


def repeat_case(case):
    """The same export twice: refused or replaced as a whole."""
    sc, other = case
    o = dict(sc["ops"][0])
    sc = {**sc, "ops": [{**o, "tool": "vfb3ufo", "bad": None, "file": 0, "force": False, **other[0]}, {**o, "tool": "vfb3ufo", "bad": None, "file": 0, **other[1]}]}
    run_case(sc)


@st.composite
def protected(draw):
    axes = draw(st.sampled_from([0, 1, 2, 2, 3]))
    font = draw(f.fonts(parts=frozenset(["unicodes"]), axes=(axes,), max_glyphs=1, unique_names=True))
    font["head"].append((1135, 1000))
    kind = draw(st.sampled_from(["json", "ufo", "ufoz"]))
    outputs = 2**axes + (axes > 0)
    taken = draw(st.sets(st.integers(0, outputs - 1), min_size=1, max_size=2))
    return {"font": font, "kind": kind, "taken": sorted(taken), "stem": draw(st.sampled_from(STEMS[:4])), "path": draw(st.booleans()), "outputs": outputs, "ds": axes > 0 and draw(st.booleans())}


def protected_case(case):
    """Some of the outputs of a multiple-master export exist: all or nothing is written."""
    from vfbLib import cmdline

    with cli.scratch() as root:
        import os

        stem, kind = case["stem"], case["kind"]
        folders = [root / "free", root / "taken"]
        for d in folders:
            (d / "in").mkdir(parents=True)
            (d / "out").mkdir()
            (d / "in" / f"{stem}.vfb").write_bytes(f.data_of(case["font"]))
        args = {"ufo": [], "ufoz": ["-z"], "json": ["-j"]}[kind] + (["-p", "out"] if case["path"] else [])
        os.chdir(folders[0])
        src = Path("in") / f"{stem}.vfb"
        error, _ = attempt(cmdline.vfb2ufo, *args, src)
        check(error is None, lambda: f"{args}: {error!r}")
        free = snapshot(folders[0])
        outs = sorted({"/".join(k.split("/")[:2]) for k in free} - {str(src)})
        eq(len(outs), case["outputs"], f"{args}: outputs {outs}")
        taken = [x for x in outs if x.endswith(".designspace")] if case["ds"] else [outs[i] for i in case["taken"]]
        os.chdir(folders[1])
        for t in taken:
            if kind == "ufo" and t.endswith(".ufo"):
                Path(t).mkdir()
                t = f"{t}/metainfo.plist"
            Path(t).write_text("precious")
        before = snapshot(folders[1])
        error, _ = attempt(cmdline.vfb2ufo, *args, src)
        check(error is not None, lambda: f"{args}: {taken} exist, but there was no error")
        same_tree(snapshot(folders[1]), before, f"{args}: {taken} exist: files")
        error, _ = attempt(cmdline.vfb2ufo, "-fo", *args, src)
        check(error is None, lambda: f"{args}: {taken} exist, forced: {error!r}")
        same_tree(snapshot(folders[1]), free, f"{args}: {taken} exist, forced: files")
        label(kind)


def props(tier):
    flags = st.lists(st.sampled_from(UFO_FLAGS), unique=True, max_size=3)
    u = st.fixed_dictionaries({"flags": flags, "json": st.booleans(), "zip": st.booleans(), "silent": st.booleans(), "ufoz": st.just(False), "to": st.just(None), "force": st.booleans(), "file": st.just(0)})
    two = u.flatmap(lambda x: st.tuples(st.just({**x, "force": False}), st.fixed_dictionaries({"flags": flags, "json": st.just(x["json"]), "zip": st.just(x["zip"]), "silent": st.booleans(), "ufoz": st.just(False), "to": st.just(None), "force": st.booleans()})))
    return [
        Prop("runs", scenario(), run_case, 500, 8000, lambda s: len(s["ops"]) > 1, "at least two runs"),
        Prop("again", st.tuples(scenario(), two), repeat_case, 200, 3000, lambda s: True, "two exports of the same file to the same place, with the same kind of output"),
        Prop("protected", protected(), protected_case, 160, 1500, lambda s: s["outputs"] > 1, "an export of several files, some of which exist"),
    ]
