"""Everything a user can export from a Vfb object or file, as comparable results.

Used by C25 in this process and, through zygote.py, in fresh ones.
"""
from __future__ import annotations

import json as jsonlib
from copy import deepcopy
from pathlib import Path

from pbt import cli
from pbt import model as m


def vfb_of(data):
    v = m.read_vfb(data)
    v.decompile()
    return v


def builder(v, kw):
    from vfbLib.ufo.builder import VfbToUfoBuilder

    return VfbToUfoBuilder(v, **kw)


def dump(ufos, ds):
    return {"masters": [u.json_dumps(sort_keys=False) for u in ufos], "ds": ds.tostring() if ds else None}


def built(b):
    return dump(*b.get_ufos_designspace(Path("/x/F.ufo"), silent=True))


def masters(v, kw):
    return built(builder(v, kw))


def twice(v, kw):
    """The same builder is asked again."""
    b = builder(v, kw)
    first = built(b)
    again = built(b)
    return {"first": first, "again": again}


def alone(v, kw):
    """Each master again, in another order."""
    b = builder(v, kw)
    out = built(b)
    for i in reversed(range(len(out["masters"]))):
        out[f"again {i}"] = b.get_ufo_master(i, silent=True).json_dumps(sort_keys=False)
    return out


def write(v, kw, **opts):
    b = builder(v, kw)
    with cli.scratch() as d:
        b.write(d / "F.ufo", silent=True, **opts)
        out = {}
        for k, raw in cli.tree(d).items():
            if raw[:4] == b"PK\3\4":  # holds the time of writing
                import io
                import zipfile

                z = zipfile.ZipFile(io.BytesIO(raw))
                raw = {n: z.read(n) for n in z.namelist()}
            elif k.endswith(".designspace"):
                raw = raw.replace(str(d).encode(), b"")
            out[k] = raw
        return out


def json(v):
    from vfbLib.json import get_vfb_json

    return get_vfb_json(v)


def tth(v):
    from vfbLib.tth import extract_truetype_hinting

    return jsonlib.dumps(extract_truetype_hinting(v))


def draw(v):
    from fontTools.pens.recordingPen import RecordingPointPen

    out = []
    for name in v.keys():
        g = v[name]
        out += [name, len(g), deepcopy(g.resolve_hints()), deepcopy(g.resolve_links()), deepcopy(g.resolve_hint_sets())]
        for i in range(v.num_masters):
            gm = v.getGlyphMaster(name, i)
            for fn in (gm.drawPoints, *([g.drawPoints] if i == 0 else [])):
                pen = RecordingPointPen()
                fn(pen)
                out.append(pen.value)
    return out


def reencode(v):
    out = m.write_vfb(v)
    v.decompile()
    return out


OPS = {"masters": masters, "twice": twice, "alone": alone, "write": write, "json": json, "tth": tth, "draw": draw, "reencode": reencode}


def perform(v, op):
    name, args, opts = op
    return OPS[name](v, *args, **opts)


def console(data, tool, args):
    """The files that a command-line tool writes."""
    import vfbLib.cmdline
    import vfbLib.cu2qu
    import vfbLib.tth

    func = {"vfb3ufo": vfbLib.cmdline.vfb2ufo, "vfb2json": vfbLib.cmdline.vfb2json, "vfb2tth": vfbLib.tth.vfb2tth, "vfbcu2qu": vfbLib.cu2qu.vfbcu2qu}[tool]
    with cli.scratch() as d:
        (d / "F.vfb").write_bytes(data)
        cli.run(func, *args, d / "F.vfb")
        return {k: v.replace(str(d).encode(), b"") for k, v in cli.tree(d).items()}


def job(data, op):
    """On freshly read data."""
    if op[0] == "console":
        return console(data, *op[1])
    return perform(vfb_of(data), op)
