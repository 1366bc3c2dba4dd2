from copy import deepcopy

from hypothesis import strategies as st

from pbt import exports, real, zygote
from pbt import font as f
from pbt import model as m
from pbt.checks import c14, c15, c16, c17, c18, c19, c20, c23
from pbt.common import DATA, Prop, Violation, check, deep_eq, eq, first_diff, label, touches_repo

RULE = "Sequences of exports (UFO masters in memory, written UFO, UFOZ, JSON, VFB JSON, TrueType hinting, drawing, re-encoding; all options) from one Vfb object, with the fonts of all export checks; each result is compared with the one from a freshly read object, in this process or a fresh one with another hash seed, locale, time zone and folder, and the object's data and encoding with those before."
ASSUMPTIONS = ["the object is not changed by others between the exports", "absolute folder names and times inside archives are not compared"]

fonts = st.one_of(
    f.fonts(),
    f.fonts(parts=frozenset(["image", "mask", "anchors"]), axes=(0,) * 6 + (1, 1, 1, 2, 3)),
    c15.fonts(missing=True),
    c16.info_fonts(),
    c17.hinted(),
    c17.hinted(stale=True),
    c18.tt(stale=True),
    c18.tt(),
    c18.programs(),
    c18.programs(),
    c19.mm(),
    c20.export_fonts(missing=True),
    c23.fonts(hinted=True),
    real.fonts(max_glyphs=4),
)
KW = st.fixed_dictionaries({}, optional={k: st.booleans() for k in ("minimal", "base64", "pshints", "add_kerning_groups", "move_groups")})
op = st.one_of(
    st.tuples(st.sampled_from(["masters", "masters", "twice", "alone"]), KW.map(lambda k: (k,)), st.just({})),
    st.tuples(st.just("write"), KW.map(lambda k: (k,)), st.sampled_from([{}, {"ufoz": True}, {"json": True}])),
    st.tuples(st.sampled_from(["json", "tth", "draw", "reencode"]), st.just(()), st.just({})),
)
cmd = st.one_of(
    st.tuples(st.just("vfb3ufo"), st.lists(st.sampled_from(["-g", "-k", "-64", "-nops", "-m", "-j", "-u"]), unique=True, max_size=3)),
    st.tuples(st.just("vfbcu2qu"), st.just([])),
    st.tuples(st.just("vfb2json"), st.lists(st.sampled_from(["-d", "-r"]), unique=True)),
    st.tuples(st.just("vfb2tth"), st.sampled_from(["json", "yaml", "toml"]).map(lambda x: ["-f", x])),
)


def attempt(fn, *args):
    """A refusal has to be repeatable as well."""
    try:
        return fn(*args)
    except (Exception, SystemExit) as e:
        if not touches_repo(e):
            raise
        label(f"refused: {args[-1][0]} {type(e).__name__}")
        return ("refused", type(e).__name__)


def same(got, want, what):
    if not deep_eq(got, want):
        raise Violation(f"{what}: {first_diff(got, want)}"[:1500])


def state(v):
    return [(e.id, deepcopy(e.data)) for e in v.entries]


def sequence_case(case):
    font, ops = case
    sequence_data(f.data_of(font), ops)


def sequence_data(data, ops):
    v = exports.vfb_of(data)
    before = state(v)
    reference = exports.vfb_of(data)
    encoded = m.write_vfb(reference)
    for i, o in enumerate(ops):
        label(o[0])
        got = attempt(exports.perform, v, o)
        fresh = exports.vfb_of(data)
        if any(x[0] == "reencode" for x in ops[:i]):
            m.write_vfb(fresh)  # may order the keys of a dict in another way
            fresh.decompile()
        want = attempt(exports.perform, fresh, o)
        same(got, want, f"export {i + 1}, {o}, from the same object and from a fresh one")
        if o[0] == "twice" and isinstance(got, dict):
            same(got["again"], got["first"], f"export {i + 1}, {o}: asked again")
        if o[0] == "alone" and isinstance(got, dict):
            for j, x in enumerate(got["masters"]):
                same(got[f"again {j}"], x, f"export {i + 1}, {o}: master {j} on its own")
        same(state(v), before, f"data of the object after export {i + 1}, {o}")
    same(m.write_vfb(v), encoded, "encoding after the exports")


def compare_runs(j, got, want, a, b):
    if "error" in (got[0], want[0]):
        check(got[0] == want[0] and got[1][0] == want[1][0], lambda: f"{j[1]}: {a} {got[1][1] if got[0] == 'error' else 'works'}, {b} {want[1][1] if want[0] == 'error' else 'works'}"[-1500:])
        label(f"refused: {got[1][0]}")
    else:
        same(got[1], want[1], f"{j[1]} {a} (got) and {b} (want)")


def process_case(case):
    """The same exports in a process that did nothing else, after each other in one process, and here."""
    fs, jobs = case
    datas = [f.data_of(x) for x in fs]
    jobs = [(datas[i % len(datas)], ("console", c) if kind else c) for i, kind, c in jobs]
    alone = [zygote.run([j])[0] for j in jobs]
    for j, got, want in zip(jobs, zygote.run(jobs), alone):
        label(str(j[1][1][0] if j[1][0] == "console" else j[1][0]))
        compare_runs(j, got, want, "after the others in one process", "alone in a process")
    for j, want in zip(jobs, alone):
        x = attempt(exports.job, *j)
        compare_runs(j, ("error", (x[1], x[1])) if isinstance(x, tuple) and x[0] == "refused" else ("ok", x), want, "in this process", "alone in a process")


def fixture_case(name):
    """Real files: every kind of export, from one object and from fresh ones."""
    data = (DATA / name).read_bytes()
    seq = [("masters", ({},), {}), ("json", (), {}), ("tth", (), {}), ("draw", (), {}), ("masters", ({"pshints": False, "minimal": True},), {}), ("reencode", (), {}), ("json", (), {}), ("alone", ({},), {})]
    sequence_data(data, seq)
    for j in (("masters", ({},), {}), ("json", (), {}), ("console", ("vfb3ufo", []))):
        ok, got = zygote.run([(data, j)])[0]
        eq(ok, "ok", f"{j} in a fresh process")
        same(got, exports.job(data, j), f"{j} in a fresh process (got) and in this one (want)")


def spoil(x):
    """Change everything inside."""
    if hasattr(x, "items") and hasattr(x, "__setitem__"):
        for k in list(x.keys()):
            spoil(x[k])
        x["spoiled"] = "x"
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x.append("spoiled")


def spoil_font(u):
    for layer in u.layers:
        spoil(layer.lib)
        for n in list(layer.keys()):
            g = layer[n]
            spoil(g.lib)
            spoil(g.unicodes)
            for a in list(g.anchors) + list(g.guidelines):
                a.name, a.x = "spoiled", 12345
            for c in g.contours:
                for p in c.points:
                    p.x, p.name, p.smooth = 99999, "spoiled", not p.smooth
            g.components.clear()
            g.width = 77777
    for x in (u.lib, u.groups, u.info.guidelines or []):
        spoil(x)
    u.kerning["a", "b"] = 1
    for x in list(vars(u.info).values()):
        spoil(x)


def independent_case(case):
    """Editing a master or the source leaves everything else as it is."""
    font, kw, pick = case
    v = exports.vfb_of(f.data_of(font))
    b = exports.builder(v, kw)
    before = state(v)
    ufos, _ = b.get_ufos_designspace(exports.Path("/x/F.ufo"), silent=True)
    dumps = [u.json_dumps(sort_keys=False) for u in ufos]
    k = pick % len(ufos)
    spoil_font(ufos[k])
    same(state(v), before, f"data of the Vfb after editing master {k}")
    for i, u in enumerate(ufos):
        if i != k:
            same(u.json_dumps(sort_keys=False), dumps[i], f"master {i} after editing master {k}")
    again = b.get_ufo_master(k, silent=True)
    same(again.json_dumps(sort_keys=False), dumps[k], f"master {k} built again after editing")
    for e in v.entries:
        spoil(e.data)
    same(again.json_dumps(sort_keys=False), dumps[k], f"master {k} after editing the Vfb")
    for i, u in enumerate(ufos):
        if i != k:
            same(u.json_dumps(sort_keys=False), dumps[i], f"master {i} after editing the Vfb")


def nt(case):
    return len(case[1]) > 1 and any(o[0] in ("masters", "twice", "alone", "write") for o in case[1])


def props(tier):
    ops = st.lists(op, min_size=1, max_size=4)
    jobs = st.lists(st.one_of(st.tuples(st.integers(0, 1), st.just(False), op), st.tuples(st.integers(0, 1), st.just(True), cmd.map(lambda c: (c[0], list(c[1]))))), min_size=1, max_size=3)
    return [
        Prop("sequence", st.tuples(fonts, ops), sequence_case, 500, 10000, nt, "at least two exports, one of them to UFO"),
        Prop("independent", st.tuples(fonts, KW, st.integers(0, 15)), independent_case, 400, 8000, lambda c: bool(c[0]["axes"]), "several masters"),
        Prop("fixtures", None, fixture_case, 0, 0, fixed=sorted(p.name for p in DATA.glob("*.vfb") if p.stat().st_size < (60000 if tier == "quick" else 10**6)), rule="the VFB files in Tests/Data below 60 kB (quick) or 1 MB (thorough)", timeout=120),
        Prop("process", st.tuples(st.lists(fonts, min_size=1, max_size=2), jobs), process_case, 200, 4000, lambda c: len(c[1]) > 1, "at least two exports"),
    ]
