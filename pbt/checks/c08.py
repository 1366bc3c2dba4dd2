import copy
from io import BytesIO
from pathlib import Path

from hypothesis import strategies as st

from pbt import container as c
from pbt import model as m
from pbt.cli import scratch
from pbt.codec import approx
from pbt.common import Prop, check, eq, label, normalize

RULE = (
    "Histories of up to 25 operations on one file object (read, decompile, compile, edit in place, assign, add, remove, "
    "move, query, write, read again), mirrored on a list of (id, content) pairs."
)
ASSUMPTIONS = [
    "the entries that define the context of others (version, master count, TrueType stems) are not edited",
    "edited contents are within the domains of C02-C04; bitmaps are excluded because their encoding is not unique",
]

EIDS = [e for e in sorted(m.SPECS) if e not in c.READ_DECOMPILED and e not in (2, 2007, 2013, 1410)]
LIGHT = [1026, 1029, 1048, 1502, 1517, 2021, 1500, 1265, 1271, 2008, 2012, 2019, 2001, 1250, 1131, 2017, 2010, 1093, 1255, 1135, 1135]
OPS = ["dec", "dec", "comp", "decall", "compall", "set", "set", "edit", "edit", "raw", "add", "insert", "del", "move", "query",
       "write", "write", "reread", "other", "addraw", "failwrite"]


@st.composite
def data_for(draw, ctx):
    eid = draw(st.sampled_from(draw(st.sampled_from([EIDS, LIGHT]))))
    return eid, draw(m.SPECS[eid].gen(ctx))


@st.composite
def histories(draw):
    ctx, ents = draw(c.soup(max_entries=5, eids=EIDS, with_end=False))
    tt = any(e == 1269 for e, _ in ents)
    if not tt:
        ctx = m.Ctx(ctx.masters, ctx.platform, 0, 0)
    unknown = draw(st.lists(st.tuples(c.unknown_ids.filter(lambda i: i not in m.SPECS), c.raw_small), max_size=2))
    n = draw(st.integers(1, 25))
    ops = []
    length = len(ents) + len(unknown)
    ids = [e for e, _ in ents] + [e for e, _ in unknown]
    fixed = {e for e in ids if e in c.READ_DECOMPILED}
    for _ in range(n):
        op = draw(st.sampled_from(OPS))
        if op in ("dec", "comp") and ids:
            ops.append((op, draw(st.integers(0, len(ids) - 1))))
        elif op in ("set", "edit", "raw") and ids:
            free = [i for i, e in enumerate(ids) if e in m.SPECS and e not in c.READ_DECOMPILED]
            if not free:
                continue
            i = draw(st.sampled_from(free))
            ops.append((op, i, draw(m.SPECS[ids[i]].gen(ctx))))
        elif op in ("add", "insert"):
            eid, d = draw(data_for(ctx))
            i = len(ids) if op == "add" else draw(st.integers(0, len(ids)))
            ids.insert(i, eid)
            ops.append((op, i, eid, d))
        elif op == "addraw":
            eid, d = draw(c.unknown_ids.filter(lambda i: i not in m.SPECS)), draw(c.raw_small)
            ids.append(eid)
            ops.append((op, len(ids) - 1, eid, d))
        elif op == "del" and len(ids) > 3:
            free = [i for i, e in enumerate(ids) if e not in c.READ_DECOMPILED]
            if free:
                i = draw(st.sampled_from(free))
                ids.pop(i)
                ops.append((op, i))
        elif op == "move" and len(ids) > 1:
            free = [i for i, e in enumerate(ids) if e not in c.READ_DECOMPILED]
            if free:
                i = draw(st.sampled_from(free))
                # never before the entries that define the context
                j = draw(st.integers(max(k for k, e in enumerate(ids) if e in c.READ_DECOMPILED), len(ids) - 1))
                if j >= i or ids[i] not in c.READ_DECOMPILED:
                    ids.insert(j, ids.pop(i))
                    ops.append((op, i, j))
        elif op in ("decall", "compall", "query", "write", "reread", "failwrite"):
            ops.append((op, draw(st.integers(0, 7))))
            if op == "query" and draw(st.booleans()):
                upm = [i for i, e in enumerate(ids) if e == 1135]
                if upm:  # once more after a change
                    ops.append((draw(st.sampled_from(["set", "edit", "raw"])), draw(st.sampled_from(upm)), draw(m.SPECS[1135].gen(ctx))))
                    ops.append(("query", 0))
        elif op == "other":
            ops.append((op, draw(st.integers(1, 16)), draw(st.sampled_from(["windows", "macos"])), draw(st.booleans())))
    return {"ctx": ctx, "entries": ents, "unknown": unknown, "ops": ops}


class Model:
    def __init__(self, case):
        self.ctx = case["ctx"]
        self.items = [[e, d] for e, d in case["entries"]] + [[e, d] for e, d in case["unknown"]]

    def bytes_of(self, item):
        eid, d = item
        return d if isinstance(d, bytes) else m.encode(m.SPECS[eid], d, self.ctx)

    def content_of(self, item):
        eid, d = item
        return d.hex() if isinstance(d, bytes) else m.SPECS[eid].expect(d, self.ctx)

    def file(self):
        return m.header_bytes() + b"".join(m.entry_bytes(i[0], self.bytes_of(i)) for i in self.items)


def in_place(old, new):
    """Turn the decompiled structure old into new by mutation.  False: not possible."""
    if isinstance(old, dict) and isinstance(new, dict):
        if list(old) == list(new):
            for k, v in new.items():
                if not in_place(old[k], v):
                    old[k] = v
        else:  # the order of the keys may be significant
            old.clear()
            old.update(new)
        return True
    if isinstance(old, list) and isinstance(new, list):
        old[:] = new
        return True
    return False


def verify_written(out, model, what):
    want = model.file()
    if out != want:
        _, got = c.parse(out)
        eq([g[0] for g in got], [i[0] for i in model.items], f"{what}: entry ids")
        for (eid, g), i in zip(got, model.items):
            w = model.bytes_of(i)
            check(g == w, lambda: f"{what}: entry {eid} was written as {g.hex()}, current content is {w.hex()}"[:2000])
        check(False, f"{what}: file differs")


def verify_state(v, model, what):
    eq([e.id for e in v.entries], [i[0] for i in model.items], f"{what}: entry ids")
    for e, i in zip(v.entries, model.items):
        if isinstance(e.data, bytes):
            w = model.bytes_of(i)
            check(e.data == w, lambda: f"{what}: raw data of entry {e.id}: {e.data.hex()} != {w.hex()}"[:2000])
            eq(e.size, len(w), f"{what}: size of entry {e.id}")
            check(e.header + e.data == m.entry_bytes(e.id, w), f"{what}: header of entry {e.id} is {e.header.hex()}")
        else:
            if not approx(normalize(e.data), normalize(model.content_of(i))):
                eq(normalize(e.data), normalize(model.content_of(i)), f"{what}: content of entry {e.id}")


def history_case(case):
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import get_vfb_with_masters

    model = Model(copy.deepcopy(case))
    v = m.read_vfb(model.file())
    for step, op in enumerate(copy.deepcopy(case["ops"])):
        what = f"step {step} {op[0]}"
        label(op[0])
        match op[0]:
            case "dec":
                v.entries[op[1]].decompile()
                check(not isinstance(v.entries[op[1]].data, bytes), f"{what}: still raw")
            case "comp":
                check(v.entries[op[1]].compile() is True, f"{what}: compile failed")
                check(isinstance(v.entries[op[1]].data, bytes), f"{what}: not compiled")
            case "decall":
                v.decompile()
                check(not v.any_errors, f"{what}: error flag set")
                check(not any(isinstance(e.data, bytes) for e in v.entries), f"{what}: some entries are still raw")
            case "compall":
                v.compile()
                check(all(isinstance(e.data, bytes) for e in v.entries), f"{what}: some entries are not compiled")
            case "set":
                _, i, d = op
                model.items[i][1] = d
                v.entries[i].data = copy.deepcopy(m.SPECS[model.items[i][0]].expect(d, model.ctx))
            case "edit":
                _, i, d = op
                model.items[i][1] = d
                e = v.entries[i]
                e.decompile()
                new = copy.deepcopy(m.SPECS[model.items[i][0]].expect(d, model.ctx))
                if not in_place(e.data, new):
                    e.data = new
            case "raw":
                _, i, d = op
                model.items[i][1] = d
                v.entries[i].data = model.bytes_of(model.items[i])
            case "add" | "insert":
                _, i, eid, d = op
                model.items.insert(i, [eid, d])
                # An entry may come from another font
                parent = get_vfb_with_masters(model.ctx.masters % 16 + 1) if op[0] == "add" and (i + eid) % 2 else v
                e = VfbEntry(parent, eid=eid)
                e.data = copy.deepcopy(m.SPECS[eid].expect(d, model.ctx))
                if op[0] == "add":
                    v.add_entry(e)
                    check(e.vfb is v, f"{what}: parent")
                else:
                    v.entries.insert(i, e)
            case "addraw":
                _, i, eid, d = op
                model.items.append([eid, d])
                e = VfbEntry(v, eid=eid)
                e.data = d
                v.add_entry(e)
            case "del":
                del model.items[op[1]]
                del v.entries[op[1]]
            case "move":
                _, i, j = op
                model.items.insert(j, model.items.pop(i))
                v.entries.insert(j, v.entries.pop(i))
            case "query":
                d = v.as_dict()
                eq(len(d["entries"]), len(v.entries), f"{what}: as_dict")
                for e, x in zip(v.entries, d["entries"]):
                    eq(x["key"], e.key, f"{what}: as_dict key")
                    if isinstance(e.data, bytes):
                        eq(x["size"], len(e.data), f"{what}: as_dict size")
                        check(x["decompiled"].replace(" ", "") == e.data.hex(), f"{what}: as_dict raw data")
                        e.header, e.size
                    else:
                        check(x["decompiled"] == e.data, f"{what}: as_dict data")
                upms = [d for e, d in model.items if e == 1135]
                eq(v.info.unitsPerEm, upms[0] if upms else 0, f"{what}: units per em")
                if op[1] > 3:
                    repr(v.entries)
                    v.entries[-1].as_dict(minimize=False)
                v.drop_keys = set()
            case "write":
                out = m.write_vfb(v)
                verify_written(out, model, what)
                check(m.write_vfb(v) == out, f"{what}: writing again gives different bytes")
            case "reread":
                out = m.write_vfb(v)
                verify_written(out, model, what)
                v.read_bytes(BytesIO(out))
            case "other":
                # read an unrelated file into the same object, then come back
                out = m.write_vfb(v)
                ctx2 = m.Ctx(op[1], op[2])
                items = [(10, {"platform": op[2], "version": (5, 2, 0, 0), "owner": 7}), (1503, op[1])]
                if op[3]:
                    items.append((2001, {"name": "x", "num_masters": op[1], "nodes": []}))
                o = c.file_bytes(ctx2, items)
                v.read_bytes(BytesIO(o))
                v.decompile()
                if op[3]:
                    eq(list(v.keys()), ["x"], f"{what}: glyphs of the other file")
                eq(v.num_masters, op[1], f"{what}: masters of the other file")
                check(m.write_vfb(v) == o, f"{what}: the other file is not reproduced")
                v.read_bytes(BytesIO(out))
            case "failwrite":
                failing_write(v, op[1], what)
        verify_state(v, model, what)
    verify_written(m.write_vfb(v), model, "finally")


def failing_write(v, n, what):
    """An entry that cannot be compiled: the write fails, the file on disk survives."""
    with scratch() as d:
        p = Path(d) / "f.vfb"
        old = b"previous content" * (n + 1)
        p.write_bytes(old)
        e = v.entries[n % len(v.entries)]
        keep = e.data
        e.data = object()
        try:
            v.write(p)
        except Exception:
            check(p.read_bytes() == old, f"{what}: a failed write damaged the existing file")
        else:
            check(False, f"{what}: writing an entry that cannot be compiled did not fail")
        finally:
            e.data = keep


@st.composite
def save_cases(draw):
    ctx, ents = draw(c.soup(max_entries=6, eids=EIDS))
    return {"ctx": ctx, "entries": ents, "edits": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 3)), max_size=4))}


def save_case(case):
    """Editing a file on disk in place: read, edit, save over the source, repeat."""
    from vfbLib.vfb.vfb import Vfb

    ctx, ents = case["ctx"], [list(x) for x in case["entries"]]
    with scratch() as d:
        p = Path(d) / "a.vfb"
        p.write_bytes(c.file_bytes(ctx, ents))
        v = Vfb(p, timing=False)
        for k, mode in case["edits"]:
            i = k % len(v.entries)
            if v.entries[i].id in c.READ_DECOMPILED:
                continue
            if mode == 0:
                v.entries[i].decompile()
            elif mode == 1 and i < len(v.entries) - 1:
                del v.entries[i], ents[i]
            elif mode == 2 and i < len(v.entries) - 1:
                e = type(v.entries[i])(v, eid=v.entries[i].id)
                e.data = copy.deepcopy(v.entries[i].data)
                # before the end-of-file entry, which ends reading
                v.entries.insert(len(v.entries) - 1, e)
                ents.insert(len(ents) - 1, list(ents[i]))
            else:
                v.decompile()
            v.write(p)
            check(p.read_bytes() == c.file_bytes(ctx, ents), f"file saved in place after edit {(k, mode)}")
            if mode == 3:
                v.read()
        eq([e.id for e in v.entries], [e for e, _ in ents], "entries in memory")


def nt(case):
    return sum(o[0] in ("set", "edit", "raw", "add", "insert", "del", "move", "other", "reread") for o in case["ops"]) >= 2


def props(tier):
    r = "history with at least two modifying operations"
    return [Prop(f"history-{i}", histories(), history_case, 450, 6000, nt, r) for i in range(7)] + [
        Prop("save", save_cases(), save_case, 400, 4000, lambda k: bool(k["edits"]), "file edited and saved over itself at least once")]
