"""Codec oracle shared by the entry-format checks."""
from __future__ import annotations

import copy
from math import isclose

from hypothesis import strategies as st

from pbt import model as m
from pbt.common import Prop, Violation, check, deep_eq, eq, label, normalize


def approx(a, b):
    """deep_eq, but floats may differ by rounding of the last bits."""
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, int):
        return a == b or isclose(a, b, rel_tol=1e-12, abs_tol=1e-12)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(approx(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(approx(a[k], b[k]) for k in a)
    return a == b


def eqa(got, want, what):
    if not approx(got, want):
        eq(got, want, what)
        raise Violation(f"{what}: {got!r} != {want!r}")


def decompile(ctx, eid, raw):
    e = m.entry(m.make_vfb(ctx), eid, raw)
    e.decompile()
    return e.data


def compile_(ctx, eid, data):
    e = m.entry(m.make_vfb(ctx), eid, data)
    ok = e.compile()
    check(ok is not False, f"compiling entry {eid} is not supported")
    check(isinstance(e.data, bytes), f"entry {eid} compiled to {type(e.data).__name__}")
    return e.data


def codec_case(case):
    eid, ctx, data, seed = case
    spec = m.SPECS[eid]
    label(spec.kind)
    want = spec.expect(data, ctx)
    raw = m.encode(spec, data, ctx)
    # reader against the reference encoder
    got = decompile(ctx, eid, raw)
    eqa(normalize(got), normalize(want), f"{spec.name}: decompiled structure")
    # any other legal spelling of the same values
    if seed is not None:
        raw2 = m.encode(spec, data, ctx, seed)
        eqa(normalize(decompile(ctx, eid, raw2)), normalize(want), f"{spec.name}: decompiled from non-shortest encoding")
    # writer against the reference encoder, from generated and from parsed data
    before = copy.deepcopy(want)
    out = compile_(ctx, eid, want)
    check(out == raw, lambda: f"{spec.name}: compiled bytes {out.hex()} != reference {raw.hex()} for {want!r}"[:3000])
    check(approx(want, before), f"{spec.name}: compiling altered the decompiled structure")
    out2 = compile_(ctx, eid, got)
    check(out2 == raw, lambda: f"{spec.name}: recompiled bytes {out2.hex()} != original {raw.hex()}"[:3000])


def case_strategy(eids):
    @st.composite
    def s(draw):
        eid = draw(st.sampled_from(eids))
        ctx = draw(m.ctxs)
        data = draw(m.SPECS[eid].gen(ctx))
        seed = draw(st.one_of(st.none(), st.integers(0, 2**16)))
        return eid, ctx, data, seed

    return s()


def nontrivial(case):
    d = case[2]
    return bool(d) or d == 0


def codec_prop(name, eids, quick, thorough):
    return Prop(
        name, case_strategy(list(eids)), codec_case, quick, thorough, nontrivial,
        "one entry type, master count 1-16, platform, stem counts and a decompiled structure with boundary-biased "
        "field values; non-trivial if the structure is not empty",
    )


def names_prop():
    """Numeric id <-> human-readable key, part of the file format and the JSON."""

    def fn(case):
        for eid in case:
            e = m.entry(m.make_vfb(m.Ctx()), eid, b"")
            check(e.key == m.SPECS[eid].name, f"id {eid} is called {e.key!r}, not {m.SPECS[eid].name!r}")

    return Prop("names", None, fn, 0, 0, fixed=[sorted(m.SPECS)], rule="every known entry id")
