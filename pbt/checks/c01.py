from io import BytesIO

from hypothesis import strategies as st

from pbt import model as m
from pbt.cli import run
from pbt.common import Prop, check, eq, label

RULE = "Integers over the full 32-bit range, biased to the boundaries of the encoded forms."
ASSUMPTIONS = ["values are within the signed or the unsigned 32-bit range"]

ALL_BOUNDS = sorted(set(m.BOUNDS) | {108 + 256 * k + d for k in range(5) for d in (-1, 0, 1)} | {-(108 + 256 * k + d) for k in range(5) for d in (-1, 0, 1)})


def values_case(case):
    """A stream of values: each is read back, nothing bleeds into the next."""
    from vfbLib.compilers.value import write_value, write_value_long
    from vfbLib.parsers.value import read_value

    signed, vals, tail = case
    s = BytesIO()
    ref = b""
    for v, long in vals:
        start = s.tell()
        (write_value_long if long else write_value)(v, s, signed)
        part = s.getvalue()[start:]
        want = m.enc_value(v, long)
        eq(part.hex(), want.hex(), f"encoding of {v} (signed={signed}, long={long})")
        label(f"{len(part)} bytes")
        ref += want
    s.write(tail)
    r = BytesIO(s.getvalue())
    pos = 0
    for v, long in vals:
        got = read_value(r, signed)
        pos += len(m.enc_value(v, long))
        eq(got, v, f"value read back (signed={signed})")
        eq(r.tell(), pos, f"bytes consumed after {v}")
    eq(r.read(), tail, "bytes after the last value")


def stream_case(case):
    """Reader and writer base classes: every primitive, interleaved in one stream."""
    from vfbLib.compilers.base import StreamWriter
    from vfbLib.parsers.base import StreamReader

    w, rd = StreamWriter(), StreamReader()
    w.stream = BytesIO()
    ref = m.W()
    for kind, v in case:
        match kind:
            case "v":
                w.write_value(v)
                ref.v(v)
            case "vl":
                w.write_value(v, shortest=False)
                ref.v(v, long=True)
            case "vu":
                w.write_value(v, signed=False)
                ref.v(v)
            case "str":
                w.write_str_with_len(v)
                ref.s(v)
            case "d":
                w.write_double(v)
                ref.p("d", v)
            case "ds":
                w.write_doubles(v)
                ref.p(f"{len(v)}d", *v)
            case _:
                getattr(w, "write_" + kind)(v)
                ref.p({"int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I"}[kind], v)
    eq(w.stream.getvalue().hex(), ref.get().hex(), "written stream")
    rd.stream = BytesIO(ref.get())
    for kind, v in case:
        match kind:
            case "v" | "vl":
                got = rd.read_value()
            case "vu":
                got = rd.read_value(signed=False)
            case "str":
                got = rd.read_str_with_len()
            case "d":
                got = rd.read_double()
            case "ds":
                got = list(rd.read_doubles(len(v)))
            case _:
                got = getattr(rd, "read_" + kind)()
        eq(got, v, f"{kind} read back")
    eq(rd.stream.read(), b"", "stream not exhausted")


def yuri_case(case):
    from vfbLib.value import yuri

    signed, long, vals = case
    flags = (["-s"] if signed else []) + (["-l"] if long else [])
    out, _ = run(yuri, "-e", *flags, "--", *vals)
    want = b"".join(m.enc_value(v, long) for v in vals)
    eq(out.strip(), want.hex(), "yuri -e output")
    out, _ = run(yuri, *(["-s"] if signed else []), want.hex())
    eq([int(x) for x in out.split()], vals, "yuri decoded values")
    # the hex digits may be split over several arguments at byte boundaries
    h = want.hex()
    k = len(h) // 4 * 2
    parts = [p for p in (h[:k], h[k:]) if p]
    out, _ = run(yuri, *(["-s"] if signed else []), *parts)
    eq([int(x) for x in out.split()], vals, "yuri decoded values from split arguments")


def enumerate_case(case):
    from vfbLib.compilers.value import write_value
    from vfbLib.parsers.value import read_value

    lo, hi = case
    for v in range(lo, hi):
        s = BytesIO()
        write_value(v, s)
        b = s.getvalue()
        if b != m.enc_value(v):
            eq(b.hex(), m.enc_value(v).hex(), f"encoding of {v}")
        s = BytesIO(b + b"\x8b")
        if read_value(s) != v or s.tell() != len(b):
            check(False, f"{v} does not survive: {b.hex()}")


def refused_case(case):
    """Undefined or incomplete encodings are never read as a number, numbers out of range are never written."""
    from vfbLib.compilers.base import StreamWriter
    from vfbLib.compilers.value import write_value, write_value_long
    from vfbLib.parsers.value import read_value

    kind, signed, before, x = case
    if kind == "read":
        s = BytesIO(b"".join(m.enc_value(v) for v in before) + x)
        for v in before:
            eq(read_value(s, signed), v, "value before the damage")
        call, what = (lambda: read_value(s, signed)), f"reading {x.hex()!r}"
    elif kind == "value":
        w = write_value_long if before else write_value
        s = BytesIO()
        call, what = (lambda: w(x, s, signed)), f"writing {x} (signed={signed})"
    else:
        w = StreamWriter()
        s = w.stream = BytesIO()
        call, what = (lambda: getattr(w, "write_" + kind)(x)), f"writing {x} as {kind}"
    try:
        got = call()
    except Exception as e:
        label(type(e).__name__)
        if kind != "read":
            eq(s.getvalue(), b"", f"{what}: bytes written")
        return
    check(False, f"{what} was not refused: {got!r}, {s.getvalue().hex()}")


@st.composite
def refused(draw):
    signed = draw(st.booleans())
    kind = draw(st.sampled_from(["read", "read", "value", "int8", "uint8", "int16", "uint16", "int32", "uint32"]))
    if kind == "read":
        before = draw(st.lists(st.integers(-1131, 2**31 - 1), max_size=3))
        b = draw(st.one_of(
            st.just(b""), st.tuples(st.integers(0, 31), st.binary(max_size=6)).map(lambda t: bytes([t[0]]) + t[1]),
            st.integers(0xF7, 0xFE).map(lambda i: bytes([i])), st.binary(max_size=3).map(lambda t: b"\xff" + t)))
        return kind, signed, before, b
    big = st.one_of(st.integers(0, 1000), st.integers(0, 2**40))
    if kind == "value":
        x = draw(st.one_of(big.map(lambda i: i + 2 ** (31 if signed else 32)), big.map(lambda i: -i - (2**31 + 1 if signed else 1132))))
        return kind, signed, draw(st.booleans()), x
    bits = int(kind.strip("uint"))
    lo, hi = (0, 2**bits - 1) if kind[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    return kind, signed, [], draw(st.one_of(big.map(lambda i: hi + 1 + i), big.map(lambda i: lo - 1 - i)))


def props(tier):
    sv = st.one_of(m.val, st.sampled_from(ALL_BOUNDS))
    uv = st.one_of(m.uval, st.sampled_from([v for v in ALL_BOUNDS if v >= -1131]), st.integers(-1131, 2**32 - 1))
    one = st.one_of(
        st.tuples(st.sampled_from(["v", "vl"]), sv), st.tuples(st.just("vu"), m.uval), st.tuples(st.just("str"), m.text),
        st.tuples(st.just("d"), m.dbl), st.tuples(st.just("ds"), m.lists(m.dbl)),
        st.tuples(st.just("int8"), st.integers(-128, 127)), st.tuples(st.just("uint8"), m.u8),
        st.tuples(st.just("int16"), m.i16), st.tuples(st.just("uint16"), m.u16),
        st.tuples(st.just("int32"), st.integers(-2**31, 2**31 - 1)), st.tuples(st.just("uint32"), st.integers(0, 2**32 - 1)),
    )
    # the forced-long unsigned form can only carry non-negative numbers
    uval_long = st.tuples(uv, st.booleans()).map(lambda t: (t[0], t[1] and t[0] >= 0))
    return [
        Prop("signed", st.tuples(st.just(True), st.lists(st.tuples(sv, st.booleans()), min_size=1, max_size=12), st.binary(max_size=4)),
             values_case, 4000, 60000, lambda c: len(c[1]) > 1, "sequence of signed values in short or long form plus trailing bytes; non-trivial with 2+ values"),
        Prop("unsigned", st.tuples(st.just(False), st.lists(uval_long, min_size=1, max_size=12), st.binary(max_size=4)),
             values_case, 4000, 60000, lambda c: len(c[1]) > 1, "sequence of unsigned values; non-trivial with 2+ values"),
        Prop("primitives", st.lists(one, min_size=1, max_size=15), stream_case, 4000, 60000, lambda c: len(c) > 1,
             "interleaved primitive fields of one stream; non-trivial with 2+ fields"),
        Prop("refused", refused(), refused_case, 3000, 40000, lambda c: c[0] == "read",
             "undefined or incomplete number at the end of a stream (non-trivial), or a number out of range for the field"),
        Prop("enumerate", None, enumerate_case, 0, 0, fixed=[(lo, lo + 2000) for lo in range(-70000, 70000, 2000)], timeout=120,
             rule="every integer from -70000 to 69999, in blocks of 2000"),
        Prop("cli", st.one_of(
            st.tuples(st.just(True), st.booleans(), st.lists(sv, min_size=1, max_size=5)),
            st.tuples(st.just(False), st.just(True), st.lists(m.uval, min_size=1, max_size=5)),
            st.tuples(st.just(False), st.just(False), st.lists(uv, min_size=1, max_size=5))),
            yuri_case, 400, 4000, lambda c: True, "yuri invocations: encode, then decode the printed hex"),
    ]
