import os
import time
from contextlib import contextmanager
from datetime import UTC, datetime, timedelta, timezone

from hypothesis import strategies as st

from pbt import cli, ufo
from pbt import font as f
from pbt import model as m
from pbt.common import Prop, check, eq, label

RULE = "Stored timestamps over the full 32-bit range, biased to the ends of days, months, leap days and of the range, in several local time zones; every day boundary of the range is enumerated."
ASSUMPTIONS = ["a stored timestamp is a 32-bit integer, and 2082841200 (unsigned) is the first moment of 1970, which is the earliest date"]
ZERO = 2082841200
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
LAST = EPOCH + timedelta(seconds=2**32 - 1 - ZERO)
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "XXX-13:30", "YYY+11"]


def days_in(y, mo):
    return [31, 28 + (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo]


def civil(sec):
    """Reference: seconds since 1970 -> (year, month, day, hour, minute, second), counted by hand."""
    day, r = divmod(sec, 86400)
    y = 1970
    while day >= (n := sum(days_in(y, k) for k in range(12))):
        day -= n
        y += 1
    mo = 0
    while day >= days_in(y, mo):
        day -= days_in(y, mo)
        mo += 1
    return y, mo + 1, day + 1, r // 3600, r // 60 % 60, r % 60


def want_of(t):
    return max((t & 0xFFFFFFFF) - ZERO, 0)


def signed(u):
    return u - 2**32 if u >= 2**31 else u


@contextmanager
def zone(z):
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = z
        time.tzset()
        yield
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


_sec = st.one_of(
    st.integers(0, 2**32 - 1 - ZERO),
    st.builds(lambda d, s: min(max(d * 86400 + s, 0), 2**32 - 1 - ZERO), st.integers(0, 25603), st.sampled_from([-1, 0, 1, 3599, 3600, 43200])),
    st.sampled_from([0, 1, 951782400 - 1, 951782400, 951868800, 68169600, 2**31 - 1, 2**31 - 1 - ZERO + 2**31 - 2**31, 4294967295 - ZERO]).map(lambda v: max(v, 0)),
)
stamp = st.one_of(_sec.map(lambda s: signed(s + ZERO)), st.integers(-(2**31), 2**31 - 1), st.sampled_from([-(2**31), 2**31 - 1, 0, -1, 1, ZERO, ZERO - 1, ZERO + 1]))


def convert_case(case):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    t, z, off = case
    label("before 1970" if (t & 0xFFFFFFFF) < ZERO else "from 1970")
    with zone(z):
        d = convert_timestamp(t)
        sec = want_of(t)
        eq((d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond), (*civil(sec), 0), f"date of {t}")
        eq(d.utcoffset(), timedelta(0), f"UTC offset of the date of {t}")
        back = signed(sec + ZERO)
        eq(datetime_to_fl(d), back, f"{t} converted there and back")
        # The same moment in another time zone, and within the same second
        eq(datetime_to_fl(d.astimezone(timezone(timedelta(minutes=off)))), back, f"{d} in a zone of {off} minutes")
        eq(datetime_to_fl(d.replace(microsecond=999999)), back, f"{d} and 999999 microseconds")
        eq(convert_timestamp(back), d, f"{t} converted a second time")


def all_days_case(case):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    first, n = case
    prev = None
    for day in range(first, first + n):
        for s in (-1, 0, 1):
            sec = day * 86400 + s
            if not 0 <= sec <= 2**32 - 1 - ZERO:
                continue
            t = signed(sec + ZERO)
            d = convert_timestamp(t)
            eq((d.year, d.month, d.day, d.hour, d.minute, d.second), civil(sec), f"date of {t}")
            eq(datetime_to_fl(d), t, f"{t} converted there and back")
            check(prev is None or d > prev, lambda: f"{d} follows {prev}")
            prev = d


def early_case(case):
    from vfbLib.ufo.time import datetime_to_fl

    sec, us, off = case
    d = EPOCH + timedelta(seconds=sec, microseconds=us)
    d = d.astimezone(timezone(timedelta(minutes=off)))
    eq(datetime_to_fl(d), signed(ZERO), f"a date before 1970: {d}")


def ufo_case(case):
    t, z, axes = case
    with zone(z):
        n = 2**axes
        info = {**{k: 0 for _, k in m.TTI}, "head_flags": {"flags": [], "options": []}, "OpenTypeOS2Panose": [0] * 10,
                "Codepages": {"os2_ul_code_page_range1": 0, "os2_ul_code_page_range2": 0}, "head_creation": t}
        font = {"axes": axes, "n": n, "head": [(1264, info)], "tail": [], "ps": None, "master_names": [f"m{i}" for i in range(n)], "glyphs": []}
        y, mo, d, h, mi, s = civil(want_of(t))
        want = f"{y:04}/{mo:02}/{d:02} {h:02}:{mi:02}:{s:02}"
        for i, u in enumerate(f.export(font)):
            eq(u.info.openTypeHeadCreated, want, f"creation date of master {i}")
        with cli.scratch() as folder:
            f.builder(font).write(folder / "a.ufo", silent=True)
            eq(ufo.read(folder / "a.ufo")["info"].openTypeHeadCreated, want, "creation date on disk")


def props(tier):
    zones = st.sampled_from(ZONES)
    late = lambda c: (c[0] & 0xFFFFFFFF) > ZERO
    return [
        Prop("convert", st.tuples(stamp, zones, st.integers(-1439, 1439)), convert_case, 6000, 100000, late, "a timestamp after the start of 1970"),
        Prop("all-days", st.tuples(st.integers(0, 25600), st.just(3)), all_days_case, 200, 2000, rule="three consecutive days",
             fixed=[(k, 400) for k in range(0, 25700, 400)]),
        Prop("early", st.tuples(st.integers(-5 * 10**9, -1), st.integers(0, 999999), st.integers(-1439, 1439)), early_case, 800, 8000, rule="any date before 1970"),
        Prop("ufo", st.tuples(stamp, zones, st.sampled_from([0, 0, 1])), ufo_case, 400, 4000, late, "a timestamp after the start of 1970"),
    ]
