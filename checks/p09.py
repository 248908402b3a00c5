"""P09: dates, times and zones given as text or values denote one instant."""

from __future__ import annotations

import datetime as dt
import zoneinfo

from hypothesis import strategies as st

from vp import sched as S
from vp import taskgen as G
from vp import tz as TZ
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P09"
RULE = (
    "text: date texts generated from the grammar (date, optional time, fraction of 1-6 digits, offset), then sometimes mutated, "
    "given to the converter, a date trigger, an interval bound, or a task update, in a zone of either library; compared with an "
    "independent recogniser. Non-trivial: has a time part or is rejected. value: datetimes/dates/wrong types. zone: zone names. "
    "stamp: instants of years 1-9999 to stored timestamps and back, in pairs (order). Non-trivial there: sub-second or before 1970."
)
ASSUMPTIONS = [
    "Timestamps are floats: exactness to the microsecond is required for |t| < 2**33 s (years 1697-2242), beyond that the float's own resolution and order.",
    "A trailing newline and non-ASCII digits in date texts are not generated (unspecified).",
]

ZONES = ["UTC", "fixed:330", "fixed:-210", "zi:Europe/London", "pytz:US/Eastern", "zi:Asia/Tokyo", "zi:America/St_Johns", "pytz:Europe/Berlin", "pytzfixed:60", "zi:Australia/Lord_Howe"]
# wall times around clock changes, too
WALL = st.one_of(
    st.datetimes(dt.datetime(1900, 1, 1), dt.datetime(2200, 1, 1)),
    st.sampled_from([(2024, 3, 10, 2, 30), (2024, 11, 3, 1, 30), (2024, 3, 31, 1, 15), (2024, 10, 27, 1, 45), (2024, 3, 31, 2, 30), (2024, 10, 27, 2, 30)]).map(lambda t: dt.datetime(*t)),
).map(lambda d: [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond])


def digits(n, w, pad):
    return str(n).zfill(w) if pad else str(n)


@st.composite
def text_case(draw):
    y, mo, d, h, mi, s, us = draw(WALL)
    pad = draw(st.booleans())
    t = f"{y:04d}-{digits(mo, 2, pad)}-{digits(d, 2, pad)}"
    if draw(st.integers(0, 4)):
        t += draw(st.sampled_from([" ", "T"])) + f"{digits(h, 2, pad)}:{digits(mi, 2, pad)}:{digits(s, 2, pad)}"
        if draw(st.booleans()):
            t += "." + draw(st.text("0123456789", min_size=1, max_size=6))
        off = draw(st.sampled_from(["", "", "Z", "+00:00", "-05:30", "+05:45", "-00:01", "+14:00", "+23:59", "-12:00"]))
        t += off
    k = draw(st.integers(0, 9))
    if k == 0:
        i = draw(st.integers(0, len(t)))
        t = t[:i] + draw(st.sampled_from(list("0123456789-:.TZ+ xz/,"))) + t[i:]
    elif k == 1 and t:
        i = draw(st.integers(0, len(t) - 1))
        t = t[:i] + t[i + 1 :]
    elif k == 2 and t:
        i = draw(st.integers(0, len(t) - 1))
        t = t[:i] + draw(st.sampled_from(list("0123456789-:.TZ+ xz/,"))) + t[i + 1 :]
    elif k == 3:
        t = draw(st.sampled_from(["", " " + t, t + " ", t + "UTC", t + "+24:00", t + "+01:60", "now", t + "Z", t[:7], t.replace("-", "/"), t + "+0100", t + ".1234567"]))
    return {"text": t, "zone": draw(st.sampled_from(ZONES)), "via": draw(st.sampled_from(["to_datetime", "zone-name", "date", "update", "interval"]))}


def number(s, lo, hi, width):
    if not (1 <= len(s) <= width) or any(ch not in "0123456789" for ch in s):
        return None
    n = int(s)
    return n if lo <= n <= hi else None


def read(t):
    """-> (naive datetime, offset minutes | None) or None when the text is no date text."""
    date, sep, rest = t, "", ""
    for i, ch in enumerate(t):
        if ch in " T":
            date, sep, rest = t[:i], ch, t[i + 1 :]
            break
    p = date.split("-")
    if len(p) != 3 or len(p[0]) != 4:
        return None
    y, mo, d = number(p[0], 1, 9999, 4), number(p[1], 1, 12, 2), number(p[2], 1, 31, 2)
    if None in (y, mo, d):
        return None
    h = mi = s = us = 0
    off = None
    if sep:
        if rest.endswith("Z"):
            off, rest = 0, rest[:-1]
        elif len(rest) > 6 and rest[-6] in "+-":
            o = rest[-5:]
            if o[2] != ":" or number(o[:2], 0, 23, 2) is None or number(o[3:], 0, 59, 2) is None:
                return None
            off = (int(o[:2]) * 60 + int(o[3:])) * (1 if rest[-6] == "+" else -1)
            rest = rest[:-6]
        if "." in rest:
            rest, frac = rest.split(".", 1)
            if number(frac, 0, 999999, 6) is None:
                return None
            us = int(frac.ljust(6, "0"))
        q = rest.split(":")
        if len(q) != 3:
            return None
        h, mi, s = number(q[0], 0, 23, 2), number(q[1], 0, 59, 2), number(q[2], 0, 59, 2)
        if None in (h, mi, s):
            return None
    try:
        return dt.datetime(y, mo, d, h, mi, s, us), off
    except ValueError:
        return None


def denotes(naive, off, zone):
    """The instants (UTC) the reading may denote."""
    if off is not None:
        try:
            return [naive.replace(tzinfo=dt.timezone(dt.timedelta(minutes=off))).astimezone(TZ.UTC)]
        except OverflowError:
            return []
    z = TZ.ref_zone(zone)
    try:
        return TZ.instants(naive, z) or TZ.gap_shifted(naive, z)
    except OverflowError:
        return []


def give(value, zone, via):
    from asyncz.triggers import DateTrigger, IntervalTrigger
    from asyncz.utils import to_datetime

    z = TZ.get(zone)
    if via == "zone-name" and zone.startswith("zi:"):
        return to_datetime(value, zone[3:], "value")
    if via == "date":
        return DateTrigger(run_at=value, timezone=z).get_next_trigger_time(z, None)
    if via == "update":
        s = S.manual(timezone=z)
        t = s.add_task(print, "interval", seconds=5, id="x")
        t.update_task(next_run_time=value)
        return t.next_run_time
    if via == "interval":
        t = IntervalTrigger(hours=1, start_at=value, timezone=z)
        return t.get_next_trigger_time(z, None, TZ.at(-2_177_452_800_000_000))
    return to_datetime(value, z, "value")


LIBS_DIFFER = dt.datetime(1990, 1, 1), dt.datetime(2035, 1, 1)


def judge(got, cand, zone, naive, off, what):
    check(isinstance(got, dt.datetime) and got.tzinfo is not None, lambda: f"{what} gives {got!r}, not an aware datetime")
    u = got.astimezone(TZ.UTC)
    if not cand:
        return
    if zone.startswith("pytz:") and off is None and not (LIBS_DIFFER[0] < naive < LIBS_DIFFER[1]):
        import pytz

        cand = cand + [pytz.timezone(zone[5:]).localize(naive, is_dst=d).astimezone(TZ.UTC) for d in (True, False)]
    check(u in cand, lambda: f"{what} gives {got!r} = {u}, but it denotes {' or '.join(map(str, cand))}")


def run_text(c):
    t, zone, via = c["text"], c["zone"], c["via"]
    r = read(t)
    what = f"{t!r} in {zone} through {via}"
    try:
        got = give(t, zone, via)
    except Exception as e:  # noqa: BLE001
        if r is not None:
            naive, off = r
            extreme = naive.year < 3 or naive.year > 9990
            check(extreme, lambda: f"{what} is a date text but was refused: {e!r}")
        return Outcome(True, ["refused", via])
    check(r is not None, lambda: f"{what} is no date text but was accepted as {got!r}")
    naive, off = r
    if via == "interval" and not (1905 < naive.year < 9000):
        return Outcome(False, ["far"])
    judge(got, denotes(naive, off, zone), zone, naive, off, what)
    return Outcome(" " in t or "T" in t, ["accepted", via, "offset" if off is not None else "local"])


@st.composite
def value_case(draw):
    return {
        "k": draw(st.sampled_from(["naive", "aware", "date", "wrong", "fold"])),
        "wall": draw(WALL),
        "own": draw(st.sampled_from(ZONES)),
        "zone": draw(st.sampled_from(ZONES)),
        "via": draw(st.sampled_from(["to_datetime", "zone-name", "date", "update", "interval"])),
        "wrong": draw(st.sampled_from([0, 5, 1.5, [], [2024, 1, 1], {}, False, True, "", "0"])),
    }


def run_value(c):
    zone, via = c["zone"], c["via"]
    naive = dt.datetime(*c["wall"])
    off = None
    if c["k"] == "wrong":
        v = c["wrong"]
        try:
            got = give(v, zone, via)
        except Exception:  # noqa: BLE001
            return Outcome(True, ["refused", via])
        raise Violation(f"{v!r} given as a time through {via} was accepted as {got!r}")
    if c["k"] == "aware":
        o = TZ.get(c["own"])
        v = o.localize(naive) if hasattr(o, "localize") else naive.replace(tzinfo=o)
        cand = [v.astimezone(TZ.UTC)]
        off = 0
    elif c["k"] == "date":
        v = naive.date()
        naive = dt.datetime(v.year, v.month, v.day)
        cand = denotes(naive, None, zone)
    else:
        v = naive.replace(fold=1) if c["k"] == "fold" else naive
        cand = denotes(naive, None, zone)
        if len(cand) == 2 and not zone.startswith("pytz:") and TZ.instants(naive, TZ.ref_zone(zone)):
            cand = [cand[v.fold]]  # a datetime says which reading it means
    if via == "interval" and naive.year < 1906:
        via = "to_datetime"
    what = f"{v!r} in {zone} through {via}"
    judge(give(v, zone, via), cand, zone, naive, off, what)
    return Outcome(c["k"] != "naive", [c["k"], via])


NAMES = sorted(zoneinfo.available_timezones())


def zone_case():
    return st.one_of(
        st.fixed_dictionaries({"name": st.sampled_from(NAMES)}),
        st.fixed_dictionaries({"name": st.one_of(st.text(max_size=8), st.sampled_from(["Mars/Olympus", "../etc/passwd", "/etc/passwd", "UTC ", "utc+1", "Europe", "", "\0"]))}),
        st.fixed_dictionaries({"wrong": st.sampled_from([0, 5, 1.5, [], ["UTC"], {}, False, True, "0"])}),
        st.fixed_dictionaries({"spec": st.sampled_from(ZONES)}),
    )


def run_zone(c):
    from asyncz.utils import to_timezone

    if "spec" in c:
        z = TZ.get(c["spec"])
        check(to_timezone(z) is z, f"{z!r} was replaced")
        return Outcome(True, ["object"])
    v = c.get("name", c.get("wrong"))
    try:
        z = to_timezone(v)
    except Exception:  # noqa: BLE001
        check(v not in NAMES, f"zone {v!r} refused")
        return Outcome(True, ["refused"])
    try:
        want = zoneinfo.ZoneInfo(v)
    except Exception as e:
        raise Violation(f"{v!r} accepted as zone {z!r}") from e
    at = TZ.at(G.T0)
    check(at.astimezone(z).utcoffset() == at.astimezone(want).utcoffset() and str(z) == v, f"zone {v!r} became {z!r}")
    s = S.manual(timezone=v)
    check(str(s.timezone) == v, f"scheduler zone {v!r} became {s.timezone!r}")
    return Outcome(True, ["name"])


LIM = 253_402_300_799_999_999
stamp = st.one_of(
    st.integers(-(2**33) * 10**6 + 1, 2**33 * 10**6 - 1),
    st.integers(-3 * 10**6, 3 * 10**6),
    st.integers(0, 2**31 * 10**6),
    st.integers(-62_135_510_400_000_000, LIM - 2 * 86400 * 10**6),
)


def stamp_case():
    return st.fixed_dictionaries({"a": stamp, "d": st.integers(-5, 5), "zone": st.sampled_from(ZONES)})


def run_stamp(c):
    from asyncz.utils import datetime_to_utc_timestamp, utc_timestamp_to_datetime

    a, b = c["a"], c["a"] + c["d"]
    z = TZ.get(c["zone"])
    try:
        da, db = TZ.at(a, z), TZ.at(b)
    except OverflowError:
        return Outcome(False)
    ta, tb = datetime_to_utc_timestamp(da), datetime_to_utc_timestamp(db)
    check((ta <= tb) if a <= b else (tb <= ta), lambda: f"timestamps of {a} and {b} µs are out of order: {ta!r}, {tb!r}")
    if max(abs(a), abs(b)) < 2**33 * 10**6:
        check((ta == tb) == (a == b), lambda: f"{a} and {b} µs have timestamps {ta!r}, {tb!r}")
        tol = 0
    else:
        tol = 40
    back = utc_timestamp_to_datetime(ta)
    check(back.tzinfo is not None and abs(TZ.us(back) - a) <= tol, lambda: f"{a} µs -> {ta!r} -> {TZ.us(back)} µs")
    check(datetime_to_utc_timestamp(None) is None and utc_timestamp_to_datetime(None) is None, "None is not kept")
    return Outcome(a % 10**6 != 0 or a < 0, ["exact" if tol == 0 else "far"])


PARTS = [
    Part("text", text_case, run_text, quick=8000, thorough=400000),
    Part("value", value_case, run_value, quick=4000, thorough=150000),
    Part("zone", zone_case, run_zone, quick=1000, thorough=20000),
    Part("stamp", stamp_case, run_stamp, quick=8000, thorough=400000),
]
