"""Plain-data triggers and task attributes, and how to make the real objects from them."""

from __future__ import annotations

from hypothesis import strategies as st

from vp import tz as TZ
from vp.crongen import spec as cron_spec
from vp.cronref import render

US = 1_000_000
T0 = 1_700_000_000 * US
DAY = 86400 * US

ZONES = ["UTC", "fixed:330", "zi:Europe/London", "pytz:US/Eastern", "zi:Asia/Tokyo"]
zone = st.sampled_from(ZONES)
near = st.integers(-40 * DAY, 40 * DAY).map(lambda d: T0 + d)


@st.composite
def leaf(draw, jitter=False):
    k = draw(st.sampled_from(["date", "interval", "interval", "cron", "cron", "shutdown"]))
    t = {"k": k, "tz": draw(st.none() | zone)}
    if k == "date":
        t["at"] = draw(near)
        t["tz"] = t["tz"] or "UTC"
    elif k == "interval":
        t["delta"] = draw(
            st.sampled_from([{"seconds": 1}, {"seconds": 45}, {"minutes": 7}, {"hours": 3}, {"days": 2, "hours": 1}, {"weeks": 1}, {"seconds": 0.25}, {}])
        )
        t["start"] = draw(near)
        t["end"] = draw(st.none() | near)
    elif k == "cron":
        t["spec"] = draw(cron_spec(fields=["month", "day", "week", "day_of_week", "hour", "minute", "second"], max_fields=4))
        t["start"] = draw(st.none() | near)
        t["end"] = draw(near.map(lambda x: x + 100 * DAY))
    t["naive"] = draw(st.booleans())
    if jitter and k in ("interval", "cron"):
        t["jitter"] = draw(st.none() | st.integers(0, 30))
    return t


@st.composite
def tree(draw, depth=2, jitter=False):
    if depth == 0 or draw(st.integers(0, 2)):
        return draw(leaf(jitter))
    parts = draw(st.lists(tree(depth - 1, jitter), min_size=1, max_size=3))
    t = {"k": draw(st.sampled_from(["or", "or", "and"])), "parts": parts}
    if jitter:
        t["jitter"] = draw(st.none() | st.integers(0, 30))
    return t


def build(t):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger, ShutdownTrigger

    z = TZ.get(t["tz"]) if t.get("tz") else None
    rz = TZ.ref_zone(t["tz"]) if t.get("tz") else TZ.UTC

    def b(v):
        if v is None:
            return None
        d = TZ.at(v, rz)
        return d.replace(tzinfo=None) if t.get("naive") and z is not None else (d.astimezone(z) if z is not None else d)

    kw = {}
    if z is not None:
        kw["timezone"] = z
    if t.get("jitter") is not None:
        kw["jitter"] = t["jitter"]
    if t["k"] == "date":
        return DateTrigger(run_at=b(t["at"]), timezone=z)
    if t["k"] == "interval":
        return IntervalTrigger(start_at=b(t["start"]), end_at=b(t["end"]), **t["delta"], **kw)
    if t["k"] == "cron":
        return CronTrigger(start_at=b(t["start"]), end_at=b(t["end"]), **{f: render(f, v) for f, v in t["spec"].items()}, **kw)
    if t["k"] == "shutdown":
        return ShutdownTrigger()
    kw.pop("timezone", None)
    return (AndTrigger if t["k"] == "and" else OrTrigger)(triggers=[build(p) for p in t["parts"]], **kw)


# ------------------------------------------------------------------ task attributes

scalar = st.one_of(
    st.none(), st.booleans(), st.integers(-(10**12), 10**12), st.text(max_size=8), st.floats(allow_nan=False, allow_infinity=False, width=32)
)
value = st.recursive(scalar, lambda x: st.lists(x, max_size=3) | st.dictionaries(st.text(max_size=3), x, max_size=3), max_leaves=5)

ident = st.one_of(
    st.text(alphabet="abcdefghijklmnopqrstuvwxyz0123456789-_", min_size=1, max_size=12),
    st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="/\\:\0"), min_size=1, max_size=10).filter(lambda s: not s.startswith(".")),
)


@st.composite
def attrs(draw):
    from vp.targets import FNS

    fn = draw(st.sampled_from(sorted(FNS)))
    _, lo, hi = FNS[fn]
    args = draw(st.lists(value, min_size=lo, max_size=hi))
    kwargs = {}
    if fn == "two" and draw(st.booleans()):
        kwargs["key"] = draw(value)
    if fn == "anyargs":
        kwargs = draw(st.dictionaries(st.sampled_from(["a", "b", "ä", "args"]), value, max_size=2))
    return {
        "fn": fn,
        "args": args,
        "kwargs": kwargs,
        "name": draw(st.none() | st.text(min_size=1, max_size=12)),
        "grace": draw(st.sampled_from([None, 1, 5, 3600, 0.5, 2.25, 1.0])),
        "coalesce": draw(st.booleans()),
        "max_instances": draw(st.integers(1, 5)),
        "executor": draw(st.sampled_from(["default", "other", "ex-ä"])),
    }
