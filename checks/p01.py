"""P01: a cron schedule fires at exactly the matching instants (zones without DST; see P04)."""

from __future__ import annotations

from datetime import datetime, timedelta

from hypothesis import strategies as st

from vp import tz as TZ
from vp.crongen import spec as cron_spec
from vp.crongen import terms
from vp.cronref import HI, complete, matching_instants, render
from vp.runner import Outcome, Part, check

PROPERTY = "P01"
RULE = (
    "A case is a structured cron schedule (fields drawn independently, 1-3 terms each: *, */n, a, a-b, a-b/n, a/n, "
    "names, k-th/last weekday, last day), a zone without DST, optional start/end, and an instant to ask at; the "
    "schedule's first fire times are compared with a brute-force matcher. Non-trivial: at least one fire time "
    "exists and at least two fields are restricted, or the schedule is exhausted by its end."
)
ASSUMPTIONS = ["the brute-force matcher looks at most 30 years ahead; cases always bound the search with an end"]

US = 1_000_000
DAY = 86400 * US
# 1975 .. 2090
instant = st.one_of(
    st.integers(157766400, 3786912000).map(lambda s: s * US),
    st.integers(157766400 * US, 3786912000 * US),
    st.sampled_from(
        [
            951782400 * US,  # 2000-02-29
            1709164800 * US,  # 2024-02-29
            1735689599 * US,  # 2024-12-31 23:59:59
            1735689599 * US + 1,
            1609459200 * US,  # 2021-01-01, ISO week 53
            1230768000 * US,  # 2009-01-01
        ]
    ).flatmap(lambda x: st.integers(-2 * DAY, 2 * DAY).map(lambda d: x + d)),
)
zones = st.sampled_from(["UTC", "fixed:330", "fixed:-690", "zi:Asia/Tokyo", "zi:Asia/Kolkata", "pytz:Asia/Tokyo", "pytzfixed:345"])
# dense first: most users' schedules fire within the year
span = st.sampled_from([3600 * US, DAY, 40 * DAY, 366 * DAY, 366 * DAY, 3000 * DAY, 10900 * DAY])


@st.composite
def case(draw):
    now = draw(instant)
    spec = draw(cron_spec(year_lo=1974, year_hi=2095))
    if "year" in spec and draw(st.booleans()):
        y = TZ.at(now).year
        spec["year"] = [["r", y, min(y + draw(st.integers(0, 3)), HI["year"]), None]]
    start = draw(st.none() | st.integers(-60 * DAY, 60 * DAY))
    end = draw(span)
    return {
        "spec": spec,
        "tz": draw(zones),
        "tz_in_trigger": draw(st.booleans()),
        "now": now,
        "now_tz": draw(st.sampled_from(["same", "UTC", "fixed:-150"])),
        "start": None if start is None else now + start,
        "end": now + end + draw(st.sampled_from([0, 0, 1, -1, 500000])),
        "naive": draw(st.booleans()),
        "prev": draw(st.sampled_from(["chain", "chain", "chain", "late", "early"])),
        "crontab": draw(st.booleans()),
        "ints": draw(st.booleans()),
    }


def make_trigger(c):
    from asyncz.triggers import CronTrigger

    z = TZ.get(c["tz"])
    rz = TZ.ref_zone(c["tz"])
    spec = c["spec"]

    def bound(v):
        if v is None:
            return None
        d = TZ.at(v, rz)
        if c["naive"]:
            return d.replace(tzinfo=None)
        return d

    start, end = bound(c["start"]), bound(c["end"])
    kw = {}
    for f, t in spec.items():
        text = render(f, t)
        kw[f] = int(text) if c["ints"] and text.isdigit() else text
    if c["crontab"] and set(spec) <= {"minute", "hour", "day", "month", "day_of_week"}:
        from_tab = True
        if any(" " in str(v) for v in kw.values()):
            from_tab = False
    else:
        from_tab = False
    if from_tab and c["tz_in_trigger"]:
        expr = " ".join(str(kw.get(f, "*")) for f in ("minute", "hour", "day", "month", "day_of_week"))
        trig = CronTrigger.from_crontab(expr, timezone=z)
        full = complete({f: spec.get(f, [["*", None]]) for f in ("minute", "hour", "day", "month", "day_of_week")})
        return trig, full, None, None
    if c["tz_in_trigger"]:
        kw["timezone"] = z
    trig = CronTrigger(start_at=start, end_at=end, **kw)
    return trig, complete(spec), c["start"], c["end"]


def run(c):
    rz = TZ.ref_zone(c["tz"])
    z = TZ.get(c["tz"])
    trig, full, start, end = make_trigger(c)
    now = TZ.at(c["now"], z if c["now_tz"] == "same" else TZ.get(c["now_tz"]))
    bound = TZ.at(c["end"])
    lower = TZ.at(max(c["now"], start) if start is not None else c["now"])
    # does a match exist inside the bound?  (from_crontab has no end: do not search further than the model)
    it = matching_instants(full, rz, lower, bound)
    first = next(it, None)
    if first is None and end is None:
        return Outcome(False, ["unbounded-skip"])
    # an aware bound makes its own zone the trigger's zone: same offset as rz, so nothing changes
    got = trig.get_next_trigger_time(z, None, now)
    check_equal(got, first, rz, c, "first")
    fired = 0
    if first is not None:
        fired = 1
        prev, model = got, first
        for i in range(4):
            nxt = next(it, None)
            if nxt is None and end is None:
                break
            if c["prev"] == "late":
                ask = prev + timedelta(days=400)  # asked long after: still the run right after prev
            elif c["prev"] == "early":
                ask = prev
            else:
                ask = prev + timedelta(microseconds=i * 137)
                if nxt is not None and ask > nxt:
                    ask = prev
            got = trig.get_next_trigger_time(z, prev, ask)
            check_equal(got, nxt, rz, c, f"after {model.isoformat()}")
            if nxt is None:
                break
            check(got > prev, f"{got} not after {prev}")
            prev, model = got, nxt
            fired += 1
    restricted = sum(1 for f in c["spec"] if c["spec"][f] != [["*", None]])
    labels = [f"fired{min(fired, 5)}", f"restricted{restricted}"]
    labels += [f"field-{f}" for f in c["spec"]]
    return Outcome((fired > 0 and restricted >= 2) or (fired < 5 and end is not None and restricted >= 1), labels, evaluations=fired + 1)


def check_equal(got, want, rz, c, what):
    check(
        (got is None) == (want is None) and (got is None or TZ.us(got) == TZ.us(want)),
        lambda: f"{what}: trigger says {got and got.isoformat()}, matching instant is "
        f"{want and want.astimezone(rz).isoformat()}",
    )
    if got is not None:
        check(got.tzinfo is not None and got.utcoffset() == want.astimezone(rz).utcoffset(), f"{what}: {got!r} not shown in {rz}")


PARTS = [Part("next_fire", case, run, quick=8000, thorough=400000)]
