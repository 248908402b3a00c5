"""P03: interval schedules are start + k*interval, complete and in bounds."""

from __future__ import annotations

from datetime import timedelta

from hypothesis import strategies as st

from vp import clock
from vp import tz as TZ
from vp.runner import Outcome, Part, check

PROPERTY = "P03"
RULE = (
    "A case is an interval (weeks..seconds, fractional seconds, zero), a start (absent, aware, naive or text, before or "
    "after the asking instant), an end, a zone without DST given to the trigger or by the scheduler, and the instants "
    "asked at; fire times are compared with exact integer arithmetic. Non-trivial: at least two fire times were "
    "compared, or the schedule was exhausted by its end."
)
US = 1_000_000
DAY = 86400 * US

length = st.one_of(
    st.fixed_dictionaries({"seconds": st.integers(1, 200)}),
    st.fixed_dictionaries({"seconds": st.integers(1, 100_000)}),
    st.fixed_dictionaries({"seconds": st.integers(1, 500).map(lambda n: n / 100)}),
    st.fixed_dictionaries({"minutes": st.integers(1, 500)}),
    st.fixed_dictionaries({"hours": st.integers(1, 100), "minutes": st.integers(0, 59)}),
    st.fixed_dictionaries({"days": st.integers(1, 40), "seconds": st.integers(0, 86399)}),
    st.fixed_dictionaries({"weeks": st.integers(1, 60), "days": st.integers(0, 6), "hours": st.integers(0, 23)}),
    st.just({}),
    st.just({"seconds": 0}),
)
zones = st.sampled_from(["UTC", "fixed:330", "fixed:-690", "zi:Asia/Tokyo", "pytz:Asia/Tokyo", "zi:Asia/Kolkata", "pytzfixed:-90"])
instant = st.one_of(
    st.integers(300_000_000, 4_000_000_000).map(lambda s: s * US), st.integers(300_000_000 * US, 4_000_000_000 * US)
)


@st.composite
def case(draw):
    now = draw(instant)
    delta = draw(length)
    ival = max(timedelta(**delta) // TZ.US, 0) or US
    back = draw(
        st.one_of(
            st.integers(-10 * ival, 10 * ival),
            st.integers(-20, 20).map(lambda k: k * ival),
            st.tuples(st.integers(0, 100_000), st.sampled_from([-1, 0, 0, 1])).map(lambda t: min(t[0] * ival, 250_000_000 * US) + t[1]),
        )
    )
    form = draw(st.sampled_from(["aware", "naive", "text", "none"]))
    start = now - back
    if form == "text":
        start -= start % US
    end = None
    if draw(st.booleans()):
        base = start if form != "none" else now
        end = base + draw(st.integers(0, 30)) * ival + draw(st.sampled_from([0, 0, -1, 1]))
    return {
        "ival": delta,
        "now": now,
        "start": start,
        "start_form": form,
        "end": end,
        "end_form": draw(st.sampled_from(["aware", "naive"])),
        "tz": draw(zones),
        "tz_in_trigger": draw(st.booleans()),
        "now_tz": draw(st.sampled_from(["same", "UTC", "fixed:-150"])),
        "step": draw(st.lists(st.integers(0, 3 * ival), min_size=0, max_size=4)),
        "created": now - draw(st.integers(0, 5 * ival)),
        "restore": draw(st.booleans()),
    }


def form(v, how, z):
    if v is None or how == "none":
        return None
    d = TZ.at(v, z)
    if how == "naive":
        return d.replace(tzinfo=None)
    if how == "text":
        return d.strftime("%Y-%m-%d %H:%M:%S")
    return d


def run(c):
    from asyncz.triggers import IntervalTrigger

    rz, z = TZ.ref_zone(c["tz"]), TZ.get(c["tz"])
    ival = timedelta(**c["ival"]) // TZ.US or US
    kw = dict(c["ival"])
    if c["tz_in_trigger"]:
        kw["timezone"] = z
    with clock.virtual(TZ.at(c["created"])):
        trig = IntervalTrigger(start_at=form(c["start"], c["start_form"], rz), end_at=form(c["end"], c["end_form"], rz), **kw)
    start = c["created"] + ival if c["start_form"] == "none" else c["start"]
    if c["restore"]:
        import pickle

        trig = pickle.loads(pickle.dumps(trig))
    end = c["end"]

    def model_next(prev, now):
        if prev is not None:
            t = prev + ival
        else:
            t = start + -(-max(0, now - start) // ival) * ival
        return None if end is not None and t > end else t

    nz = z if c["now_tz"] == "same" else TZ.get(c["now_tz"])
    ask = c["now"]
    prev = None
    n = 0
    for step in [0, *c["step"]]:
        ask += step
        want = model_next(prev, ask)
        got = trig.get_next_trigger_time(z, None if prev is None else TZ.at(prev, z), TZ.at(ask, nz))
        check(
            (got is None) == (want is None) and (got is None or TZ.us(got) == want),
            lambda: f"prev={prev and TZ.at(prev)} now={TZ.at(ask)}: trigger says {got}, expected {want and TZ.at(want)}",
        )
        n += 1
        if want is None:
            break
        check(got.tzinfo is not None, f"naive result {got}")
        prev = want
    return Outcome(n >= 2 or want is None, [c["start_form"], f"n{n}", "ended" if want is None else "open"], evaluations=n)


PARTS = [Part("sequence", case, run, quick=16000, thorough=600000)]
