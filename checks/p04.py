"""P04: clock changes never make a schedule fire early, in the past, or skip."""

from __future__ import annotations

from datetime import datetime, timedelta

from hypothesis import strategies as st

from vp import clock
from vp import tz as TZ
from vp.crongen import term, terms
from vp.cronref import HI, complete, render, values, wall_matches
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P04"
RULE = (
    "A case is a zone with clock changes (zoneinfo or pytz; hour, half-hour, midnight and unusual transitions), an "
    "asking instant within two days of a transition (named, or the present one; both readings of a repeated hour), and a cron "
    "or interval schedule; successive fire times are judged against the set of local times each instant shows. "
    "Non-trivial: the run of fire times crosses or touches a transition."
)
ASSUMPTIONS = [
    "a matching local time that is skipped by a clock change may be skipped or run at the shifted instant",
    "a matching local time that occurs twice may run once or twice unless every hour matches (then twice)",
]
US = 1_000_000
HOUR = 3600 * US

ZONES = [
    "Europe/London",
    "America/New_York",
    "US/Eastern",
    "Europe/Berlin",
    "Australia/Lord_Howe",
    "America/Sao_Paulo",
    "America/Havana",
    "Asia/Beirut",
    "America/St_Johns",
    "Africa/Casablanca",
    "Pacific/Chatham",
    "Pacific/Apia",
    "Antarctica/Troll",
    "America/Scoresbysund",
]


def transitions(name: str):
    """UTC instants (seconds) of offset changes between 2009 and 2035, by bisection."""
    z = TZ.zone(name)
    out = []
    t, end, step = 1230768000, 2051222400, 86400 * 5

    def off(x):
        return TZ.at(x * US, z).utcoffset()

    while t < end:
        if off(t) != off(t + step):
            lo, hi = t, t + step
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(mid) == off(lo):
                    lo = mid
                else:
                    hi = mid
            out.append(hi)
        t += step
    return out


_cache: dict = {}


def trans(name):
    if name not in _cache:
        p = TZ.get("pytz:" + name)
        z = TZ.zone(name)
        # keep the transitions on which both libraries' data agree
        _cache[name] = [
            t
            for t in transitions(name)
            if all(
                TZ.at((t + d) * US, p).utcoffset() == TZ.at((t + d) * US, z).utcoffset()
                for d in (-172800, -7200, -3600, -1, 0, 1, 3600, 7200, 172800, 864000)
            )
        ]
        assert _cache[name], name
    return _cache[name]


@st.composite
def place(draw):
    name = draw(st.sampled_from(ZONES))
    ts = trans(name)
    t = draw(st.sampled_from(ts))
    lib = draw(st.sampled_from(["zi", "pytz"]))
    off = draw(
        st.one_of(
            st.integers(-3 * 3600, 3 * 3600).map(lambda s: s * US),
            st.integers(-48 * 3600, 6 * 3600).map(lambda s: s * US),
            st.integers(-120, 120).map(lambda m: m * 60 * US),
            st.integers(-3 * HOUR, 3 * HOUR),
        )
    )
    return {"zone": f"{lib}:{name}", "t": t, "now": t * US + off, "now_tz": draw(st.sampled_from(["same", "same", "UTC", None]))}


@st.composite
def cron_case(draw):
    c = draw(place())
    spec = {}
    if draw(st.booleans()):
        spec["hour"] = draw(st.one_of(st.just([["*", None]]), st.lists(st.one_of(term("hour"), st.integers(0, 4).map(lambda h: ["r", h, None, None])), min_size=1, max_size=2)))
    if draw(st.booleans()):
        spec["minute"] = draw(
            st.one_of(terms("minute"), st.sampled_from([[["*", 30]], [["*", 20]], [["*", 15]], [["r", 0, None, None]], [["r", 30, None, None]]]))
        )
    if draw(st.integers(0, 3)) == 0:
        spec["second"] = draw(st.sampled_from([[["*", 30]], [["r", 59, None, None]], [["r", 0, None, None]]]))
    extra = draw(st.sampled_from([None, None, None, "day", "day_of_week", "month", "week"]))
    if extra:
        w = TZ.at(c["t"] * US, TZ.ref_zone(c["zone"]))
        v = {"day": w.day, "day_of_week": w.weekday(), "month": w.month, "week": w.isocalendar()[1]}[extra]
        spec[extra] = [["r", v, None, None]] + (draw(terms(extra)) if draw(st.booleans()) else [])
    c["spec"] = spec
    c["n"] = draw(st.integers(1, 8))
    c["end"] = draw(
        st.none() | st.one_of(st.integers(-60, 300).map(lambda m: m * 60 * US), st.integers(0, 4 * HOUR)).map(lambda d: c["t"] * US + d)
    )
    return c


@st.composite
def interval_case(draw):
    c = draw(place())
    c["ival"] = draw(
        st.one_of(
            st.sampled_from([60, 300, 600, 900, 1200, 1800, 3600, 5400, 7200, 10800, 14400, 43200, 86400, 604800]),
            st.integers(1, 100_000),
        )
    )
    c["start"] = c["now"] - draw(st.integers(-50, 50)) * c["ival"] * US + draw(st.sampled_from([0, 0, 1, -1, 7 * US]))
    c["end"] = draw(st.none() | st.integers(0, 60).map(lambda k: c["start"] + k * c["ival"] * US))
    c["n"] = draw(st.integers(1, 12))
    c["where"] = draw(st.sampled_from(["trigger", "scheduler"]))
    return c


def ask(trig, z, prev, now, c):
    """With no moment named (now_tz None) the present one is meant."""
    if c["now_tz"] is not None:
        return trig.get_next_trigger_time(z, prev, now)
    with clock.virtual(now):
        return trig.get_next_trigger_time(z, prev)


def classify(w: datetime, rz) -> str:
    n = len(TZ.instants(w, rz))
    return ("gap", "once", "twice")[n]


def run_cron(c):
    from asyncz.triggers import CronTrigger

    rz, z = TZ.ref_zone(c["zone"]), TZ.get(c["zone"])
    full = complete(c["spec"])
    every_hour = values(full, "hour") == list(range(24))
    end = c.get("end")
    trig = CronTrigger(timezone=z, end_at=None if end is None else TZ.at(end, z), **{f: render(f, t) for f, t in c["spec"].items()})
    now = TZ.at(c["now"], z if c["now_tz"] == "same" else TZ.UTC)
    lower_us = -(-c["now"] // US) * US
    prev = None
    crossed = False
    kinds = set()
    # the horizon keeps the completeness scan bounded
    horizon = c["now"] + 10 * 86400 * US
    for _ in range(c["n"]):
        got = ask(trig, z, prev, now, c)
        if got is None and end is not None:
            must = first_must(full, every_hour, lower_us, end + 1, rz)
            check(must is None, lambda: f"{trig} ended at {TZ.at(end)} although {TZ.at(must)} ({TZ.at(must, rz)}) was due; asked at {now}")
            kinds.add("ended")
            crossed = True
            break
        if got is None:
            raise Violation(f"endless schedule {trig} ended after {prev} (asked at {now})")
        g = TZ.us(got)
        if TZ.at(g, z).utcoffset() != TZ.at(g, rz).utcoffset():
            break  # far away, the data of pytz and zoneinfo are not the same
        check(g >= lower_us, f"fire time {got} ({TZ.at(g)}) is before {TZ.at(lower_us)} asked about; schedule {trig}")
        check(end is None or g <= end, lambda: f"{trig} fires at {got}, after its end {TZ.at(end, rz)}")
        w = TZ.wall(TZ.at(g, rz))
        ok = wall_matches(full, w)
        if not ok:
            # acceptable only as the shifted form of a matching local time that does not exist
            ok = shifted_from_gap(full, g, rz)
            kinds.add("shifted")
        check(ok, f"fires at {TZ.at(g, rz)} which does not match {trig}")
        # completeness: nothing that must fire lies in [lower, g)
        stop = min(g, horizon)
        must = first_must(full, every_hour, lower_us, stop, rz)
        check(
            must is None,
            lambda: f"skipped {TZ.at(must, rz)} ({TZ.at(must)}): asked at {TZ.at(lower_us, rz)}, schedule {trig} says {got}",
        )
        kinds.add(classify(w, rz))
        if lower_us <= c["t"] * US <= g or abs(g - c["t"] * US) <= HOUR:
            crossed = True
        if g > horizon:
            break
        prev = got
        now = got
        lower_us = g + US
    return Outcome(crossed, sorted(kinds) + [c["zone"].split(":")[0]])


def shifted_from_gap(full, g, rz):
    """Is instant g what some matching but non-existing local time was moved to?"""
    u = TZ.at(g)
    for mins in (5, 10, 15, 20, 30, 60, 120, 180, 1440):
        for w in (TZ.wall(u.astimezone(rz)) - timedelta(minutes=mins), TZ.wall(u.astimezone(rz)) + timedelta(minutes=mins)):
            if not TZ.instants(w, rz) and wall_matches(full, w) and u in TZ.gap_shifted(w, rz):
                return True
    # a search that enters a gap continues at its end: the end of a gap stands for a matching time inside it
    before = TZ.wall(TZ.at(g - US, rz))
    here = TZ.wall(u.astimezone(rz))
    if here - before > timedelta(seconds=1):
        w = before + timedelta(seconds=1)
        while w < here:
            if wall_matches(full, w):
                return True
            w += timedelta(seconds=1)
    return False


def first_must(full, every_hour, lo, hi, rz):
    """The first instant in [lo, hi) that any reading of the property obliges to fire."""
    if hi <= lo:
        return None
    H, M, S = (set(values(full, f)) for f in ("hour", "minute", "second"))
    from vp.cronref import day_matches

    d = TZ.at(lo, rz).date() - timedelta(days=1)
    dend = TZ.at(hi, rz).date() + timedelta(days=1)
    best = None
    while d <= dend:
        if day_matches(full, d):
            for h in sorted(H):
                # skip hours that are certainly outside
                a = TZ.us(datetime(d.year, d.month, d.day, h, 0, tzinfo=rz))
                if a > hi + 3 * HOUR or a < lo - 4 * HOUR:
                    continue
                for m in sorted(M):
                    for s in sorted(S):
                        w = datetime(d.year, d.month, d.day, h, m, s)
                        ins = [TZ.us(u) for u in TZ.instants(w, rz)]
                        if not ins:
                            continue
                        if len(ins) == 1 or every_hour:
                            cands = [u for u in ins if lo <= u < hi]
                        elif lo <= ins[0] and ins[1] < hi:
                            cands = [ins[1]]  # both readings passed by: at least one had to fire
                        else:
                            cands = []
                        for u in cands:
                            if best is None or u < best:
                                best = u
            if best is not None:
                return best
        d += timedelta(days=1)
    return best


def run_interval(c):
    from asyncz.triggers import IntervalTrigger

    z = TZ.get(c["zone"])
    rz = TZ.ref_zone(c["zone"])
    ival = c["ival"] * US
    kw = {"timezone": z} if c["where"] == "trigger" else {}
    trig = IntervalTrigger(
        seconds=c["ival"],
        start_at=TZ.at(c["start"], z),
        end_at=None if c["end"] is None else TZ.at(c["end"], z),
        **kw,
    )
    now = TZ.at(c["now"], z if c["now_tz"] == "same" else TZ.UTC)
    want = c["start"] + -(-max(0, c["now"] - c["start"]) // ival) * ival
    prev = None
    n = 0
    crossed = False
    for _ in range(c["n"]):
        if c["end"] is not None and want > c["end"]:
            want = None
        got = ask(trig, z, prev, now, c)
        check(
            (got is None) == (want is None) and (got is None or TZ.us(got) == want),
            lambda: f"prev={prev} now={now}: trigger says {got}, expected {want and TZ.at(want, rz)}",
        )
        n += 1
        if want is None:
            break
        check(got.utcoffset() == TZ.at(want, z).utcoffset(), f"{got!r} shows a wrong offset")
        crossed = crossed or min(c["now"], c["start"]) <= c["t"] * US <= want or abs(want - c["t"] * US) < HOUR
        prev, now = got, got
        want += ival
    return Outcome(crossed, [c["zone"].split(":")[0], f"n{n}"])


PARTS = [
    Part("cron", cron_case, run_cron, quick=14000, thorough=300000),
    Part("interval", interval_case, run_interval, quick=8000, thorough=200000),
]
