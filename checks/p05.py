"""P05: combined, one-off and jittered schedules fire when their definition says."""

from __future__ import annotations

import signal
from datetime import timedelta

from hypothesis import strategies as st

from vp import clock
from vp import tz as TZ
from vp.cronref import complete, matching_instants, render
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P05"
RULE = (
    "A case is a tree of and/or over date, interval and cron parts (seconds-to-hours patterns so that parts meet or miss "
    "each other), asked repeatedly along its own fire times; 'or' is compared with the earliest of its parts, 'and' with "
    "the intersection of the parts' sets of times, jittered triggers with the same trigger without jitter. Non-trivial: "
    "the combination has parts that disagree at the first look, or jitter moved or could have moved the run."
)
ASSUMPTIONS = [
    "an 'and' whose parts do not meet within 1500 candidate times may report no further run; it must answer within 20 s"
]
US = 1_000_000
T0 = 1_700_000_000 * US
HOUR = 3600 * US


class Timeout:
    def __init__(self, what, seconds=20):
        self.what, self.seconds = what, seconds

    def __enter__(self):
        def boom(*_):
            raise Violation(f"no answer within {self.seconds} s: {self.what}", "hang")

        self.old = signal.signal(signal.SIGALRM, boom)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


# ---------------------------------------------------------------- parts

sec = st.sampled_from([["*", 2], ["*", 5], ["*", 10], ["*", 15], ["*", 20], ["r", 0, None, None], ["r", 30, None, None], ["r", 7, None, None], ["r", 10, 40, 10]])
minute = st.sampled_from([["*", None], ["*", 2], ["*", 5], ["*", 7], ["r", 0, None, None], ["r", 30, None, None], ["r", 5, 25, 5]])
hour = st.sampled_from([["*", None], ["*", 2], ["*", 3], ["r", 9, 17, None]])


@st.composite
def date_part(draw, now):
    return {"k": "date", "at": now + draw(st.sampled_from([-HOUR, -1, 0, 1, 30 * US, 60 * US, HOUR])) + draw(st.sampled_from([0, 0, 5 * US, 1]))}


@st.composite
def interval_part(draw, now):
    ival = draw(st.sampled_from([1, 2, 3, 5, 7, 10, 15, 20, 30, 45, 60, 90, 120, 300, 3600]))
    start = now - now % (60 * US) + draw(st.integers(-300, 120)) * US + draw(st.sampled_from([0, 0, 0, 0, 500000]))
    end = draw(st.none() | st.none() | st.integers(0, 600).map(lambda s: start + s * US))
    return {"k": "interval", "ival": ival, "start": start, "end": end}


@st.composite
def cron_part(draw, now):
    spec = {}
    if draw(st.booleans()):
        spec["second"] = [draw(sec)]
    if draw(st.booleans()):
        spec["minute"] = [draw(minute)]
    if draw(st.integers(0, 3)) == 0 or not spec:
        spec["hour"] = [draw(hour)]
    start = draw(st.none() | st.none() | st.integers(-600, 600).map(lambda s: now + s * US))
    end = draw(st.none() | st.none() | st.integers(0, 7200).map(lambda s: now + s * US))
    return {"k": "cron", "spec": spec, "start": start, "end": end}


def leaf(now, kinds=("date", "interval", "cron")):
    table = {"date": date_part, "interval": interval_part, "cron": cron_part}
    weights = [k for k in kinds for _ in range(1 if k == "date" else 4)]
    return st.sampled_from(weights).flatmap(lambda k: table[k](now))


@st.composite
def and_tree(draw, now, depth=1):
    n = draw(st.integers(1, 3))
    parts = []
    # most combinations end within the hour: incompatible parts are then recognised quickly
    if draw(st.integers(0, 11)):
        p = draw(leaf(now, ("interval", "cron")))
        p["end"] = now + draw(st.integers(0, 3600)) * US
        parts.append(p)
        n = draw(st.integers(0, 2))
    for _ in range(n):
        if depth and draw(st.integers(0, 5)) == 0:
            parts.append(draw(and_tree(now, 0)))
        else:
            parts.append(draw(leaf(now)))
    return {"k": "and", "parts": parts}


@st.composite
def and_case(draw):
    now = T0 + draw(st.integers(0, 86400)) * US + draw(st.sampled_from([0, 0, 1, 250000]))
    return {"now": now, "tree": draw(and_tree(now)), "n": draw(st.integers(1, 4)), "late": draw(st.sampled_from([0, 0, 0, 7, 100])), "tz": draw(st.sampled_from(["UTC", "fixed:-210"]))}


@st.composite
def or_tree(draw, now, depth=2):
    n = draw(st.integers(1, 4))
    parts = []
    for _ in range(n):
        k = draw(st.integers(0, 6))
        if depth and k == 0:
            parts.append(draw(or_tree(now, depth - 1)))
        elif depth and k == 1:
            parts.append(draw(and_tree(now, 0)))
        else:
            parts.append(draw(leaf(now)))
    return {"k": "or", "parts": parts}


@st.composite
def or_case(draw):
    now = T0 + draw(st.integers(0, 86400)) * US + draw(st.sampled_from([0, 0, 1, 250000]))
    return {"now": now, "tree": draw(or_tree(now)), "n": draw(st.integers(1, 5)), "tz": draw(st.sampled_from(["UTC", "fixed:-210"]))}


def build(t, tz=TZ.UTC, **extra):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    def b(v):
        return None if v is None else TZ.at(v, tz)

    if t["k"] == "date":
        return DateTrigger(run_at=b(t["at"]))
    if t["k"] == "interval":
        return IntervalTrigger(seconds=t["ival"], start_at=b(t["start"]), end_at=b(t["end"]), timezone=tz, **extra)
    if t["k"] == "cron":
        return CronTrigger(
            timezone=tz, start_at=b(t["start"]), end_at=b(t["end"]), **{f: render(f, v) for f, v in t["spec"].items()}, **extra
        )
    cls = AndTrigger if t["k"] == "and" else OrTrigger
    return cls(triggers=[build(p, tz) for p in t["parts"]], **extra)


# ---------------------------------------------------------------- 'and': intersection of sets


def leaves(t):
    if t["k"] == "and":
        for p in t["parts"]:
            yield from leaves(p)
    else:
        yield t


def in_set(t, u, tz):
    """Is instant u (us) a member of the part's set of times?"""
    if t["k"] == "date":
        return u == t["at"]
    if t["k"] == "interval":
        return u >= t["start"] and (u - t["start"]) % (t["ival"] * US) == 0 and (t["end"] is None or u <= t["end"])
    from vp.cronref import wall_matches

    if (t["start"] is not None and u < t["start"]) or (t["end"] is not None and u > t["end"]):
        return False
    return u % US == 0 and wall_matches(complete(t["spec"]), TZ.wall(TZ.at(u, tz)))


def elements(t, lower, tz, limit):
    if t["k"] == "date":
        return [t["at"]] if t["at"] >= lower else []
    out = []
    if t["k"] == "interval":
        i = t["ival"] * US
        u = t["start"] + -(-max(0, lower - t["start"]) // i) * i
        while len(out) < limit and (t["end"] is None or u <= t["end"]):
            out.append(u)
            u += i
        return out
    lo = lower if t["start"] is None else max(lower, t["start"])
    hi = lo + 4 * 86400 * US if t["end"] is None else t["end"]
    for d in matching_instants(complete(t["spec"]), tz, TZ.at(lo), TZ.at(hi)):
        out.append(TZ.us(d))
        if len(out) >= limit:
            break
    return out


def run_and(c):
    tz = TZ.get(c["tz"])
    ls = list(leaves(c["tree"]))
    trig = build(c["tree"], tz)
    now, prev, lower = c["now"], None, c["now"]
    agreed = 0
    labels = set()
    disagree = False
    only_dates = all(p["k"] == "date" for p in ls)
    for _ in range(c["n"]):
        if only_dates:  # a one-off time that has passed is still reported: the scheduler decides whether it is too late
            lower = 0 if prev is None else prev + 1
        # the sparsest part's elements are the candidates
        per = [elements(p, lower, tz, 1500) for p in ls]
        cand = min(per, key=lambda e: (len(e), -(e[-1] if e else 0)))
        firsts = {e[0] if e else None for e in per}
        disagree = disagree or len(firsts) > 1
        want = next((u for u in cand if all(in_set(p, u, tz) for p in ls)), None)
        # how far can an honest search have looked?  merge of all parts up to the agreed time
        steps = None if want is None else sum(1 for e in per for u in e if u <= want)
        with Timeout(f"{trig} prev={prev and TZ.at(prev)} now={TZ.at(now)}"):
            got = trig.get_next_trigger_time(tz, None if prev is None else TZ.at(prev, tz), TZ.at(now, tz))
        g = None if got is None else TZ.us(got)
        ctx = lambda: f"{trig!r} prev={prev and TZ.at(prev)} now={TZ.at(now)}: says {got}, earliest common time is {want and TZ.at(want)}"  # noqa: E731
        if g is not None:
            check(g >= lower, lambda: "fires before it may: " + ctx())
            check(all(in_set(p, g, tz) for p in ls), lambda: "parts do not agree: " + ctx())
            if want is not None:
                check(g == want, ctx)
        else:
            check(want is None or steps > 1500, ctx)
        if g is None:
            labels.add("none")
            break
        agreed += 1
        prev, lower = g, g + 1
        now = g + c["late"] * US
    labels.add(f"agreed{agreed}")
    return Outcome(disagree, sorted(labels))


def run_or(c):
    tz = TZ.get(c["tz"])
    trig = build(c["tree"], tz)
    now, prev = TZ.at(c["now"], tz), None

    def model(t, p, n):
        if t["k"] == "or":
            vals = [v for v in (model(x, p, n) for x in t["parts"]) if v is not None]
            return min(vals) if vals else None
        return build(t, tz).get_next_trigger_time(tz, p, n)

    def ask(t, p, n):
        with Timeout(f"{trig} prev={p} now={n}"):
            return model(t, p, n)

    n = 0
    spread = False
    for _ in range(c["n"]):
        want = ask(c["tree"], prev, now)
        with Timeout(f"{trig} prev={prev} now={now}"):
            got = trig.get_next_trigger_time(tz, prev, now)
        check(got == want, lambda: f"{trig!r} prev={prev} now={now}: says {got}, earliest part says {want}")
        vals = {ask(p, prev, now) for p in c["tree"]["parts"]}
        spread = spread or len(vals) > 1
        if got is None:
            break
        n += 1
        prev = now = max(got, now)
    return Outcome(spread, [f"fired{n}"])


# ---------------------------------------------------------------- date and jitter


@st.composite
def jitter_case(draw):
    now = T0 + draw(st.integers(0, 86400)) * US
    kind = draw(st.sampled_from(["interval", "cron", "and", "or", "date"]))
    part = {
        "interval": interval_part(now),
        "cron": cron_part(now),
        "and": leaf(now, ("interval", "cron")).map(lambda p: {"k": "and", "parts": [p, p]}),
        "or": or_tree(now, 0),
        "date": date_part(now),
    }[kind]
    return {
        "tree": draw(part),
        "jitter": draw(st.sampled_from([None, 0, 1, 2, 10, 60, 3600])),
        "now": now,
        "prev": draw(st.booleans()),
        "tz": draw(st.sampled_from(["UTC", "fixed:-210", "zi:America/New_York"])),
        "reps": draw(st.integers(1, 6)),
    }


def run_jitter(c):
    tz = TZ.get(c["tz"])
    t = c["tree"]
    now = TZ.at(c["now"], tz)
    plain = build(t, tz)
    if t["k"] == "date":
        a = plain.get_next_trigger_time(tz, None, now)
        check(TZ.us(a) == t["at"], f"date {TZ.at(t['at'])} fires at {a}")
        check(plain.get_next_trigger_time(tz, a, now) is None, "date fires twice")
        check(plain.get_next_trigger_time(tz, a, a + timedelta(days=1)) is None, "date fires twice")
        from asyncz.triggers import DateTrigger

        with clock.virtual(TZ.at(c["now"])):
            d = DateTrigger()
            check(TZ.us(d.get_next_trigger_time(tz, None, now)) == c["now"], "date without a time is not now")
            d = DateTrigger(run_at=TZ.wall(now), timezone=tz)
            check(TZ.us(d.get_next_trigger_time(TZ.UTC, None, now)) == c["now"], "naive date read in the wrong zone")
        return Outcome(t["at"] != c["now"], ["date"])
    trig = build(t, tz, jitter=c["jitter"])
    prev = plain.get_next_trigger_time(tz, None, now) if c["prev"] else None
    base = plain.get_next_trigger_time(tz, prev, now)
    j = timedelta(seconds=c["jitter"] or 0)
    end = None if t["k"] in ("and", "or") or t["end"] is None else TZ.at(t["end"])
    moved = False
    for _ in range(c["reps"]):
        got = trig.get_next_trigger_time(tz, prev, now)
        if base is None:
            check(got is None, f"jitter revived an ended schedule: {got}")
            continue
        if got is None:
            check(end is not None and base + j > end, f"{trig} vanished; without jitter it fires at {base}")
            continue
        check(base <= got <= base + j, f"{trig}: {got} not within {c['jitter']} s after {base}")
        check(end is None or got <= end, f"{trig}: {got} is past its end {end}")
        moved = moved or got != base
    if base is not None and c["jitter"] and (end is None or base + j <= end):
        # ten delays, all below a hundredth of the jitter: that does not happen by chance
        delays = [trig.get_next_trigger_time(tz, prev, now) - base for _ in range(10)]
        check(max(delays) > j / 100, lambda: f"{trig} is not delayed, it fires {max(delays)} after {base} at most")
    return Outcome(moved or (base is not None and bool(c["jitter"])), [t["k"], "moved" if moved else "same"])


PARTS = [
    Part("and", and_case, run_and, quick=2400, thorough=60000, quick_s=60),
    Part("or", or_case, run_or, quick=2400, thorough=60000, quick_s=60),
    Part("jitter", jitter_case, run_jitter, quick=1600, thorough=60000),
]
