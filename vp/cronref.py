"""Reference model of cron schedules: a definition by matching, searched by brute force.

A schedule is a dict field -> list of terms; a term is one of
  ["*", step|None]   every value / every step-th value from the field's minimum
  ["r", a, b|None, step|None]  a, a-b, a-b/n, a/n (numbers)
  ["n", a, b|None]   month or weekday names, 0-based index into the name list
  ["p", k, w]        k-th (0..4) or last (5) weekday w of the month   (day only)
  ["last"]           last day of the month                              (day only)
"""

from __future__ import annotations

from calendar import monthrange
from datetime import date, datetime, timedelta, tzinfo
from typing import Iterator, Optional

from vp import tz as TZ

FIELDS = ["year", "month", "day", "week", "day_of_week", "hour", "minute", "second"]
LO = dict(year=1970, month=1, day=1, week=1, day_of_week=0, hour=0, minute=0, second=0)
HI = dict(year=9999, month=12, day=31, week=53, day_of_week=6, hour=23, minute=59, second=59)
WD = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
MO = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
POS = ["1st", "2nd", "3rd", "4th", "5th", "last"]


def render_term(field: str, t: list) -> str:
    k = t[0]
    if k == "*":
        return "*" if not t[1] else f"*/{t[1]}"
    if k == "r":
        s = str(t[1])
        if t[2] is not None:
            s += f"-{t[2]}"
        if t[3] is not None:
            s += f"/{t[3]}"
        return s
    if k == "n":
        names = MO if field == "month" else WD
        s = names[t[1]]
        if t[2] is not None:
            s += "-" + names[t[2]]
        return s
    if k == "p":
        return f"{POS[t[1]]} {WD[t[2]]}"
    return "last"


def render(field: str, terms: list) -> str:
    return ",".join(render_term(field, t) for t in terms)


def complete(spec: dict) -> dict:
    """Fields left out: '*' above the least significant given field, the minimum below it."""
    given = [f for f in FIELDS if f in spec]
    out = {}
    last = FIELDS.index(given[-1]) if given else len(FIELDS)
    for i, f in enumerate(FIELDS):
        if f in spec:
            out[f] = spec[f]
        elif i < last or f in ("year", "week", "day_of_week"):
            out[f] = [["*", None]]
        else:
            out[f] = [["r", LO[f], None, None]]
    return out


def _num_match(field: str, t: list, v: int, hi: int) -> bool:
    if t[0] == "*":
        return not t[1] or (v - LO[field]) % t[1] == 0
    if t[0] == "r":
        a, b, step = t[1], t[2], t[3]
        if b is None:
            b = a if step is None else hi
        return a <= v <= b and (step is None or (v - a) % step == 0)
    if t[0] == "n":
        off = 1 if field == "month" else 0
        a = t[1] + off
        b = a if t[2] is None else t[2] + off
        return a <= v <= b
    raise AssertionError(t)


def day_matches(full: dict, d: date) -> bool:
    last = monthrange(d.year, d.month)[1]
    for f, v in (
        ("year", d.year),
        ("month", d.month),
        ("week", d.isocalendar()[1]),
        ("day_of_week", d.weekday()),
    ):
        if not any(_num_match(f, t, v, HI[f]) for t in full[f]):
            return False
    for t in full["day"]:
        if t[0] == "last":
            if d.day == last:
                return True
        elif t[0] == "p":
            if d.weekday() == t[2]:
                nth = (d.day - 1) // 7
                if t[1] == 5:
                    if d.day + 7 > last:
                        return True
                elif nth == t[1]:
                    return True
        elif _num_match("day", t, d.day, last):
            return True
    return False


def values(full: dict, f: str) -> list[int]:
    return [v for v in range(LO[f], HI[f] + 1) if any(_num_match(f, t, v, HI[f]) for t in full[f])]


def wall_matches(full: dict, w: datetime) -> bool:
    return (
        w.microsecond == 0
        and day_matches(full, w.date())
        and all(
            any(_num_match(f, t, getattr(w, f), HI[f]) for t in full[f]) for f in ("hour", "minute", "second")
        )
    )


def matching_instants(
    full: dict, tzone: tzinfo, lower: datetime, upper: datetime
) -> Iterator[datetime]:
    """UTC instants in [lower, upper] whose local time matches, ascending. DST-free zones only."""
    H, M, S = values(full, "hour"), values(full, "minute"), values(full, "second")
    d = lower.astimezone(tzone).date()
    dend = upper.astimezone(tzone).date()
    while d <= dend:
        if day_matches(full, d):
            for h in H:
                for m in M:
                    base = datetime(d.year, d.month, d.day, h, m)
                    if (base + timedelta(seconds=60)).replace(tzinfo=tzone) < lower:
                        continue
                    for s in S:
                        u = base.replace(second=s, tzinfo=tzone).astimezone(TZ.UTC)
                        if u < lower:
                            continue
                        if u > upper:
                            return
                        yield u
        if d == date.max:
            return
        d += timedelta(days=1)


def next_match(full: dict, tzone: tzinfo, lower: datetime, upper: datetime) -> Optional[datetime]:
    return next(matching_instants(full, tzone, lower, upper), None)
