"""P02: cron text is either rejected or means exactly what it says."""

from __future__ import annotations

import re
from datetime import timedelta

from hypothesis import strategies as st

from vp import tz as TZ
from vp.crongen import spec as cron_spec
from vp.crongen import term
from vp.cronref import FIELDS, HI, LO, MO, POS, WD, complete, next_match, render, render_term
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P02"
RULE = (
    "Text for one cron field is built from grammar pieces, near misses (garbage before/after, odd spacing and case, wrong "
    "names, out-of-range numbers, missing parts) and random characters. An independent parser of the documented grammar "
    "says what the text denotes or that it is no cron text; the real trigger must reject or fire accordingly, and its "
    "printed form must denote the same. Non-trivial: the text is accepted with a restricting term, or is a near miss of "
    "an acceptable text."
)
ASSUMPTIONS = [
    "a text whose meaning is clear may still be rejected (e.g. a step larger than its range); only what is accepted is judged",
]
US = 1_000_000

words = st.sampled_from(MO + WD + ["last", "1st", "2nd", "5th", "6th", "foo", "january", "thursday", "l", "x"])
glue = st.sampled_from(["", "", "", "-", "/", " ", ",", "*", "/2", "-5", " mon", " x", "x", ".", "#1", "+", "0", "?", "\n", "\t", "_", "é", "٣", "²"])
number = st.one_of(st.integers(0, 70), st.integers(1965, 2105), st.sampled_from([0, 1, 7, 12, 13, 24, 31, 32, 53, 54, 59, 60, 9999, 10000]))


@st.composite
def text(draw, field):
    mode = draw(st.sampled_from(["valid", "valid", "valid-case", "near", "near", "pieces", "free"]))
    if mode in ("valid", "valid-case", "near"):
        ts = draw(st.lists(term(field), min_size=1, max_size=3))
        parts = [render_term(field, t) for t in ts]
        if mode == "valid-case":
            parts = [draw(st.sampled_from([str.upper, str.title, str.lower]))(p) for p in parts]
            sep = draw(st.sampled_from([",", ", ", " ,", " , "]))
            return mode, draw(st.sampled_from(["", " "])) + sep.join(parts) + draw(st.sampled_from(["", " "]))
        s = ",".join(parts)
        if mode == "near":
            k = draw(st.integers(0, 3))
            g = draw(st.one_of(glue, words))
            if k == 0:
                s = s + g
            elif k == 1:
                s = g + s
            elif k == 2:
                i = draw(st.integers(0, len(s)))
                s = s[:i] + g + s[i:]
            else:
                i = draw(st.integers(0, len(s)))
                s = s[:i] + s[i + 1 :]
        return mode, s
    if mode == "pieces":
        return mode, "".join(draw(st.lists(st.one_of(number.map(str), words, glue), min_size=1, max_size=5)))
    return mode, draw(st.text(alphabet="0123456789*/-, abcdefijlmnorstuvy", max_size=10))


@st.composite
def case(draw):
    field = draw(st.sampled_from(FIELDS))
    mode, s = draw(text(field))
    return {"field": field, "mode": mode, "text": s, "now": draw(st.integers(300_000_000, 3_900_000_000)) * US}


# ------------------------------------------------------------- independent grammar

INT = r"\d+"


def parse(field: str, s: str):
    """Structured terms, or None when `s` is no cron text for the field."""
    s = s.strip()
    out = []
    for raw in s.split(","):
        t = parse_term(field, raw.strip(" "))
        if t is None:
            return None
        out.append(t)
    return out


def parse_term(field, e):
    lo, hi = LO[field], HI[field]
    m = re.fullmatch(rf"\*(?:/({INT}))?", e)
    if m:
        if m[1] is None:
            return ["*", None]
        n = int(m[1])
        return ["*", n] if n > 0 else None
    m = re.fullmatch(rf"({INT})(?:-({INT}))?(?:/({INT}))?", e)
    if m:
        a = int(m[1])
        b = None if m[2] is None else int(m[2])
        n = None if m[3] is None else int(m[3])
        if a < lo or a > hi or (b is not None and (b > hi or b < a)) or n == 0:
            return None
        return ["r", a, b, n]
    if field in ("month", "day_of_week"):
        names = MO if field == "month" else WD
        m = re.fullmatch(r"([a-z]+)(?:-([a-z]+))?", e, re.I)
        if m:
            if m[1].lower() not in names or (m[2] and m[2].lower() not in names):
                return None
            a = names.index(m[1].lower())
            b = names.index(m[2].lower()) if m[2] else None
            if b is not None and b < a:
                return None
            return ["n", a, b]
    if field == "day":
        if e.lower() == "last":
            return ["last"]
        m = re.fullmatch(r"(\w+) +(\w+)", e)
        if m and m[1].lower() in POS and m[2].lower() in WD:
            return ["p", POS.index(m[1].lower()), WD.index(m[2].lower())]
    return None


def fires(trig, full, now, n=3):
    """Compare the first fire times with the model, within three years."""
    lower = TZ.at(now)
    upper = lower + timedelta(days=1100)
    prev = None
    count = 0
    for _ in range(n):
        want = next_match(full, TZ.UTC, lower, upper)
        if want is None:
            return count
        got = trig.get_next_trigger_time(TZ.UTC, prev, lower if prev is None else prev)
        if got is None or TZ.us(got) != TZ.us(want):
            raise Violation(f"{trig}: fires at {got}, the text says {want}")
        prev = got
        lower = got + timedelta(seconds=1)
        count += 1
    return count


def run(c):
    from asyncz.triggers import CronTrigger

    field, s = c["field"], c["text"]
    terms = parse(field, s)
    try:
        trig = CronTrigger(timezone=TZ.UTC, **{field: s})
    except ValueError:
        # refused: fine, unless it is plain documented syntax within its range
        if terms is not None:
            check(not plain(field, terms), lambda: f"{field}={s!r} is documented syntax but was rejected", "reject")
        return Outcome(c["mode"] != "free", ["rejected", c["mode"]])
    check(terms is not None, f"{field}={s!r} is not cron syntax but was accepted as {trig}", "accept-garbage")
    full = complete({field: terms})
    n = fires(trig, full, c["now"])
    restricted = any(t != ["*", None] for t in terms)
    # printed forms
    shown = str(trig)
    m = re.fullmatch(r"cron\[%s='(.*)'\]" % field, shown)
    check(m, f"unexpected printed form {shown!r}")
    back = parse(field, m[1])
    check(back is not None, f"printed form {shown!r} of {field}={s!r} is no cron text")
    again = CronTrigger(timezone=TZ.UTC, **{field: m[1]})
    fires(again, full, c["now"])
    repr(trig)
    check(repr(again) == repr(trig), f"{again!r} != {trig!r}")
    return Outcome(restricted, ["accepted", c["mode"], f"fires{n}"])


def plain(field, terms):
    """Documented syntax whose numbers, ranges and steps are plainly in range: must be accepted."""
    for t in terms:
        if t[0] == "*" and t[1] and t[1] > HI[field] - LO[field]:
            return False
        if t[0] == "r":
            b = t[2] if t[2] is not None else (t[1] if t[3] is None else HI[field])
            if t[3] is not None and t[3] > b - t[1]:
                return False
    return True


def same_values(field, ta, tb):
    from datetime import date

    from vp.cronref import day_matches, values

    fa, fb = complete({field: [ta]}), complete({field: [tb]})
    if field == "day":
        return all(
            day_matches({**fa, "year": [["*", None]]}, d) == day_matches({**fb, "year": [["*", None]]}, d)
            for d in (date(2023, 1, 1) + timedelta(days=k) for k in range(430))
        )
    return values(fa, field) == values(fb, field)


# ------------------------------------------------------------- whole schedules and crontab lines


@st.composite
def whole(draw):
    f = draw(st.sampled_from(FIELDS))
    return {"pair": [f, draw(term(f)), draw(term(f))], "spec": draw(cron_spec()), "now": draw(st.integers(300_000_000, 3_900_000_000)) * US}


def run_whole(c):
    from asyncz.triggers import CronTrigger

    kw = {f: render(f, t) for f, t in c["spec"].items()}
    trig = CronTrigger(timezone=TZ.UTC, **kw)
    shown = str(trig)
    fields = re.findall(r"(\w+)='([^']*)'", shown)
    check(shown == "cron[" + ", ".join(f"{k}='{v}'" for k, v in fields) + "]", f"odd printed form {shown}")
    again = CronTrigger(timezone=TZ.UTC, **dict(fields))
    check(str(again) == shown and repr(again) == repr(trig), f"{again} != {trig}")
    fires(again, complete(c["spec"]), c["now"])
    repr(trig.fields)
    # comparing and showing the parts never fails, and equal parts compare equal
    for fa, fb in zip(trig.fields, again.fields):
        check(fa == fb, f"field {fa} compares unequal to its own re-reading {fb}")
        for e in fa.expressions:
            repr(e), str(e)
    f, ta, tb = c["pair"]
    a = CronTrigger(timezone=TZ.UTC, **{f: render_term(f, ta)})
    b = CronTrigger(timezone=TZ.UTC, **{f: render_term(f, tb)})
    i = FIELDS.index(f)
    equal = a.fields[i] == b.fields[i]
    check(not equal or same_values(f, ta, tb), f"{f}: {a} and {b} compare equal but differ")
    check(equal or ta != tb, f"{f}: {a} and {b} compare unequal")
    return Outcome(len(fields) >= 2, [f"fields{len(fields)}"])


@st.composite
def tab(draw):
    kind = draw(st.sampled_from(["good", "good", "count"]))
    fs = ["minute", "hour", "day", "month", "day_of_week"]
    texts = []
    for f in fs:
        ts = [t for t in draw(st.lists(term(f), min_size=1, max_size=2)) if t[0] != "p"]
        texts.append(render(f, ts) if ts else "*")
    if kind == "count":
        texts = (texts * 2)[: draw(st.sampled_from([0, 1, 4, 6, 7]))]
    ws = st.sampled_from([" ", "  ", "\t", " \t "])
    line = draw(st.sampled_from(["", " "]))
    for t in texts:
        line += t + draw(ws)
    return {"line": line, "n": len(texts), "now": draw(st.integers(300_000_000, 3_900_000_000)) * US}


def run_tab(c):
    from asyncz.triggers import CronTrigger

    fs = ["minute", "hour", "day", "month", "day_of_week"]
    try:
        trig = CronTrigger.from_crontab(c["line"], timezone=TZ.UTC)
    except ValueError as exc:
        check(c["n"] != 5, f"crontab line {c['line']!r} rejected: {exc}")
        return Outcome(True, ["rejected"])
    check(c["n"] == 5, f"crontab line with {c['n']} fields accepted: {c['line']!r}")
    full = complete({f: parse(f, t) for f, t in zip(fs, c["line"].split())})
    n = fires(trig, full, c["now"])
    return Outcome(n > 0, ["accepted"])


PARTS = [
    Part("field_text", case, run, quick=16000, thorough=400000),
    Part("whole", whole, run_whole, quick=3000, thorough=100000),
    Part("crontab", tab, run_tab, quick=2000, thorough=50000),
]
