"""Hypothesis strategies for cron schedules (the structured form of cronref)."""

from __future__ import annotations

from hypothesis import strategies as st

from vp.cronref import FIELDS, HI, LO


@st.composite
def term(draw, field: str, year_lo: int = 1970, year_hi: int = 2100):
    lo, hi = (year_lo, year_hi) if field == "year" else (LO[field], HI[field])
    kinds = ["*", "*/", "a", "a-b", "a-b/", "a/"]
    if field in ("month", "day_of_week"):
        kinds += ["n", "n-n"]
    if field == "day":
        kinds += ["p", "last"]
    k = draw(st.sampled_from(kinds))
    num = st.integers(lo, hi)
    if k == "*":
        return ["*", None]
    if k == "*/":
        return ["*", draw(st.integers(1, min(HI[field] - LO[field], 60)))]
    if k == "a":
        return ["r", draw(num), None, None]
    if k in ("a-b", "a-b/"):
        a = draw(num)
        b = draw(st.integers(a, hi))
        if k == "a-b" or b == a:
            return ["r", a, b, None]
        return ["r", a, b, draw(st.integers(1, b - a))]
    if k == "a/":
        a = draw(st.integers(lo, hi - 1))
        top = HI[field] - a
        return ["r", a, None, draw(st.integers(1, min(top, 60)))]
    if k == "n":
        return ["n", draw(st.integers(0, 11 if field == "month" else 6)), None]
    if k == "n-n":
        top = 11 if field == "month" else 6
        a = draw(st.integers(0, top))
        return ["n", a, draw(st.integers(a, top))]
    if k == "p":
        return ["p", draw(st.integers(0, 5)), draw(st.integers(0, 6))]
    return ["last"]


def terms(field: str, **kw):
    return st.lists(term(field, **kw), min_size=1, max_size=3)


@st.composite
def spec(draw, fields=FIELDS, year_lo=1970, year_hi=2100, max_fields=5):
    chosen = draw(st.lists(st.sampled_from(list(fields)), unique=True, min_size=0, max_size=max_fields))
    return {f: draw(terms(f, year_lo=year_lo, year_hi=year_hi) if f == "year" else terms(f)) for f in chosen}
