"""P07: changing a task is all-or-nothing and validates every value."""

from __future__ import annotations

import datetime as dt
import inspect
import math
import types

from hypothesis import strategies as st

from vp import sched as S
from vp import targets
from vp import taskgen as G
from vp import tasks as T
from vp import tz as TZ
from vp.runner import Outcome, Part, check

PROPERTY = "P07"
RULE = (
    "A case is a task (any callable, arguments, trigger) and up to six updates, each changing one to five attributes with "
    "values that are valid, ill-typed, out of range or unknown; an update must either be refused (exactly when one of its "
    "values is not acceptable, or the callable would not accept the arguments) leaving every attribute identical, or set "
    "every given attribute to the given value and no other. Non-trivial: one update was accepted and one mixing good and "
    "bad values was refused."
)

EXTRA = {
    "plain": targets.plain,
    "one": targets.one,
    "two": targets.two,
    "anyargs": targets.anyargs,
    "static": targets.Holder.static,
    "klass": targets.Holder.klass,
    "method": targets.Holder(3).method,
    "object": targets.Holder(4),
    "class": targets.Holder,
    "lambda": lambda a, b=1: (a, b),
}


def tagged(*choices):
    return st.one_of(*[st.tuples(st.just(t), v).map(list) for t, v in choices])


vals = st.lists(G.value, max_size=3)
kwv = st.dictionaries(st.sampled_from(["a", "b", "key", "x", "zz"]), G.value, max_size=2)
VALUES = {
    "fn": tagged(
        ("fn", st.sampled_from(sorted(EXTRA))),
        ("fn", st.sampled_from(sorted(EXTRA))),
        ("ref", st.sampled_from(["vp.targets:plain", "vp.targets:two", "vp.targets:Holder.static"])),
        ("v", st.sampled_from(["vp.targets:missing", "no_such_module_x:y", "vp.targets", "", 0, 5, [], {"a": 1}, False, None])),
    ),
    "args": tagged(("list", vals), ("list", vals), ("tuple", vals), ("iter", vals), ("gen", vals), ("v", st.sampled_from(["abc", "", 5, None, True]))),
    "kwargs": tagged(("dict", kwv), ("dict", kwv), ("proxy", kwv), ("v", st.sampled_from(["abc", "", 5, None, [["a", 1]]]))),
    "name": tagged(("v", st.text(min_size=1, max_size=5)), ("v", st.sampled_from(["", 5, ["x"], None, b"x".hex()]))),
    "mistrigger_grace_time": tagged(
        ("v", st.sampled_from([1, 0.5, 30, None, 10**6])), ("v", st.sampled_from([0, -1, -0.5, "5", [1], "x"])), ("num", st.sampled_from(["nan", "inf", "-inf"]))
    ),
    "coalesce": tagged(("v", st.booleans())),
    "max_instances": tagged(("v", st.integers(1, 9)), ("v", st.sampled_from([0, -1, "3", 2.0, None, [1]]))),
    "executor": tagged(("v", st.sampled_from(["default", "x", "ü"])), ("v", st.sampled_from([5, None, ["default"]]))),
    "store_alias": tagged(("v", st.sampled_from(["default", "x"])), ("v", st.sampled_from([5, None, ["default"]]))),
    "trigger": tagged(("tree", T.simple_tree()), ("v", st.sampled_from(["date", "interval", None, 5, {"seconds": 1}]))),
    "next_run_time": tagged(
        ("at", G.near), ("naive", G.near), ("date", st.integers(1, 700000)), ("text", G.near),
        ("v", st.sampled_from([None, "tomorrow", "2024-13-01", "", 0, 5, [2024], False, "2024-01-01T00:00:00junk"])),
    ),
    "id": tagged(("v", st.sampled_from(["t", "other", None]))),
    "scheduler": tagged(("same", st.none()), ("other", st.none())),
    "colour": tagged(("v", st.just("red"))),
    "fn_reference": tagged(("v", st.just("vp.targets:two"))),
    "pending": tagged(("v", st.booleans())),
}
BAD = "refuse"


@st.composite
def update(draw):
    keys = draw(st.lists(st.sampled_from(["fn", "args", "kwargs"] * 2 + ["name", "mistrigger_grace_time", "coalesce", "max_instances", "executor", "store_alias", "trigger", "next_run_time"] * 3 + ["id", "scheduler", "colour", "fn_reference", "pending"]), min_size=1, max_size=5, unique=True))
    u = {k: draw(VALUES[k]) for k in keys}
    if "fn" in u and u["fn"][0] == "fn" and draw(st.integers(0, 3)):
        # arguments that often fit
        n = draw(st.integers(0, 3))
        u["args"] = [draw(st.sampled_from(["list", "iter", "tuple"])), [draw(G.value) for _ in range(n)]]
        u.pop("kwargs", None)
        if draw(st.booleans()):
            u["kwargs"] = ["dict", {}]
    return u


def case():
    return st.fixed_dictionaries({"def": T.definition(), "updates": st.lists(update(), min_size=2, max_size=6)})


def real(k, tv, s, other):
    tag, v = tv
    if tag == "fn":
        return EXTRA[v]
    if tag in ("ref", "v"):
        return v
    if tag == "list":
        return list(v)
    if tag == "tuple":
        return tuple(v)
    if tag == "iter":
        return iter(v)
    if tag == "gen":
        return (x for x in v)
    if tag == "dict":
        return dict(v)
    if tag == "proxy":
        return types.MappingProxyType(dict(v))
    if tag == "num":
        return float(v)
    if tag == "tree":
        return G.build(v)
    if tag == "at":
        return TZ.at(v)
    if tag == "naive":
        return TZ.at(v).replace(tzinfo=None)
    if tag == "date":
        return dt.date.fromordinal(v)
    if tag == "text":
        return TZ.at(v).replace(microsecond=0).isoformat(" ")
    return s if tag == "same" else other


def acceptable(k, tv):
    """Is this value, by itself, acceptable for attribute k? (documented types)"""
    tag, v = tv
    if k in ("id", "colour", "fn_reference", "pending"):
        return False
    if k == "fn":
        return tag in ("fn", "ref") or v is None
    if k in ("args", "kwargs"):
        return tag != "v"
    if k == "name":
        return v is None or (isinstance(v, str) and v != "")
    if k == "mistrigger_grace_time":
        return tag == "v" and (v is None or (isinstance(v, (int, float)) and v > 0))
    if k == "coalesce":
        return True
    if k == "max_instances":
        return isinstance(v, int) and v > 0
    if k in ("executor", "store_alias"):
        return isinstance(v, str)
    if k == "trigger":
        return tag == "tree"
    if k == "next_run_time":
        return tag != "v" or v is None
    return tag == "same"


def binds(fn, args, kwargs):
    try:
        inspect.signature(fn, follow_wrapped=False).bind(*args, **kwargs)
        return True
    except TypeError:
        return False


def norm(k, v):
    if k == "args":
        return [repr(x) for x in v]
    if k == "kwargs":
        return repr(sorted(dict(v or {}).items()))
    if k == "trigger":
        return (id(v), repr(v))
    if k == "scheduler":
        return id(v)
    return v


FIELDS = ["fn", "args", "kwargs", "name", "mistrigger_grace_time", "coalesce", "max_instances", "executor", "store_alias", "trigger", "next_run_time", "id", "scheduler", "fn_reference", "pending", "submitted"]


def look(t):
    return {k: norm(k, getattr(t, k, None)) for k in FIELDS}


def run(c):
    s, other = S.manual(), S.manual()
    t = T.make("t", c["def"], s)
    accepted = mixed = 0
    for i, u in enumerate(c["updates"]):
        kw = {k: real(k, tv, s, other) for k, tv in u.items()}
        ok_each = {k: acceptable(k, tv) for k, tv in u.items()}
        expect = all(ok_each.values())
        before = look(t)
        fn = t.fn
        if expect:
            if u.get("fn", ["v", None])[1] is not None:
                tag, v = u["fn"]
                fn = EXTRA[v] if tag == "fn" else {"vp.targets:plain": targets.plain, "vp.targets:two": targets.two, "vp.targets:Holder.static": targets.Holder.static}[v]
            args = list(u["args"][1]) if "args" in u else list(t.args)
            kwargs = dict(u["kwargs"][1]) if "kwargs" in u else dict(t.kwargs or {})
            expect = binds(fn, args, kwargs)
        what = f"update {i} {u}"
        try:
            t.update_task(**kw)
            done = True
        except Exception as e:  # noqa: BLE001
            done = False
            err = e
        after = look(t)
        if not done:
            check(not expect, lambda: f"{what} was refused ({err!r}) though every value is acceptable")
            check(after == before, lambda: f"{what} was refused but changed { {k: (before[k], after[k]) for k in FIELDS if before[k] != after[k]} }")
            mixed += len(u) > 1 and any(ok_each.values())
        else:
            check(expect, lambda: f"{what} was accepted although it must be refused (task now {after})")
            want = dict(before)
            for k, tv in u.items():
                tag, v = tv
                if k == "fn":
                    if v is not None:
                        want["fn"] = fn
                elif k in ("args",):
                    want["args"] = [repr(x) for x in v]
                elif k == "kwargs":
                    want["kwargs"] = norm("kwargs", v)
                elif k == "name":
                    if v is not None:
                        want["name"] = v
                elif k == "trigger":
                    want["trigger"] = norm("trigger", kw["trigger"])
                elif k == "next_run_time":
                    x = kw[k]
                    if isinstance(x, str):
                        x = dt.datetime.fromisoformat(x)
                    elif isinstance(x, dt.date) and not isinstance(x, dt.datetime):
                        x = dt.datetime(x.year, x.month, x.day)
                    if x is not None and x.tzinfo is None:
                        x = x.replace(tzinfo=TZ.UTC)
                    want[k] = x
                elif k == "scheduler":
                    pass
                else:
                    want[k] = kw[k]
            got = dict(after)
            want.pop("fn_reference"), got.pop("fn_reference")
            check(got == want, lambda: f"{what} was accepted; {{attribute: (expected, actual)}} differs: { {k: (want[k], got[k]) for k in want if want[k] != got[k]} }")
            check(binds(t.fn, tuple(t.args), dict(t.kwargs or {})), lambda: f"{what}: the callable does not accept its arguments any more")
            # what was given may change afterwards without changing the task
            for k in ("args", "kwargs"):
                g = kw.get(k)
                if isinstance(g, list):
                    g.extend([1, 2, 3, 4, 5, 6])
                elif isinstance(g, dict):
                    g["zzz_not_a_parameter"] = 1
            check(look(t) == after, lambda: f"{what}: changing the given containers afterwards changed the task")
            accepted += 1
    return Outcome(accepted > 0 and mixed > 0, [f"accepted{min(accepted, 4)}", f"refused{len(c['updates']) - accepted}"])


PARTS = [Part("update", case, run, quick=6000, thorough=200000)]
