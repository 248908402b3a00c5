"""Real tasks from plain data, and what an observer can see of them."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from vp import taskgen as G
from vp import tz as TZ
from vp.targets import FNS

IDS = ["a", "A", "b", "a.task", "ä", "10", "9", "x y", "a-b", "%s"]


def simple_tree():
    return st.one_of(
        st.builds(lambda s: {"k": "interval", "tz": "UTC", "delta": {"seconds": s}, "start": G.T0, "end": None, "naive": False}, st.sampled_from([1, 60, 3600])),
        st.builds(lambda d: {"k": "date", "tz": "UTC", "at": G.T0 + d, "naive": False}, st.integers(0, 10**9)),
        st.just({"k": "shutdown", "tz": None, "naive": False}),
        G.leaf(),
    )


# instants that collide often, and some that differ by one microsecond
instant = st.one_of(
    st.integers(-3, 6).map(lambda k: G.T0 + k * G.US),
    st.integers(-3, 3).map(lambda k: G.T0 + k),
    G.near,
    st.sampled_from([0, 1, -1, 999_999, 4_102_444_800_000_000, -86_400_000_000]),
)


@st.composite
def definition(draw):
    return {"attrs": draw(G.attrs()), "tree": draw(simple_tree()), "next": draw(st.one_of(st.none(), instant, instant))}


def make(task_id: str, d: dict, s: Any, alias: str = "default") -> Any:
    from asyncz.tasks import Task

    a = d["attrs"]
    kw = {} if a["name"] is None else {"name": a["name"]}
    return Task(
        FNS[a["fn"]][0],
        id=task_id,
        args=a["args"],
        kwargs=a["kwargs"],
        trigger=G.build(d["tree"]),
        executor=a["executor"],
        mistrigger_grace_time=a["grace"],
        coalesce=a["coalesce"],
        max_instances=a["max_instances"],
        scheduler=s,
        store_alias=alias,
        next_run_time=None if d["next"] is None else TZ.at(d["next"]),
        **kw,
    )


def public(t: Any) -> dict:
    return {
        "id": t.id,
        "name": t.name,
        "fn": t.fn_reference,
        "trigger": repr(t.trigger),
        "executor": t.executor,
        "grace": t.mistrigger_grace_time,
        "coalesce": t.coalesce,
        "max_instances": t.max_instances,
        "next": None if t.next_run_time is None else TZ.us(t.next_run_time),
        "args": repr(tuple(t.args)),
        "kwargs": repr(dict(t.kwargs or {})),
    }
