"""P06: schedules and tasks survive being stored and restored unchanged."""

from __future__ import annotations

import copy
import pickle
import random

from hypothesis import strategies as st

from vp import taskgen as G
from vp import tz as TZ
from vp.runner import Outcome, Part, Violation, check
from vp.targets import CALLS, FNS, Holder, SubHolder

PROPERTY = "P06"
RULE = (
    "A case is a trigger tree (date, interval, cron, shutdown, and/or nesting, zones, bounds, jitter) or a task with "
    "arbitrary attributes, serialized with some pickle protocol (once or repeatedly, asked in between or not); original "
    "and restored object are asked the same (previous, now) questions. Non-trivial: at least one question is answered "
    "with a time (triggers) or the task carries non-default attributes."
)
US = 1_000_000


@st.composite
def trig_case(draw):
    qs = draw(
        st.lists(
            st.tuples(st.none() | st.integers(-50 * 86400, 50 * 86400), st.integers(-50 * 86400, 50 * 86400)), min_size=1, max_size=5
        )
    )
    return {
        "tree": flat_and(draw(G.tree(jitter=True))),
        "proto": draw(st.integers(2, 5)),
        "times": draw(st.integers(1, 2)),
        "asked_before": draw(st.booleans()),
        "via": draw(st.sampled_from(["pickle", "pickle", "store"])),
        "questions": [[None if p is None else G.T0 + p * US, G.T0 + n * US] for p, n in qs],
        "tz": draw(G.zone),
    }


def ask(t, q, z, seed=5):
    random.seed(seed)
    prev, now = q
    try:
        r = t.get_next_trigger_time(z, None if prev is None else TZ.at(prev, z), TZ.at(now, z))
    except OverflowError:
        return "overflow"
    return r


def flat_and(tree, inside=False):
    """'and' within 'and' multiplies the candidates that are searched: keep the questions cheap."""
    if "parts" not in tree:
        if inside and tree["k"] == "cron":
            spec = {f: v for f, v in tree["spec"].items() if f in ("hour", "minute", "second")}
            return {**tree, "spec": spec} if spec else {"k": "shutdown"}
        return tree
    k = "or" if inside and tree["k"] == "and" else tree["k"]
    return {**tree, "k": k, "parts": [flat_and(p, inside or k == "and") for p in tree["parts"]]}


def has_and(tree):
    return tree["k"] == "and" or any(has_and(p) for p in tree.get("parts", ()))


def run_trig(c):
    from asyncz.triggers import base as _  # noqa: F401

    z = TZ.get(c["tz"])
    t = G.build(c["tree"])
    if c["asked_before"] and not has_and(c["tree"]):
        ask(t, c["questions"][0], z)
    before = (str(t), repr(t))
    r = t
    for _ in range(c["times"]):
        r = pickle.loads(pickle.dumps(r, protocol=c["proto"])) if c["via"] == "pickle" else through_store(r)
    check(type(r) is type(t), f"{t!r} restored as {type(r)}")
    check((str(t), repr(t)) == before, f"serializing changed {before[1]} to {t!r}")
    check((str(r), repr(r)) == before, f"{before[1]} restored as {r!r}")
    check(r.alias == t.alias, "alias changed")
    check(r.jitter == t.jitter, f"{before[1]}: jitter {t.jitter} restored as {r.jitter}")
    qs = c["questions"][:1] if has_and(c["tree"]) else c["questions"]
    answered = 0
    for q in qs:
        a, b = ask(t, q, z), ask(r, q, z)
        check(same(a, b), lambda: f"{before[1]}: asked {q}: original says {a}, restored says {b}")
        answered += a is not None
        if a is not None and a != "overflow" and not has_and(c["tree"]):
            q2 = [TZ.us(a), max(TZ.us(a), q[1])]
            a2, b2 = ask(t, q2, z), ask(r, q2, z)
            check(same(a2, b2), lambda: f"{before[1]}: after {a}: original says {a2}, restored says {b2}")
    # a restored trigger is independent of the original
    cp = copy.deepcopy(r)
    check(same(ask(cp, c["questions"][0], z), ask(r, c["questions"][0], z)), "a copy differs")
    return Outcome(answered > 0, [c["tree"]["k"], c["via"], f"proto{c['proto']}"])


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return TZ.us(a) == TZ.us(b) and a.utcoffset() == b.utcoffset()


_STORES: dict = {}


def sched_and_store():
    """A scheduler with an in-memory SQL store: everything goes through the record format."""
    if not _STORES:
        from asyncz.schedulers import AsyncIOScheduler
        from asyncz.stores.sqlalchemy import SQLAlchemyStore

        s = AsyncIOScheduler(timezone="UTC")
        store = SQLAlchemyStore(database="sqlite://")
        store.start(s, "default")
        _STORES["x"] = (s, store)
    return _STORES["x"]


def through_store(trigger):
    from asyncz.tasks import Task

    s, store = sched_and_store()
    store.remove_all_tasks()
    task = Task(FNS["plain"][0], id="t", trigger=trigger, scheduler=s, next_run_time=None, executor="default", mistrigger_grace_time=1, coalesce=True, max_instances=1)
    store.add_task(task)
    got = store.lookup_task("t")
    if got is None:
        raise Violation(f"task with trigger {trigger!r} could not be read back")
    return got.trigger


# ------------------------------------------------------------------ tasks


@st.composite
def task_case(draw):
    a = draw(G.attrs())
    return {
        "attrs": a,
        "bound": draw(st.sampled_from([None, None, "method", "submethod", "callable", "klass"])),
        "tree": draw(G.leaf()),
        "id": draw(G.ident),
        "next": draw(st.none() | G.near),
        "proto": draw(st.integers(2, 5)),
        "via": draw(st.sampled_from(["pickle", "store"])),
        "times": draw(st.integers(1, 3)),
        "ref": draw(st.booleans()),
    }


def make_task(c, s):
    from asyncz.tasks import Task

    a = c["attrs"]
    fn, args, kwargs = FNS[a["fn"]][0], a["args"], a["kwargs"]
    if c["bound"]:
        fn = {
            "method": Holder(4).method,
            "submethod": SubHolder(5).method,
            "callable": Holder(6),
            "klass": SubHolder.klass,
        }[c["bound"]]
        args, kwargs = args[:1], {}
    elif c["ref"]:
        fn = f"{fn.__module__}:{fn.__qualname__}"
    kw = {} if a["name"] is None else {"name": a["name"]}
    return Task(
        fn,
        id=c["id"],
        args=args,
        kwargs=kwargs,
        trigger=G.build(c["tree"]),
        executor=a["executor"],
        mistrigger_grace_time=a["grace"],
        coalesce=a["coalesce"],
        max_instances=a["max_instances"],
        scheduler=s,
        next_run_time=None if c["next"] is None else TZ.at(c["next"]),
        **kw,
    )


def call(task):
    del CALLS[:]
    out = task.fn(*task.args, **task.kwargs)
    return repr(out), list(map(repr, CALLS))


def run_task(c):
    s, store = sched_and_store()
    task = make_task(c, s)
    refused = c["bound"] == "callable"
    before = public(task)
    result = call(task)
    r = task
    try:
        for _ in range(c["times"]):
            if c["via"] == "pickle":
                r = pickle.loads(pickle.dumps(r, protocol=c["proto"]))
            else:
                store.remove_all_tasks()
                store.add_task(r)
                r = store.lookup_task(c["id"])
                if r is None:
                    raise Violation(f"task {before} cannot be read back")
    except ValueError as exc:
        if refused and "cannot be serialized" in str(exc):
            return Outcome(True, ["refused"])
        raise
    if refused:
        # a callable object has no importable reference of its own: refusing it is the safe answer,
        # restoring it must at least still make the same call
        check(call(r) == result, f"callable object restored as {r.fn!r} which does something else")
    check(public(task) == before, "serializing changed the task itself")
    check(public(r) == before, lambda: f"{before} restored as {public(r)}")
    check(call(r) == result, lambda: f"calling the restored task gives {call(r)}, the original {result}")
    check(not r.pending, "a restored task claims to be pending")
    nondefault = bool(c["attrs"]["args"] or c["attrs"]["kwargs"] or c["next"] is not None)
    return Outcome(nondefault, [c["via"], c["bound"] or "function", f"x{c['times']}"])


def public(t):
    return {
        "id": t.id,
        "name": t.name,
        "trigger": repr(t.trigger),
        "executor": t.executor,
        "grace": t.mistrigger_grace_time,
        "coalesce": t.coalesce,
        "max_instances": t.max_instances,
        "next": None if t.next_run_time is None else TZ.us(t.next_run_time),
        "kwargs": t.kwargs,
    }


# ------------------------------------------------------------------ foreign records


@st.composite
def record_case(draw):
    return {
        "kind": draw(st.sampled_from(["entity", "version", "shape", "type", "payload", "legacy", "good"])),
        "value": draw(st.one_of(st.text(max_size=6), st.integers(-3, 50), st.none(), st.lists(st.integers(), max_size=2))),
    }


def run_record(c):
    from asyncz.stores.persistence import TaskStateEnvelope
    from asyncz.tasks import Task

    s, store = sched_and_store()
    task = Task(FNS["plain"][0], id="t", trigger=G.build({"k": "shutdown"}), scheduler=s, executor="default", mistrigger_grace_time=1, coalesce=True, max_instances=1)
    env = store.serialize_task_state(task)
    good = dict(entity=env.entity, version=env.version, shape=env.shape, payload=env.payload)
    kind, v = c["kind"], c["value"]
    if kind == "legacy":
        record, ok = task.__getstate__(), True
    elif kind == "type":
        record, ok = v, False
    elif kind == "good":
        record, ok = TaskStateEnvelope(**good), True
    else:
        record, ok = TaskStateEnvelope(**{**good, kind: v}), good[kind] == v
        if kind == "shape" and v is None:
            return Outcome(False)  # no shape named: the default one
    try:
        state = store.deserialize_task_state(record)
    except Exception as exc:
        check(not ok, lambda: f"valid record refused: {exc!r}")
        return Outcome(True, [kind, "refused"])
    check(ok, lambda: f"record with {kind}={v!r} restored as {state!r}")
    check(state.id == "t", "restored another task")
    return Outcome(True, [kind, "restored"])


PARTS = [
    Part("trigger", trig_case, run_trig, quick=2500, thorough=100000),
    Part("task", task_case, run_task, quick=2500, thorough=100000),
    Part("record", record_case, run_record, quick=400, thorough=5000, max_shards=2),
]
