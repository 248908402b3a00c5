"""P26: the run history shows every observed run with its true, final outcome."""

from __future__ import annotations

import json
import threading
import time
from datetime import datetime, timedelta, timezone
from typing import Any

from hypothesis import strategies as st

from vp import clock, sched
from vp import tz as TZ
from vp.preempt import preempt
from vp.runner import Outcome, Part, check
from vp.taskgen import T0

PROPERTY = "P26"
RULE = (
    "fed: a scheduler with an installed history of a small or large limit, to which submissions (of one or several times, skipped ones, manual ones, coalescing ones), "
    "executions, errors and missed runs of a few tasks and stores are reported in any order, with the same instant written in several zones, ids and stores that look "
    "alike when joined, values and exceptions that cannot be shown, times between them; queries with any filters and limits, summaries and lookups in between, compared "
    "with a reference list of records; the log written next to it. race: two reports, the second let in at every line of the first in turn, must leave what one of the two orders leaves. "
    "live: a real scheduler runs generated tasks on thread, inline and asyncio executors; afterwards the history has one finished record per observed run. "
    "Non-trivial: fed: a run was reported at least twice and a query selected some but not all; race: both concern one run; live: two outcomes differ."
)

TASKS = ["a", "a|b", "b", "job 1"]
STORES = [None, "default", "b", "b|c", "c", ""]
CODES = {"sub": 32768, "max": 65536, "ok": 4096, "err": 8192, "miss": 16384}
STATUS = {"ok": "succeeded", "err": "failed", "miss": "missed", "max": "max_instances"}
ZONES = ["UTC", "Europe/Berlin", "Asia/Kolkata", "naive"]


class Odd(Exception):
    def __str__(self) -> str:
        raise OSError("no text")

    __repr__ = __str__


class OddValue:
    def __repr__(self) -> str:
        raise OSError("no text")


def values(name: str) -> Any:
    return {"none": None, "zero": 0, "empty": "", "text": "value", "long": "v" * 700, "odd": OddValue(), "list": [1, {"k": None}]}[name]


def errors(name: str) -> Any:
    return {"value": ValueError("bad thing"), "bare": KeyError(), "odd": Odd(), "long": RuntimeError("m" * 800), "key": json.JSONDecodeError("no json", "x", 0)}[name]


_when = st.tuples(st.integers(0, 2), st.sampled_from(ZONES))
_sub = st.fixed_dictionaries(
    {
        "op": st.just("sub"), "code": st.sampled_from(["sub", "sub", "sub", "max"]), "task": st.sampled_from(TASKS), "store": st.sampled_from(STORES),
        "times": st.lists(_when, min_size=0, max_size=3), "source": st.sampled_from([None, "scheduled", "manual"]), "co": st.sampled_from([0, 0, 1, 4]), "ident": st.sampled_from([None, "other-node"]),
    }
)  # fmt: skip
_exec = st.fixed_dictionaries(
    {
        "op": st.just("exec"), "code": st.sampled_from(["ok", "ok", "err", "miss"]), "task": st.sampled_from(TASKS), "store": st.sampled_from(STORES),
        "time": _when, "value": st.sampled_from(["none", "zero", "empty", "text", "long", "odd", "list"]), "exc": st.sampled_from(["value", "bare", "odd", "long", "key"]),
    }
)  # fmt: skip
_filters = {
    "task_id": st.sampled_from([*TASKS, "zz"]),
    "status": st.sampled_from(["running", "succeeded", "failed", "missed", "max_instances", " FAILED ", "", "nope"]),
    "source": st.sampled_from(["manual", "Scheduled", "unknown", " ", "nope"]),
    "q": st.sampled_from(["a", "B", "job", "coal", "manual", "fail", "NODE", "vp.targets", "  run ", "zzz", "", "main", "Named"]),
    "limit": st.sampled_from([0, 1, 2, 3, 200]),
}
_query = st.fixed_dictionaries({"op": st.just("query")}, optional=_filters)
_other = st.one_of(
    st.fixed_dictionaries({"op": st.just("adv"), "s": st.sampled_from([1, 5, 0.25])}),
    st.fixed_dictionaries({"op": st.just("adv"), "s": st.sampled_from([1, 5, 0.25])}),
    st.just({"op": "summary"}),
    st.just({"op": "again"}),
    st.just({"op": "clear"}),
    st.fixed_dictionaries({"op": st.just("task"), "task": st.sampled_from(["a", "b", "a|b"]), "add": st.booleans()}),
)


@st.composite
def fed(draw: Any) -> dict:
    ops: list = [draw(_sub), draw(_exec), *draw(st.lists(st.one_of(_sub, _exec, _exec, _query, _other), min_size=2, max_size=14))]
    if draw(st.integers(0, 3)):
        # few runs, reported often
        for i, o in enumerate(ops):
            if o["op"] in ("sub", "exec"):
                ops[i] = o = dict(o)
                o["task"], o["store"] = ("a", "default") if o["task"] != "b" else ("b", "default")
                if o["op"] == "exec":
                    o["time"] = (min(o["time"][0], 1), o["time"][1])
                elif not o["times"]:
                    o["times"] = [(0, "UTC")]
    ops += [{"op": "query", k: draw(v)} for k, v in draw(st.lists(st.sampled_from(list(_filters.items())), max_size=2))]
    return {"maxlen": draw(st.sampled_from([1, 2, 3, 5, 5000, 5000, 5000])), "logs": draw(st.booleans()), "ops": [*ops, {"op": "query"}, {"op": "summary"}]}


def moment(w: Any) -> datetime:
    at = TZ.at(T0) + timedelta(minutes=w[0])
    if w[1] == "naive":
        return at.replace(tzinfo=None)
    return at.astimezone(TZ.zone(w[1]))


def event(o: dict) -> Any:
    from asyncz.events.base import TaskExecutionEvent, TaskSubmissionEvent

    if o["op"] == "sub":
        return TaskSubmissionEvent(
            code=CODES[o["code"]], task_id=o["task"], alias=o["store"], store=o["store"], scheduled_run_times=[moment(w) for w in o["times"]], source=o["source"],
            coalesced_run_count=o["co"], **({"scheduler_identity": o["ident"]} if o.get("ident") else {}),
        )  # fmt: skip
    more: dict = {}
    if o["code"] == "ok":
        more["return_value"] = values(o["value"])
    elif o["code"] == "err":
        more.update(exception=errors(o["exc"]), traceback="tb of " + o["exc"])
    return TaskExecutionEvent(code=CODES[o["code"]], task_id=o["task"], alias=o["store"], store=o["store"], scheduled_run_time=moment(o["time"]), **more)


def text(f: Any, v: Any) -> str:
    try:
        t = f(v)
    except Exception:
        t = f"<{type(v).__name__}>"
    return t if len(t) <= 500 else t[:497] + "..."


class Model:
    def __init__(self, maxlen: int) -> None:
        self.maxlen, self.recs = maxlen, {}  # key -> record, in order of creation
        self.now = TZ.at(T0)
        self.tasks: dict = {}
        self.twice = False

    def rec(self, task: str, store: Any, w: Any, ident: Any = None) -> dict:
        key = (task, store, w[0])
        self.twice |= key in self.recs
        info = self.tasks.get((task, store)) if store is not None else next((v for (t, s), v in self.tasks.items() if t == task), None)
        r = self.recs.setdefault(
            key, {"task_id": task, "store": store, "scheduled_run_time": TZ.at(T0) + timedelta(minutes=w[0]), "status": "running", "source": "unknown", "coalesced_run_count": 0,
                  "return_value": None, "exception_type": None, "exception_message": None, "exception": None, "traceback": None, "submitted_at": None, "finished_at": None,
                  "task_name": None, "callable_reference": None, "executor": None, "scheduler_identity": ident or "main-node"}
        )  # fmt: skip
        if info:
            for k, v in info.items():
                r[k] = r[k] or v
        return r

    def trim(self) -> None:
        while len(self.recs) > self.maxlen:
            del self.recs[next(iter(self.recs))]

    def report(self, o: dict) -> list:
        """-> the log entries (status word) of the report"""
        logs = []
        if o["op"] == "sub":
            for w in o["times"]:
                r = self.rec(o["task"], o["store"], w, o.get("ident"))
                before = r["status"]
                r["source"] = o["source"] or "scheduled"
                r["coalesced_run_count"] = max(r["coalesced_run_count"], o["co"])
                r["submitted_at"] = r["submitted_at"] or r["finished_at"] or self.now
                if o["code"] == "max":
                    if before == "running":
                        r["status"] = "max_instances"
                    r["finished_at"] = r["finished_at"] or self.now
                    logs.append("skipped")
                elif before == "running":
                    logs.append("submitted")
                self.trim()
        else:
            r = self.rec(o["task"], o["store"], o["time"])
            r["finished_at"] = self.now
            r["submitted_at"] = r["submitted_at"] or self.now
            r["status"] = STATUS[o["code"]]
            v = values(o["value"]) if o["code"] == "ok" else None
            r["return_value"] = None if v is None else text(repr, v)
            e = errors(o["exc"]) if o["code"] == "err" else None
            cls = type(e)
            r["exception_type"] = None if e is None else cls.__qualname__ if cls.__module__ == "builtins" else f"{cls.__module__}.{cls.__qualname__}"
            r["exception_message"] = None if e is None else text(str, e)
            r["exception"] = None if e is None else text(repr, e)
            r["traceback"] = "tb of " + o["exc"] if e is not None else None
            logs.append({"ok": "succeeded", "err": "failed", "miss": "missed"}[o["code"]])
            self.trim()
        return logs

    def find(self, q: dict, ids: dict) -> list:
        out = []
        for key, r in self.recs.items():
            if q.get("task_id") and r["task_id"] != q["task_id"]:
                continue
            if (s := q.get("status", "").strip().lower()) and r["status"] != s:
                continue
            if (s := q.get("source", "").strip().lower()) and r["source"] != s:
                continue
            if n := q.get("q", "").strip().lower():
                hay = [
                    r["task_id"],
                    r["task_name"],
                    r["callable_reference"],
                    r["scheduler_identity"],
                    "coalesced" if r["coalesced_run_count"] else "",
                    r["status"],
                    r["source"],
                    ids.get(key),
                ]
                if not any(n in (h or "").lower() for h in hay):
                    continue
            out.append(r)
        return sorted(out, key=lambda r: r["finished_at"] or r["submitted_at"], reverse=True)


def plain(r: Any) -> dict:
    return {k: getattr(r, k) for k in (
        "task_id", "store", "scheduled_run_time", "status", "source", "coalesced_run_count", "return_value", "exception_type", "exception_message", "exception", "traceback",
        "submitted_at", "finished_at", "task_name", "callable_reference", "executor", "scheduler_identity",
    )}  # fmt: skip


def keyof(r: Any) -> tuple:
    return (r.task_id, r.store, int((r.scheduled_run_time - TZ.at(T0)).total_seconds() // 60))


def delta(a: dict, b: dict) -> dict:
    return {k: (a[k], b[k]) for k in a if a[k] != b[k]}


def compare(store: Any, m: Model, what: str, times: bool = True) -> dict:
    """all records against the model -> run ids by key"""
    got = store.query(limit=10_000)
    ids: dict = {}
    for r in got:
        check(keyof(r) not in ids, lambda: f"{what}: two records of the run {keyof(r)}")  # noqa: B023
        ids[keyof(r)] = r.run_id
    check(len(set(ids.values())) == len(ids), f"{what}: two runs share a record id")
    check(set(ids) == set(m.recs), lambda: f"{what}: history has the runs {sorted(ids, key=str)}, expected {sorted(m.recs, key=str)}")
    for r in got:
        a, b = plain(r), m.recs[keyof(r)]
        if not times:
            a = {k: v for k, v in a.items() if not k.endswith("_at")}
            b = {k: v for k, v in b.items() if not k.endswith("_at")}
        check(a == b, lambda: f"{what}: record of {keyof(r)}: (shown, expected) {delta(a, b)}")  # noqa: B023
        check(store.get(r.run_id) is not None and plain(store.get(r.run_id)) == plain(r), f"{what}: get({r.run_id})")
        d = r.duration_ms
        check((d is None) == (r.finished_at is None), f"{what}: duration {d} of {r.status}")
    return ids


def run_fed(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, install_run_history_listener, logs_for_run
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    store = MemoryRunHistoryStorage(maxlen=c["maxlen"])
    logs = MemoryLogStorage() if c["logs"] else None
    m = Model(c["maxlen"])
    some = False
    clock.install()
    with clock.virtual(m.now):
        s = sched.manual(identity="main-node", stores={"default": {"type": "memory"}, "b": {"type": "memory"}})
        s.start(paused=True)
        try:
            check(install_run_history_listener(s, storage=store, log_storage=logs) is store, "another storage is used")
            n = 0
            for i, o in enumerate(c["ops"]):
                what = f"after {i + 1} steps ({o})"
                if o["op"] in ("sub", "exec"):
                    s.dispatch_event(event(o))
                    words = m.report(o)
                    if logs is not None:
                        n += len(words)
                        fresh = list(logs.query(limit=10_000))
                        check(len(fresh) == n, lambda: f"{what}: {len(fresh)} log entries, expected {n}")  # noqa: B023
                        for e, w in zip(reversed(fresh[: len(words)]), words):
                            check(w in e.message and e.task_id == o["task"], lambda: f"{what}: logged {e.message!r} of {e.task_id!r}, expected {w}")  # noqa: B023
                elif o["op"] == "adv":
                    clock.advance(o["s"])
                    m.now += timedelta(seconds=o["s"])
                elif o["op"] == "clear":
                    store.clear()
                    m.recs.clear()
                elif o["op"] == "again":
                    install_run_history_listener(s, storage=store, log_storage=logs)
                elif o["op"] == "task":
                    at = (o["task"], "default")
                    if o["add"] and at not in m.tasks:
                        s.add_task("vp.targets:plain", "interval", hours=1, id=o["task"], name="Named " + o["task"], next_run_time=None)
                        m.tasks[at] = {"task_name": "Named " + o["task"], "callable_reference": "vp.targets:plain", "executor": "default"}
                    elif not o["add"] and at in m.tasks:
                        s.delete_task(o["task"])
                        del m.tasks[at]
                elif o["op"] == "query":
                    ids = compare(store, m, what)
                    q = {k: v for k, v in o.items() if k != "op"}
                    want = m.find(q, ids)
                    limit = q.get("limit", 200)
                    got = store.query(**q)
                    some |= 0 < len(want) < len(m.recs)
                    check(len(got) == min(limit, len(want)), lambda: f"{what}: {len(got)} records, expected {min(limit, len(want))}")  # noqa: B023
                    order = [r["finished_at"] or r["submitted_at"] for r in want]
                    check([r.finished_at or r.submitted_at for r in got] == order[: len(got)], lambda: f"{what}: not the newest first: {[plain(r) for r in got]}")  # noqa: B023
                    check(all(m.recs[keyof(r)] in want for r in got) and len({r.run_id for r in got}) == len(got), lambda: f"{what}: {[keyof(r) for r in got]} do not match")  # noqa: B023
                    for t in TASKS:
                        last, mine = store.latest_for_task(t) if t else None, m.find({"task_id": t}, ids)
                        if t:
                            check((last is None) == (not mine), f"{what}: latest of {t!r}")
                            check(
                                last is None or (last.finished_at or last.submitted_at) == (mine[0]["finished_at"] or mine[0]["submitted_at"]),
                                f"{what}: latest of {t!r} is not the latest",
                            )
                    if logs is not None:
                        for r in got:
                            own = [e for e in logs.query(limit=10_000) if (e.extra or {}).get("run_id") == r.run_id]
                            shown = logs_for_run(r, logs, limit=10_000)
                            check(
                                all(any(e is x for x in shown) or any((e.ts, e.message) == (x.ts, x.message) for x in shown) for e in own),
                                f"{what}: a log entry of {keyof(r)} is not shown",
                            )
                            check(all(e.task_id == r.task_id for e in shown), f"{what}: log entries of another task are shown for {keyof(r)}")
                elif o["op"] == "summary":
                    got = store.summary()
                    want = {"total": len(m.recs), **{k: sum(r["status"] == k for r in m.recs.values()) for k in ("running", "succeeded", "failed", "missed", "max_instances")}}
                    check(got == want, lambda: f"{what}: summary {got}, expected {want}")  # noqa: B023
                check(len(store.query(limit=10_000)) <= c["maxlen"], f"{what}: more records than the limit")
        finally:
            s.shutdown(False)
    return Outcome(m.twice and some, [o["op"] + ":" + o.get("code", "") for o in c["ops"] if o["op"] in ("sub", "exec")] + [f"maxlen={c['maxlen']}"])


# ------------------------------------------------------------------ races


@st.composite
def races(draw: Any) -> dict:
    def one(d: Any) -> Any:
        o = dict(d)
        o["task"], o["store"] = draw(st.sampled_from([("a", "default")] * 5 + [("b", "default")]))
        if o["op"] == "sub":
            o["ident"] = None
            o["times"] = [[draw(st.sampled_from([0, 0, 0, 1])), "UTC"]]
        else:
            o["time"] = [draw(st.sampled_from([0, 0, 0, 1])), "UTC"]
        return o

    return {
        "maxlen": draw(st.sampled_from([1, 2, 5000])),
        "pre": [one(draw(st.one_of(_sub, _exec))) for _ in range(draw(st.integers(0, 1)))],
        "a": one(draw(st.one_of(_sub, _sub, _sub, _exec))),
        "b": one(draw(st.one_of(_sub, _exec, _exec, _exec))),
    }


def run_race(c: dict) -> Outcome:
    k, lines = 0, 1
    while k <= lines:
        lines = run_race_at(c, k)
        k += 1
    same = c["a"]["task"] == c["b"]["task"] and _time(c["a"]) == _time(c["b"])
    return Outcome(same, [c["a"]["code"] + "/" + c["b"]["code"]])


def run_race_at(c: dict, k: int) -> int:
    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, install_run_history_listener

    store = MemoryRunHistoryStorage(maxlen=c["maxlen"])
    s = sched.manual(identity="main-node")
    s.start(paused=True)
    fails: list = []

    def send(o: dict) -> Any:
        def call() -> None:
            try:
                listener(event(o))
            except BaseException as e:  # noqa: BLE001
                fails.append(e)

        return call

    seen: list = []
    listener: Any = seen.append
    try:
        install_run_history_listener(s, storage=store)
        listener = s.dispatch_event
        for o in c["pre"]:
            send(o)()
        lines = preempt(send(c["a"]), send(c["b"]), k, "contrib/dashboard/", 0.002)
        check(not fails, lambda: f"a report failed: {fails}")
        orders = []
        for order in ([c["a"], c["b"]], [c["b"], c["a"]]):
            m = Model(c["maxlen"])
            for o in [*c["pre"], *order]:
                m.report(o)
            orders.append(m)
        got = {keyof(r): {k: v for k, v in plain(r).items() if not k.endswith("_at")} for r in store.query(limit=1000)}
        wants = [{k: {f: v for f, v in r.items() if not f.endswith("_at")} for k, r in m.recs.items()} for m in orders]
        check(
            got in wants,
            lambda: (
                f"{c['b']} during line {k} of {c['a']}: history {got}, neither order gives it: {[{k: delta(got[k], w[k]) if k in got else None for k in w} for w in wants]}"
            ),
        )
        for r in store.query(limit=1000):
            check((r.status == "running") == (r.finished_at is None), f"status {r.status} finished {r.finished_at}")
    finally:
        s.shutdown(False)
    return lines


def _time(o: dict) -> Any:
    return o["times"][0][0] if o["op"] == "sub" else o["time"][0]


# ------------------------------------------------------------------ live


LIVE = st.fixed_dictionaries(
    {
        "cls": st.sampled_from(["asyncio", "iso"]),
        "tasks": st.lists(
            st.fixed_dictionaries(
                {"exec": st.sampled_from(["pool", "debug", "aio"]), "kind": st.sampled_from(["ok", "fail", "slow", "late"]), "n": st.integers(1, 3), "manual": st.booleans()}
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


def live_fn(kind: str) -> Any:
    if kind == "fail":
        raise ValueError("live")
    if kind == "slow":
        time.sleep(0.03)
    return kind


async def live_afn(kind: str) -> Any:
    import asyncio

    if kind == "slow":
        await asyncio.sleep(0.03)
    return live_fn("ok" if kind == "slow" else kind)


def run_live(c: dict) -> Outcome:
    import asyncio

    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, install_run_history_listener
    from asyncz.schedulers import AsyncIOScheduler

    store = MemoryRunHistoryStorage()
    seen: list = []
    lock = threading.Lock()

    def see(e: Any) -> None:
        with lock:
            seen.append(e)

    def make() -> Any:
        s = AsyncIOScheduler(
            timezone="UTC",
            identity="live",
            isolated_event_loop=c["cls"] == "iso",
            executors={"pool": {"type": "pool", "max_workers": 4}, "debug": {"type": "debug"}, "aio": {"type": "asyncio"}},
        )
        s.add_listener(see, mask=sum(CODES.values()))
        install_run_history_listener(s, storage=store)
        return s

    def add(s: Any) -> None:
        for i, t in enumerate(c["tasks"]):
            for n in range(t["n"]):
                late = timedelta(seconds=30 if t["kind"] == "late" else 0)
                s.add_task(
                    live_afn if t["exec"] == "aio" else live_fn,
                    "date",
                    args=[t["kind"]],
                    run_at=datetime.now(timezone.utc) - late + timedelta(milliseconds=3 * n),
                    id=f"t{i}.{n}",
                    executor=t["exec"],
                    mistrigger_grace_time=5,
                )
            if t["manual"]:
                s.add_task(live_afn if t["exec"] == "aio" else live_fn, "interval", args=[t["kind"]], hours=1, id=f"t{i}.m", executor=t["exec"], next_run_time=None)
                s.run_task(f"t{i}.m", force=True)

    total = sum(t["n"] + t["manual"] for t in c["tasks"])

    def over() -> bool:
        with lock:
            return sum(not hasattr(e, "scheduled_run_times") for e in seen) >= total

    def flow(s: Any) -> None:
        end = time.monotonic() + 20
        while not over() and time.monotonic() < end:
            time.sleep(0.005)

    if c["cls"] == "iso":
        s = make()
        s.start()
        try:
            add(s)
            flow(s)
        finally:
            s.shutdown()
    else:

        async def main() -> None:
            s = make()
            s.start()
            try:
                add(s)
                end = time.monotonic() + 20
                while not over() and time.monotonic() < end:
                    await asyncio.sleep(0.005)
            finally:
                s.shutdown()

        asyncio.run(main())
    check(over(), lambda: f"not every run was reported: {seen}")

    def views() -> tuple:
        want: dict = {}
        with lock:
            for e in seen:
                if hasattr(e, "scheduled_run_times"):
                    for t in e.scheduled_run_times:
                        want.setdefault((e.task_id, t), {})["source"] = e.source or "scheduled"
                else:
                    want.setdefault((e.task_id, e.scheduled_run_time), {})["status"] = {CODES[k]: v for k, v in STATUS.items()}[e.code]
        return {(r.task_id, r.scheduled_run_time): {"source": r.source, "status": r.status} for r in store.query(limit=1000)}, want

    # submissions are reported by the scheduler, outcomes by the workers
    end = time.monotonic() + 10
    while True:
        got, want = views()
        if (got == want and all(len(v) == 2 for v in want.values())) or time.monotonic() > end:
            break
        time.sleep(0.002)
    check(got == want, lambda: f"history {got}, observed {want}")
    check(len(got) == total == store.summary()["total"] and store.summary()["running"] == 0, lambda: f"{total} runs, summary {store.summary()}")
    for r in store.query(limit=1000):
        check(r.submitted_at - r.finished_at < timedelta(seconds=1) and r.store == "default", f"{r}")
    return Outcome(len({v["status"] for v in got.values()}) > 1, sorted({v["status"] for v in got.values()}))


PARTS = [
    Part("fed", fed, run_fed, quick=3000, thorough=60000),
    Part("race", races, run_race, quick=100, thorough=3000),
    Part("live", lambda: LIVE, run_live, quick=80, thorough=2000),
]
