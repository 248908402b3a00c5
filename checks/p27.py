"""P27: log, event and audit views return exactly the matching latest entries."""

from __future__ import annotations

import contextlib
import logging
import os
import time
from datetime import datetime, timedelta, timezone
from typing import Any

from hypothesis import strategies as st

from vp import clock, sched
from vp import tz as TZ
from vp.preempt import preempt
from vp.runner import Outcome, Part, check
from vp.taskgen import T0

PROPERTY = "P27"
RULE = (
    "store: a history of appends (as entries and as mappings with missing, naive or malformed parts), queries with any filters and limits, summaries and clears on a log, "
    "event or audit storage of a small or large limit, compared with a list. race: two such calls, the second let in at every line of the first in turn, give what one of the two orders "
    "gives. events: one or two schedulers with an installed event listener, run through generated operations; the records are those of a second listener, in order, once. "
    "handler: a log handler installed (again) with levels and storages, and calls of plain and task loggers with any extra, arguments and other handlers around. "
    "Non-trivial: store: a query gave some but not all kept entries; race: one of the calls changed the storage; events: five records of two categories; handler: an entry was kept and one was not."
)

ZONES = ["UTC", "Asia/Kolkata"]
IDS = ["a", "b", "a b", "A", ""]
WORDS = ["start", "Start of a", "done", "", "50%", "naïve ÄÖ", "a\nb"]
LEVELS = ["INFO", "error", "Warning", "DEBUG", "X"]
MAXLEN = [1, 2, 3, 10, 1000]
CODES = {
    1: "scheduler.started", 2: "scheduler.shutdown", 4: "scheduler.paused", 8: "scheduler.resumed", 16: "executor.added", 32: "executor.removed", 64: "store.added",
    128: "store.removed", 256: "task.all_removed", 512: "task.added", 1024: "task.removed", 2048: "task.modified", 4096: "task.executed", 8192: "task.error", 16384: "task.missed",
    32768: "task.submitted", 65536: "task.max_instances",
}  # fmt: skip
TERMINAL = ("task.executed", "task.error", "task.missed", "task.max_instances", "scheduler.shutdown")


def when(w: Any) -> Any:
    """minute, zone -> datetime"""
    at = TZ.at(T0) + timedelta(minutes=w[0])
    return at.astimezone(TZ.zone(w[1]))


_time = st.tuples(st.integers(-2, 4), st.sampled_from(["UTC", "Europe/Berlin", "Asia/Kolkata"]))
_limit = st.sampled_from([0, 1, 1, 2, 3, 200])

LOG = {
    "append": st.fixed_dictionaries(
        {
            "ts": _time,
            "level": st.sampled_from(LEVELS),
            "message": st.sampled_from(WORDS),
            "logger": st.sampled_from(["asyncz", "asyncz.x"]),
            "task_id": st.sampled_from([*IDS, None]),
            "extra": st.sampled_from([None, {}, {"run_id": "r1"}, {"run_id": "r2", "k": 1}, {"run_id": 7}, {"run_id": 7, "k": 2}, {"other": "r1"}]),
            "form": st.sampled_from(["entry", "dict", "dict", "less", "naive", "odd"]),
        }
    ),
    "query": st.fixed_dictionaries(
        {},
        optional={
            "task_id": st.sampled_from(IDS),
            "run_id": st.sampled_from(["r1", "r2", "7", "7", "", "zz"]),
            "level": st.sampled_from(["INFO", "info", "Error", "WARNING", "", "x"]),
            "q": st.sampled_from(["start", "START", " done ", "a", "%", "Ä", "zz", "", "\n", "a b"]),
            "since": _time,
            "until": _time,
            "limit": _limit,
        },
    ),
}
AUDIT = {
    "append": st.fixed_dictionaries(
        {"action": st.sampled_from(["task.pause", "task.run_all", "login"]), "status": st.sampled_from(["succeeded", "failed", "warning", "other"])},
        optional={
            "target_type": st.sampled_from(["task", "session"]),
            "target_id": st.sampled_from([*IDS, "Job-Zü", None]),
            "message": st.sampled_from([*WORDS, None]),
            "actor": st.sampled_from(["dashboard", "Me"]),
            "details": st.sampled_from([None, {}, {"k": ["v"]}]),
        },
    ),
    "query": st.fixed_dictionaries(
        {},
        optional={
            "action": st.sampled_from(["task.pause", " TASK.PAUSE", "task", "login", "", " "]),
            "status": st.sampled_from(["succeeded", "Failed ", "warning", "other", "", "zz"]),
            "q": st.sampled_from(["start", "ME", "task", "session", " art ", "job-zü", "pause", "Ä", "zz", "", "_"]),
            "limit": _limit,
        },
    ),
}
EVENT = {
    "append": st.fixed_dictionaries(
        {
            "code": st.sampled_from(sorted(CODES)),
            "alias": st.sampled_from([None, "default", "other", ""]),
            "task_id": st.sampled_from(IDS),
            "store": st.sampled_from([None, "default", "sql"]),
            "times": st.lists(_time, max_size=2),
            "source": st.sampled_from([None, "manual"]),
            "co": st.integers(0, 2),
            "value": st.sampled_from([None, 0, "Text", "v" * 600]),
            "error": st.sampled_from([None, "bad thing"]),
            "ident": st.sampled_from([None, "node-2"]),
        }
    ),
    "query": st.fixed_dictionaries(
        {},
        optional={
            "category": st.sampled_from(["task", "Scheduler ", "executor", "store", "", "zz"]),
            "name": st.sampled_from(["task.added", " TASK.ERROR", "scheduler.started", "task", "", "store.added"]),
            "task_id": st.sampled_from(IDS),
            "q": st.sampled_from(["task", "ADDED", "other", "sql", "node-2", "main-node", "text", "D THING", "manual", " other ", "zz", "", "2020-09-13", "valueerror"]),
            "limit": _limit,
        },
    ),
}
KINDS = {"log": LOG, "audit": AUDIT, "event": EVENT}


def text(f: Any, v: Any) -> Any:
    if v is None:
        return None
    t = f(v)
    return t if len(t) <= 500 else t[:497] + "..."


def described(e: Any) -> tuple:
    """what a record of this event has to say"""
    name = CODES[e.code]
    task = name.startswith("task.") and name != "task.all_removed"
    category = "task" if task else "scheduler" if name == "task.all_removed" else name.split(".")[0]
    details: dict = {}
    if hasattr(e, "scheduled_run_times"):
        details = {
            "source": e.source or "unknown", "submitted_run_count": len(e.scheduled_run_times), "coalesced_run_count": e.coalesced_run_count,
            "scheduled_run_times": [t.isoformat() for t in e.scheduled_run_times],
        }  # fmt: skip
    elif hasattr(e, "scheduled_run_time"):
        x = e.exception
        details = {
            "scheduled_run_time": e.scheduled_run_time.isoformat(), "return_value": text(repr, e.return_value),
            "exception_type": None if x is None else type(x).__qualname__, "exception_message": text(str, x),
        }  # fmt: skip
    return e.code, name, category, e.alias, getattr(e, "task_id", None) if task else None, getattr(e, "store", None) if task else None, details


def shown(r: Any) -> tuple:
    return r.code, r.name, r.category, r.alias, r.task_id, r.store, r.details


class Box:
    """one of the storages next to its model, a list"""

    def __init__(self, kind: str, maxlen: int, scheduler: Any = None) -> None:
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

        self.kind, self.maxlen, self.scheduler = kind, maxlen, scheduler
        self.storage: Any = {"log": MemoryLogStorage, "audit": MemoryAuditTrailStorage, "event": MemorySchedulerEventStorage}[kind](maxlen=maxlen)

    def entry(self, a: dict) -> Any:
        """the argument for the storage, the entry it has to become"""
        if self.kind == "audit":
            return a, {"target_type": "task", "target_id": None, "message": None, "actor": "dashboard", **a, "details": a.get("details") or {}}
        if self.kind == "event":
            from asyncz.events.base import SchedulerEvent, TaskEvent, TaskExecutionEvent, TaskSubmissionEvent

            name, ident = CODES[a["code"]], {"scheduler_identity": a["ident"]} if a["ident"] else {}
            own = dict(code=a["code"], alias=a["alias"])
            if not name.startswith("task.") or name == "task.all_removed":
                e: Any = SchedulerEvent(**own)
            elif name in ("task.submitted", "task.max_instances"):
                e = TaskSubmissionEvent(**own, task_id=a["task_id"], store=a["store"], scheduled_run_times=[when(t) for t in a["times"]], source=a["source"], coalesced_run_count=a["co"], **ident)
            elif name in ("task.executed", "task.error", "task.missed"):
                x = ValueError(a["error"]) if a["error"] else None
                e = TaskExecutionEvent(**own, task_id=a["task_id"], store=a["store"], scheduled_run_time=when((a["times"] or [(0, "UTC")])[0]), return_value=a["value"], exception=x, **ident)
            else:
                e = TaskEvent(**own, task_id=a["task_id"], store=a["store"], **ident)
            d = described(e)
            return e, {"shown": d, "category": d[2], "name": d[1], "task_id": d[4], "alias": d[3], "store": d[5], "details": d[6], "ident": a["ident"] if d[2] == "task" else "main-node"}
        from asyncz.contrib.dashboard.logs.storage import LogEntry

        e = {k: a[k] for k in ("ts", "level", "message", "logger", "task_id", "extra")}
        e["ts"] = when(a["ts"])
        want = dict(e)
        if a["form"] == "entry":
            return LogEntry(**e), want
        if a["form"] == "less":
            del e["level"], e["logger"], e["extra"]
            want.update(level="INFO", logger="", extra=None)
        elif a["form"] == "naive":
            e["ts"] = e["ts"].astimezone(timezone.utc).replace(tzinfo=None)
        elif a["form"] == "odd":
            e.update(ts="soon", message=17, extra=["x"])
            want.update(ts=None, message="17", extra=None)
        return e, want

    def append(self, arg: Any) -> Any:
        if self.kind == "audit":
            return self.storage.append(**arg)
        if self.kind == "event":
            return self.storage.append(arg, scheduler=self.scheduler)
        return self.storage.append(arg)

    def plain(self, r: Any) -> Any:
        if self.kind == "audit":
            return {k: getattr(r, k) for k in ("action", "status", "target_type", "target_id", "message", "actor", "details")}
        if self.kind == "event":
            return shown(r)
        return {k: getattr(r, k) for k in ("ts", "level", "message", "logger", "task_id", "extra")}

    def same(self, r: Any, want: dict) -> bool:
        got = self.plain(r)
        if self.kind == "event":
            return got == want["shown"] and r.scheduler_identity == want["ident"]
        if self.kind == "log" and want["ts"] is None:
            return abs((got.pop("ts") - clock.now()).total_seconds()) < 3600 and got == {k: v for k, v in want.items() if k != "ts"}
        return got == want

    def fits(self, w: dict, q: dict, ids: Any = None) -> bool:
        n = q.get("q", "").strip().lower()
        if self.kind == "log":
            ts = w["ts"] or clock.now()
            x = w["extra"] or {}
            return (
                (not q.get("task_id") or w["task_id"] == q["task_id"])
                and (not q.get("run_id") or ("run_id" in x and str(x["run_id"]) == q["run_id"]))
                and (not q.get("level") or w["level"].lower() == q["level"].lower())
                and ("since" not in q or ts >= when(q["since"]))
                and ("until" not in q or ts <= when(q["until"]))
                and n in w["message"].lower()
            )
        if self.kind == "audit":
            hay = [w[k] or "" for k in ("action", "status", "target_type", "target_id", "message", "actor")]
            return all(not (v := q.get(k, "").strip().lower()) or w[k] == v for k in ("action", "status")) and any(n in h.lower() for h in hay)
        hay = [w[k] or "" for k in ("name", "category", "alias", "task_id", "store")] + [w["ident"] or ""] + [str(v) for v in w["details"].items() if v[1] is not None]
        return (
            all(not (v := q.get(k, "").strip().lower()) or w[k] == v for k in ("category", "name"))
            and (not q.get("task_id") or w["task_id"] == q["task_id"])
            and any(n in h.lower() for h in hay)
        )

    def query(self, q: dict) -> list:
        q = dict(q)
        for k in ("since", "until"):
            if k in q:
                q[k] = when(q[k])
        return list(self.storage.query(**q))

    def wanted(self, kept: list, q: dict) -> list:
        return [w for w in reversed(kept) if self.fits(w, q)][: q.get("limit", 200)]

    def summary(self, kept: list) -> dict:
        if self.kind == "audit":
            return {"total": len(kept), **{k: sum(w["status"] == k for w in kept) for k in ("succeeded", "failed", "warning")}}
        return {
            "total": len(kept), "scheduler": sum(w["category"] == "scheduler" for w in kept), "task": sum(w["category"] == "task" for w in kept),
            "terminal": sum(w["name"] in TERMINAL for w in kept),
        }  # fmt: skip


@st.composite
def stores(draw: Any) -> dict:
    kind = draw(st.sampled_from(sorted(KINDS)))
    g = KINDS[kind]
    step = st.one_of(
        st.tuples(st.just("append"), g["append"]), st.tuples(st.just("append"), g["append"]), st.tuples(st.just("query"), g["query"]),
        st.tuples(st.sampled_from(["summary", "clear"]), st.none()) if draw(st.booleans()) else st.tuples(st.just("query"), g["query"]),
    )  # fmt: skip
    ops = [["append", draw(g["append"])] for _ in range(draw(st.integers(0, 4)))] + [list(x) for x in draw(st.lists(step, min_size=1, max_size=12))]
    return {"kind": kind, "maxlen": draw(st.sampled_from(MAXLEN)), "local": draw(st.sampled_from(ZONES)), "ops": [*ops, ["query", draw(g["query"])], ["summary", None]]}


def scheduler() -> Any:
    return sched.manual(identity="main-node")


@contextlib.contextmanager
def local(zone: str) -> Any:
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        yield
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


def run_store(c: dict) -> Outcome:
    some = False
    clock.install()
    with local(c["local"]), clock.virtual(TZ.at(T0)):
        box = Box(c["kind"], c["maxlen"], scheduler())
        kept: list = []
        records: list = []
        for i, (op, arg) in enumerate(c["ops"]):
            what = f"step {i} ({op} {arg})"
            if op == "append":
                a, want = box.entry(arg)
                r = box.append(a)
                kept = [*kept, want][-c["maxlen"] :]
                if r is not None:
                    check(box.same(r, want), lambda: f"{what}: made {box.plain(r)}, expected {want}")  # noqa: B023
                    records = [*records, r][-c["maxlen"] :]
            elif op == "clear":
                box.storage.clear()
                kept, records = [], []
            elif op == "summary" and c["kind"] != "log":
                got, want = box.storage.summary(), box.summary(kept)
                check(got == want, lambda: f"{what}: {got}, expected {want}")  # noqa: B023
            elif op == "query":
                got, want = box.query(arg), box.wanted(kept, arg)
                some |= 0 < len(want) < len(kept)
                check(len(got) == len(want) and all(box.same(a, b) for a, b in zip(got, want)), lambda: f"{what}: gives {[box.plain(r) for r in got]}, expected {want}")  # noqa: B023
                if arg == {} and records:
                    check(got == records[::-1], f"{what}: other records than those made")
            full = box.query({"limit": 10_000})
            check(len(full) == len(kept) and all(box.same(a, b) for a, b in zip(full, reversed(kept))), lambda: f"{what}: keeps {[box.plain(r) for r in full]}, expected {kept[::-1]}")  # noqa: B023
    return Outcome(some, [c["kind"], f"maxlen={c['maxlen']}"])


# ------------------------------------------------------------------ races


@st.composite
def races(draw: Any) -> dict:
    kind = draw(st.sampled_from(sorted(KINDS)))
    g = KINDS[kind]
    change = st.one_of(st.tuples(st.just("append"), g["append"]), st.tuples(st.just("append"), g["append"]), st.just(("clear", None)))
    look = st.one_of(st.tuples(st.just("query"), g["query"]), st.just(("query", {})), st.just(("summary", None)))
    a, b = draw(st.sampled_from([(change, look), (look, change), (change, change)]))
    maxlen = draw(st.sampled_from(MAXLEN[:3]))
    return {"kind": kind, "maxlen": maxlen, "pre": draw(st.lists(g["append"], min_size=maxlen - 1, max_size=maxlen)), "a": list(draw(a)), "b": list(draw(b)), }


def run_race(c: dict) -> Outcome:
    k, lines = 0, 1
    while k <= lines:
        lines = run_race_at(c, k)
        k += 1
    return Outcome(True, [c["kind"], c["a"][0] + "/" + c["b"][0]])


def run_race_at(c: dict, k: int) -> int:
    clock.install()
    with clock.virtual(TZ.at(T0)):
        box = Box(c["kind"], c["maxlen"], scheduler())
        kept = []
        for x in c["pre"]:
            a, want = box.entry(x)
            box.append(a)
            kept = [*kept, want][-c["maxlen"] :]
        results: dict = {}

        def call(name: str) -> Any:
            op, arg = c[name]
            a = box.entry(arg)[0] if op == "append" else None

            def go() -> None:
                try:
                    if op == "append":
                        box.append(a)
                        results[name] = None
                    elif op == "clear":
                        results[name] = box.storage.clear()
                    elif op == "summary":
                        results[name] = box.storage.summary() if c["kind"] != "log" else None
                    else:
                        results[name] = box.query(arg)
                except BaseException as e:  # noqa: BLE001
                    results[name] = e

            return go

        lines = preempt(call("a"), call("b"), k, "contrib/dashboard/", 0.001)
        for x in results.values():
            check(not isinstance(x, BaseException), lambda: f"a call failed: {x!r}")  # noqa: B023
        full = box.query({"limit": 1000})
        why = []
        for order in ("ab", "ba"):
            now = list(kept)
            problems = []
            for n in order:
                op, arg = c[n]
                if op == "append":
                    now = [*now, box.entry(arg)[1]][-c["maxlen"] :]
                elif op == "clear":
                    now = []
                elif op == "summary":
                    if c["kind"] != "log" and results[n] != box.summary(now):
                        problems.append((n, results[n], box.summary(now)))
                else:
                    want = box.wanted(now, arg)
                    if len(want) != len(results[n]) or not all(box.same(x, y) for x, y in zip(results[n], want)):
                        problems.append((n, [box.plain(x) for x in results[n]], want))
            if len(full) != len(now) or not all(box.same(x, y) for x, y in zip(full, now[::-1])):
                problems.append(("end", [box.plain(x) for x in full], now[::-1]))
            if not problems:
                break
            why.append(problems)
        else:
            check(False, f"{c['b']} during line {k} of {c['a']}: in neither order: {why}")
    return lines


# ------------------------------------------------------------------ events of schedulers

OPS = {
    "start": lambda s, x: s.start(), "startp": lambda s, x: s.start(paused=True), "pause": lambda s, x: s.pause(), "resume": lambda s, x: s.resume(), "stop": lambda s, x: s.shutdown(False),
    "add": lambda s, x: s.add_task("vp.targets:plain", "interval", hours=1, id=x, replace_existing=True), "date": lambda s, x: s.add_task("vp.targets:boom", "date", id=x, replace_existing=True),
    "late": lambda s, x: s.add_task("vp.targets:plain", "date", run_at=TZ.at(T0) - timedelta(days=1), id=x, replace_existing=True, mistrigger_grace_time=1),
    "update": lambda s, x: s.update_task(x, name="n"), "delete": lambda s, x: s.delete_task(x), "clear": lambda s, x: s.remove_all_tasks(), "run": lambda s, x: s.run_task(x, force=True),
    "tpause": lambda s, x: s.pause_task(x), "tresume": lambda s, x: s.resume_task(x), "store": lambda s, x: s.add_store("memory", "s" + x), "unstore": lambda s, x: s.remove_store("s" + x),
    "exec": lambda s, x: s.add_executor("debug", "e" + x), "unexec": lambda s, x: s.remove_executor("e" + x), "adv": lambda s, x: clock.advance(1800) and None, "round": lambda s, x: s.process_tasks(),
}  # fmt: skip

_names = sorted(OPS) + ["add", "date", "late", "round", "round", "start", "adv"]
EVENTS = st.fixed_dictionaries(
    {
        "two": st.booleans(),
        "maxlen": st.sampled_from([3, 10_000, 10_000]),
        "ops": st.lists(st.tuples(st.integers(0, 1), st.sampled_from([*_names, "install", "move"]), st.sampled_from(["a", "b"])), min_size=3, max_size=25),
    }
)


def run_events(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, get_scheduler_event_storage, install_scheduler_event_listener
    from asyncz.events.constants import ALL_EVENTS

    clock.install()
    with clock.virtual(TZ.at(T0)):
        stores = [MemorySchedulerEventStorage(maxlen=c["maxlen"]) for _ in range(2)]
        wants: list = [[], []]
        at = 0
        ss = []

        def watch(n: int) -> Any:
            def see(e: Any) -> None:
                wants[target[n]].append((n, e))

            return see

        target = [0, 0]
        for n in range(2 if c["two"] else 1):
            s = sched.manual(identity=f"node-{n}", executors={"default": {"type": "debug"}})
            s.add_listener(watch(n), ALL_EVENTS)
            check(install_scheduler_event_listener(s, storage=stores[0]) is stores[0], "another storage is used")
            ss.append(s)
        count = 0
        try:
            for n, op, x in c["ops"]:
                n %= len(ss)
                if op == "install":
                    install_scheduler_event_listener(ss[n], storage=stores[target[n]])
                elif op == "move":
                    at = target[n] = 1 - target[n]
                    install_scheduler_event_listener(ss[n], storage=stores[at])
                    check(get_scheduler_event_storage() is stores[at], "the storage is not the installed one")
                else:
                    try:
                        OPS[op](ss[n], x)
                    except Exception:  # noqa: BLE001, S110
                        pass
                for i in range(2):
                    got = stores[i].query(limit=10_000)[::-1]
                    want = wants[i][-c["maxlen"] :]
                    check(
                        [shown(r) for r in got] == [described(e) for _, e in want], lambda: f"after {op}: records {[shown(r) for r in got]}, expected {[described(e) for _, e in want]}"  # noqa: B023
                    )
                    for r, (m, _) in zip(got, want):
                        check(r.scheduler_identity == f"node-{m}", lambda: f"{r} is of node-{m}")  # noqa: B023
                        check(abs((r.observed_at - clock.now()).total_seconds()) < 86400 * 2, f"observed at {r.observed_at}")
                    count = max(count, len({r.category for r in got}) * (len(got) >= 5))
        finally:
            for s in ss:
                if s.running:
                    s.shutdown(False)
    return Outcome(count > 1, [op for _, op, _ in c["ops"]])


# ------------------------------------------------------------------ handler and task loggers

_extra = st.dictionaries(
    st.sampled_from(["task_id", "job_id", "asyncz_task_id", "run_id", "k", "_hidden", "user"]), st.sampled_from(["a", "b", "", None, 7, 0, [1]]), max_size=3
)
_call = st.fixed_dictionaries(
    {
        "op": st.just("log"),
        "logger": st.sampled_from(["asyncz", "asyncz.vp", "asyncz.vp.deep", "vp27"]),
        "task": st.sampled_from([None, "t1", "t2"]),
        "level": st.sampled_from([5, 10, 20, 20, 30, 40, 50]),
        "msg": st.sampled_from([["plain"], ["%s and %d", "x", 3], ["100%"], ["%(k)s", {"k": "v"}], ["%d", "bad"], [""]]),
        "extra": st.one_of(st.none(), _extra, _extra),
        "shared": st.booleans(),
        "exc": st.booleans(),
    }
)
HANDLER = st.fixed_dictionaries(
    {
        "before": st.sampled_from([0, 10, 30]),
        "local": st.sampled_from(ZONES),
        "other": st.sampled_from([None, "first", "last"]),
        "ops": st.lists(
            st.one_of(_call, _call, _call, st.fixed_dictionaries({"op": st.just("install"), "level": st.sampled_from([10, 20, 30, 40]), "storage": st.integers(0, 1)})), min_size=1, max_size=10
        ),
        "first": st.sampled_from([10, 20, 30]),
    }
)


class Null(logging.Handler):
    """formats, as any other handler would"""

    def emit(self, record: logging.LogRecord) -> None:
        try:
            logging.Formatter("%(asctime)s %(message)s").format(record)
        except Exception:  # noqa: BLE001, S110
            pass


def run_handler(c: dict) -> Outcome:
    with local(c["local"]):
        return _run_handler(c)


def _run_handler(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.logs import handler as mod
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    root = logging.getLogger("asyncz")
    saved = (root.level, list(root.handlers), root.propagate, mod._handler)
    stores = [MemoryLogStorage(), MemoryLogStorage()]
    wants: list = [[], []]
    raising, logging.raiseExceptions = logging.raiseExceptions, False
    kept = dropped = 0
    null = Null()
    try:
        mod._handler = None
        root.handlers[:] = [null] if c["other"] == "first" else []
        root.setLevel(c["before"])
        root.propagate = False
        lowest, level, at = c["before"] or 100, 100, 0
        shared: dict = {"k": "shared"}
        for o in [{"op": "install", "level": c["first"], "storage": 0}, *c["ops"]]:
            if o["op"] == "install":
                level, at = o["level"], o["storage"]
                lowest = min(lowest, level)
                h = mod.install_task_log_handler(stores[at], level=level)
                root.propagate = False
                check(sum(x is h for x in root.handlers) == 1 and len(root.handlers) == 1 + (null in root.handlers), f"handlers {root.handlers}")
                if c["other"] == "last" and null not in root.handlers:
                    root.addHandler(null)
                continue
            extra = shared if o["shared"] else None if o["extra"] is None else dict(o["extra"])
            before = None if extra is None else dict(extra)
            lg: Any = mod.get_task_logger(o["task"], o["logger"]) if o["task"] else logging.getLogger(o["logger"])
            t = datetime.now(timezone.utc)
            try:
                raise ValueError("x")
            except ValueError:
                lg.log(o["level"], *o["msg"], exc_info=o["exc"], **({} if extra is None else {"extra": extra}))
            check(extra == before, f"the extra of the caller {before} became {extra}")
            try:
                full = o["msg"][0] % (o["msg"][1] if isinstance(o["msg"][-1], dict) else tuple(o["msg"][1:])) if len(o["msg"]) > 1 else o["msg"][0]
            except TypeError:
                full = None
            if o["logger"].startswith("asyncz") and o["level"] >= max(level, lowest) and full is not None:
                x = dict(before or {})
                if o["task"]:
                    x.setdefault("task_id", o["task"])
                ids = [x[k] for k in ("task_id", "job_id", "asyncz_task_id") if x.get(k)]
                wants[at].append(
                    (logging.getLevelName(o["level"]), o["logger"], full, str(ids[0]) if ids else None, {k: v for k, v in x.items() if not k.startswith("_")} or None)
                )
                kept += 1
            else:
                dropped += 1
            for i in range(2):
                got = [(e.level, e.logger, e.message, e.task_id, e.extra) for e in stores[i].query(limit=1000)][::-1]
                check(got == wants[i], lambda: f"after {o}: entries {got}, expected {wants[i]}")  # noqa: B023
            if kept and stores[at].buffer:
                e = next(iter(stores[at].query(limit=1)))
                check(e.ts.tzinfo is not None and e.ts <= datetime.now(timezone.utc) + timedelta(seconds=1) and t - e.ts < timedelta(seconds=60), f"time {e.ts}")
    finally:
        logging.raiseExceptions = raising
        root.setLevel(saved[0])
        root.handlers[:] = saved[1]
        root.propagate = saved[2]
        mod._handler = saved[3]
    return Outcome(kept > 0 and dropped > 0, [f"other={c['other']}"])


PARTS = [
    Part("store", stores, run_store, quick=3000, thorough=60000),
    Part("race", races, run_race, quick=150, thorough=3000),
    Part("events", lambda: EVENTS, run_events, quick=1200, thorough=25000),
    Part("handler", lambda: HANDLER, run_handler, quick=1500, thorough=30000),
]
