"""P28: operating a scheduler remotely equals operating it locally."""

from __future__ import annotations

import base64
import json
import pickle
from datetime import datetime, timedelta, timezone
from typing import Any
from urllib.parse import quote, urlencode

from hypothesis import strategies as st

from vp import clock, sched, targets, web
from vp import tz as TZ
from vp.runner import Outcome, Part, check
from vp.taskgen import T0

PROPERTY = "P28"
RULE = (
    "step: generated histories of all operations of the remote client (ids with every kind of character, present and missing tasks and stores, references and functions, triggers as "
    "names with arguments and as objects, every option left out, None, right or wrong), pauses and restarts of the scheduler and passing time on two equally configured schedulers, "
    "one operated directly, one through the client over the control app, in process or over HTTP: after every operation results, refusals, tasks, events and calls made are equal. "
    "token: requests of all routes with all kinds of tokens are answered only with the right one, others without effect. wire: malformed requests are refused with an error payload, "
    "without effect. broken: connections and answers that fail are RemoteSchedulerErrors. "
    "run: tasks with and without further runs are run with every combination of options. Non-trivial: step, run: an operation changed something and another was refused or a run was made; token: a request was refused and one served; wire, broken: all."
)

IDS = ["a", "job 1", "x", "x/y", "x/preview", "50%", "a%2Fb", "a/b", "ünï", "a?b#c&d", "a+b", "..x", "run"]
PLAIN = "vp.targets:plain"


class Thing:
    """has no JSON form"""

    def __repr__(self) -> str:
        return "<thing>"


def moment(w: Any) -> Any:
    if w is None or isinstance(w, str):
        return w
    at = TZ.at(T0) + timedelta(minutes=w[0], microseconds=w[0] & 1)
    if w[1] == "naive":
        return at.replace(tzinfo=None)
    if w[1] == "text":
        return at.strftime("%Y-%m-%dT%H:%M:%S.%f") if w[0] & 2 else at.strftime("%Y-%m-%d %H:%M:%S")
    if w[1] == "offset":
        return at.astimezone(timezone(timedelta(hours=5, minutes=30)))
    return at.astimezone(TZ.zone(w[1]))


_arg_time = st.tuples(st.integers(-5, 90), st.sampled_from(["UTC", "naive", "text", "offset"]))
_time = st.tuples(st.integers(-5, 90), st.sampled_from(["UTC", "naive", "text", "offset", "Europe/Berlin"]))
_trigger = st.one_of(
    st.just([None, {}]),
    st.tuples(st.just("interval"), st.sampled_from([{"hours": 1}, {"minutes": 20}, {"seconds": 0.5}, {"hours": "x"}, {"nope": 1}, {"minutes": 7, "timezone": "Europe/Berlin"}])),
    st.tuples(st.just("interval"), st.fixed_dictionaries({"minutes": st.integers(1, 90), "start_at": _arg_time}, optional={"end_at": _arg_time})),
    st.tuples(st.just("date"), st.fixed_dictionaries({}, optional={"run_at": st.one_of(_arg_time, st.sampled_from(["never", None]))})),
    st.tuples(st.just("cron"), st.sampled_from([{"hour": "3"}, {"minute": "*/7", "timezone": "Asia/Kolkata"}, {"minute": "x"}, {"day": 31, "month": "feb"}])),
    st.tuples(st.sampled_from(["nope", "shutdown", ""]), st.just({})),
    st.tuples(st.just("object"), st.sampled_from([{"interval": 20}, {"date": 5}, {"date": -5}, {"cron": "7"}, {"and": 1}])),
)
_args = st.sampled_from([None, [], [1], ["x", None], [{"k": [1, 2.5]}], [1, 2, 3, 4], "text", 7])
_kwargs = st.sampled_from([None, {}, {"key": 1}, {"nope": 1}, {"ü": "x y"}])
_fn = st.sampled_from([PLAIN, "vp.targets:one", "vp.targets:two", "vp.targets:anyargs", "vp.targets:anyargs", "vp.targets:nope", "nope", "f:one", "f:anyargs", "f:static"])
_grace = st.sampled_from([None, 1, 60, 0.5, 0, -1, "x"])
_max = st.sampled_from([1, 1, 2, 3, 0, "x", None])
_store = st.sampled_from([None, None, "default", "second", "nope"])
_exec = st.sampled_from(["default", "rec", "rec", "nope", None])
_name = st.sampled_from(["name", "Ü %/", "", None, 5])
_next = st.one_of(st.none(), st.none(), _time, st.just("soon"))

_id = st.one_of(st.sampled_from(IDS[:2]), st.sampled_from(IDS[:2]), st.sampled_from(IDS[:4]), st.sampled_from(IDS))
_add = st.fixed_dictionaries(
    {"op": st.just("add"), "id": _id, "fn": _fn, "trigger": _trigger},
    optional={
        "args": _args, "kwargs": _kwargs, "name": _name, "mistrigger_grace_time": _grace, "coalesce": st.sampled_from([True, False]), "max_instances": _max, "next_run_time": _next,
        "store": _store, "executor": _exec, "replace_existing": st.booleans(),
    },
)  # fmt: skip
_good = st.fixed_dictionaries(
    {"op": st.just("add"), "id": _id, "fn": st.just("vp.targets:anyargs"), "trigger": st.sampled_from([["interval", {"minutes": 20}], ["interval", {"minutes": 20}], ["object", {"date": 5}]])},
    optional={"executor": st.just("rec"), "store": st.just("second"), "next_run_time": st.none(), "replace_existing": st.just(True), "args": st.just([1])},
)
_update = st.fixed_dictionaries(
    {"op": st.just("update"), "id": _id, "store": _store, "more": st.fixed_dictionaries(
        {}, optional={
            "args": _args, "kwargs": _kwargs, "name": _name, "mistrigger_grace_time": _grace, "coalesce": st.sampled_from([True, False]), "max_instances": _max, "next_run_time": _next,
            "executor": _exec, "fn": _fn, "trigger": _trigger.filter(lambda t: t[0] == "object"), "id": st.just("other"), "nope": st.just(1),
        },
    )},
)  # fmt: skip
_act = st.one_of(
    *(st.fixed_dictionaries({"op": st.just(k), "id": _id, "store": _store, "proxy": st.booleans()}) for k in ("pause", "resume", "delete", "run", "get", "lookup", "info"))
)
_run = st.fixed_dictionaries({"op": st.just("run"), "id": _id, "store": _store, "proxy": st.booleans()}, optional={"force": st.booleans(), "remove_finished": st.booleans()})
_run_flags = st.fixed_dictionaries({"op": st.just("run"), "id": st.sampled_from(IDS[:2]), "store": st.none(), "proxy": st.booleans(), "force": st.booleans(), "remove_finished": st.booleans()})
_preview = st.fixed_dictionaries({"op": st.just("preview"), "id": _id, "store": _store}, optional={"count": st.sampled_from([0, 1, 3, 50, 51]), "now": _time.filter(lambda t: t[1] != "text")})
_list = st.fixed_dictionaries(
    {"op": st.just("list")},
    optional={
        "store": _store, "schedule_state": st.sampled_from(["paused", "scheduled", "pending", "nope", None, "enum"]), "executor": st.sampled_from(["rec", "nope"]), "trigger": st.sampled_from(["interval", "date", "zz"]),
        "q": st.sampled_from(["a", "Ü", "%", "&", "name", "anyargs"]), "sort_by": st.sampled_from(["id", "name", "next_run_time", "store", "nope"]), "descending": st.booleans(),
    },
)  # fmt: skip
_other = st.sampled_from([{"op": k} for k in ("scheduler", "instances", "stop", "start", "start", "round", "adv", "adv", "odd")])


def steps() -> Any:
    return st.fixed_dictionaries(
        {
            "http": st.sampled_from([False, False, False, True]),
            "start": st.sampled_from([True, True, False]),
            "ops": st.tuples(st.lists(_good, min_size=1, max_size=3), st.lists(st.one_of(_add, _update, _act, _run, _run_flags, _preview, _list, _other), min_size=1, max_size=12)).map(lambda t: t[0] + t[1]),
        }
    )


@st.composite
def runs(draw: Any) -> dict:
    """runs with every combination of the options, of tasks that have further runs and of tasks that have not"""
    o: dict = {"op": "add", "id": "a", "fn": "vp.targets:anyargs", "trigger": draw(st.sampled_from([["interval", {"minutes": 20}], ["object", {"date": 5}], ["object", {"date": -5}], ["object", {"cron": "7"}]]))}
    o |= draw(st.fixed_dictionaries({}, optional={"executor": st.just("rec"), "store": st.just("second"), "next_run_time": st.sampled_from([None, [5, "UTC"], [-5, "UTC"]]), "coalesce": st.booleans()}))
    ops = [o] + [{"op": "adv"}] * draw(st.integers(0, 3))
    for _ in range(draw(st.integers(1, 3))):
        run = {"op": "run", "id": "a", "store": draw(st.sampled_from([None, o.get("store")])), "proxy": draw(st.booleans())}
        ops.append(run | draw(st.fixed_dictionaries({}, optional={"force": st.booleans(), "remove_finished": st.booleans()})))
        ops += draw(st.sampled_from([[], [{"op": "adv"}], [{"op": "get", "id": "a", "store": None}]]))
    return {"http": draw(st.integers(0, 5)) == 5, "start": True, "ops": ops}


def build_trigger(t: Any) -> tuple:
    """-> trigger argument, trigger keyword arguments"""
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger

    name, kw = t
    if name != "object":
        return name, {k: moment(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()}
    at = TZ.at(T0)
    ((k, v),) = kw.items()
    if k == "interval":
        return IntervalTrigger(minutes=v, timezone="Europe/Berlin", start_at=at), {}
    if k == "date":
        return DateTrigger(run_at=at + timedelta(minutes=v)), {}
    if k == "cron":
        return CronTrigger(minute=v, timezone="Asia/Kolkata"), {}
    return AndTrigger([CronTrigger(minute="*/10", timezone="UTC"), CronTrigger(minute="*/4", timezone="UTC")]), {}


def function(x: Any) -> Any:
    if isinstance(x, str) and x.startswith("f:"):
        return targets.Holder.static if x == "f:static" else getattr(targets, x[2:])
    return x


def norm(v: Any) -> Any:
    """a result as data, instants in UTC"""
    if hasattr(v, "snapshot"):
        return norm(v.snapshot())
    if hasattr(v, "model_dump"):
        return norm({k: getattr(v, k) for k in type(v).model_fields})
    if isinstance(v, datetime):
        return v.astimezone(timezone.utc).isoformat()
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, Thing):
        return repr(v)
    return v


def operate(s: Any, o: dict, remote: bool) -> Any:
    from asyncz.enums import TaskScheduleState

    op = o["op"]
    if op == "add":
        trigger, kw = build_trigger(o["trigger"])
        more = {k: v for k, v in o.items() if k not in ("op", "fn", "trigger")}
        if "next_run_time" in more:
            more["next_run_time"] = moment(more["next_run_time"])
        return s.add_task(function(o["fn"]), trigger, **more, **kw)
    if op == "update":
        more = dict(o["more"])
        if "next_run_time" in more:
            more["next_run_time"] = moment(more["next_run_time"])
        if "trigger" in more:
            more["trigger"] = build_trigger(more["trigger"])[0]
        if "fn" in more:
            more["fn"] = function(more["fn"])
        return s.update_task(o["id"], o["store"], **more)
    if op in ("pause", "resume", "delete", "run"):
        target = o["id"]
        if remote and o["proxy"]:
            target = s.get_task(target) or target
        return getattr(s, op + "_task")(target, o["store"], **{k: v for k, v in o.items() if k in ("force", "remove_finished")})
    if op == "get":
        return s.get_task(o["id"], o["store"])
    if op == "lookup":
        task, alias = s.lookup_task(o["id"], o["store"])
        return [norm(task), alias if alias is not None and not task.pending else "-"]
    if op == "info":
        return s.get_task_info(o["id"], o["store"])
    if op == "preview":
        more = {k: v for k, v in o.items() if k not in ("op", "id", "store")}
        if "now" in more:
            more["now"] = moment(more["now"])
        return s.preview_task_runs(o["id"], o["store"], **more)
    if op == "list":
        more = {k: v for k, v in o.items() if k != "op"}
        if more.get("schedule_state") == "enum":
            more["schedule_state"] = TaskScheduleState.PAUSED
        return s.get_task_infos(**more)
    if op == "scheduler":
        return [norm(s.get_scheduler_info()), s.running]
    return s.get_scheduler_instance_infos()


class Pair:
    def __init__(self, token: Any = "t0k", http: bool = False) -> None:
        from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, create_remote_scheduler_app
        from asyncz.events.constants import ALL_EVENTS

        self.all, self.events = [], ([], [])
        for i in range(2):
            s = sched.manual(identity="node", stores={"default": {"type": "memory"}, "second": {"type": "memory"}}, executors={"default": {"type": "debug"}})
            s.add_executor(sched.recorder_executor(), "rec")
            s.add_listener(self.events[i].append, ALL_EVENTS)
            self.all.append(s)
        self.local, self.worker = self.all
        self.app = create_remote_scheduler_app(self.worker, token=token)
        self.token = token
        if http:
            web.SERVER.app = self.app
            web.SERVER.failure = web.SERVER.raw = None
            self.client = RemoteSchedulerClient(web.SERVER.url + "/", token=token)
        else:
            self.client = RemoteSchedulerClient(token=token, transport=self.transport)

    def transport(self, method: str, path: str, payload: Any, headers: dict, query: Any) -> tuple:
        body = b"" if payload is None else json.dumps(payload).encode()
        status, _, data = web.call(self.app, method, path + ("?" + urlencode(query) if query else ""), headers.items(), body)
        return status, json.loads(data)

    def stop(self) -> None:
        for s in self.all:
            if s.running:
                s.shutdown(False)


def tell(e: Any) -> tuple:
    out = [e.code, e.alias]
    for k in ("task_id", "store", "source", "coalesced_run_count", "scheduled_run_times", "scheduled_run_time", "return_value"):
        out.append(norm(getattr(e, k, None)))
    return tuple(map(str, out))


def attempt(f: Any) -> tuple:
    try:
        return "ok", norm(f())
    except Exception as e:  # noqa: BLE001
        return "no", e


def run_step(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.remote import RemoteSchedulerError
    from asyncz.exceptions import MaximumInstancesError, SchedulerNotRunningError, TaskLookupError

    clock.install()
    refused = changed = False
    ended: list = []
    with clock.virtual(TZ.at(T0)):
        p = Pair(http=c["http"])
        if c["start"]:
            for s in p.all:
                s.start()
        try:
            for n, o in enumerate(c["ops"]):
                what = f"step {n} {o}"
                op = o["op"]
                before = norm(p.local.get_task_infos())
                logs = []
                if op in ("stop", "start", "round"):
                    for s in p.all:
                        if op == "stop" and s.running:
                            s.shutdown(False)
                        elif op == "start" and not s.running:
                            s.start()
                        elif op == "round" and s.running:
                            s.process_tasks()
                elif op == "adv":
                    clock.advance(600)
                elif op == "odd":
                    for s in p.all:
                        s.add_task(targets.anyargs, "interval", hours=1, args=[Thing(), b"\xff", {1, 2}], kwargs={"k": Thing()}, id="odd", replace_existing=True, next_run_time=None)
                else:
                    results = []
                    for s, remote in ((p.local, False), (p.client, True)):
                        k = len(targets.CALLS)
                        results.append(attempt(lambda: operate(s, o, remote)))  # noqa: B023
                        logs.append(targets.CALLS[k:])
                    (a, x), (b, y) = results
                    check(a == b, lambda: f"{what}: locally {a} {x!r}, remotely {b} {y!r}")  # noqa: B023
                    if a == "no":
                        refused = True
                        kind = type(x)
                        if isinstance(y, TypeError) and o.get("args") == 7:
                            pass  # of several things that are wrong the client sees another one first
                        elif kind in (TaskLookupError, SchedulerNotRunningError, MaximumInstancesError, ValueError):
                            check(type(y) is kind and str(y) == str(x), lambda: f"{what}: locally {x!r}, remotely {y!r}")  # noqa: B023
                            if kind is MaximumInstancesError:
                                check((y.task_id, y.total) == (x.task_id, x.total), lambda: f"{what}: {vars(y)}, locally {vars(x)}")  # noqa: B023
                        else:
                            check(isinstance(y, (RemoteSchedulerError, kind, ValueError, TypeError)), lambda: f"{what}: locally {x!r}, remotely {y!r}")  # noqa: B023
                            if type(y) is RemoteSchedulerError:
                                check(str(x).strip() in str(y) or not str(x), lambda: f"{what}: refused with {y!r}, locally {x!r}")  # noqa: B023
                    else:
                        plain = (lambda v: v) if not _odd(x) else _hide
                        check(plain(x) == plain(y), lambda: f"{what}: locally {x}, remotely {y}")  # noqa: B023
                        if op == "run" and len(c["ops"]) > n:
                            ended += [("gone" if x is None else "kept" if x.get("next_run_time") is None else "again") + str(o.get("force", True))[0] + str(o.get("remove_finished", True))[0]]
                    check(logs[0] == logs[1], lambda: f"{what}: calls made {logs[0]}, remotely {logs[1]}")  # noqa: B023
                after = [norm(s.get_task_infos()) for s in p.all]
                check(str(after[0]) == str(after[1]), lambda: f"{what}: tasks are {after[0]}, on the worker {after[1]}")  # noqa: B023
                seen = [[tell(e) for e in ev] for ev in p.events]
                check(seen[0] == seen[1], lambda: f"{what}: events {seen[0][-6:]}, on the worker {seen[1][-6:]}")  # noqa: B023
                changed |= after[0] != before
            if c["http"]:
                check(web.SERVER.failure is None, lambda: f"the control app fails: {web.SERVER.failure!r}")
        finally:
            p.stop()
    return Outcome((refused or len(ended) > 0) and changed, [o["op"] for o in c["ops"]] + ended + (["http"] if c["http"] else []))


def _odd(v: Any) -> bool:
    return "odd" in str(v) and "<thing>" in str(v)


def _hide(v: Any) -> Any:
    if isinstance(v, dict):
        return {k: (len(x) if k in ("args", "kwargs") and v.get("id") == "odd" else _hide(x)) for k, x in v.items()}
    return [_hide(x) for x in v] if isinstance(v, list) else v


# ------------------------------------------------------------------ token


ROUTES = [
    ("GET", "/info", None), ("GET", "/instances", None), ("GET", "/tasks", None), ("GET", "/tasks/a", None), ("GET", "/tasks/zz", None), ("GET", "/tasks/a/preview", None),
    ("POST", "/tasks", {"fn": PLAIN, "trigger": "interval", "trigger_args": {"hours": 1}, "id": "new"}), ("PATCH", "/tasks/a", {"updates": {"name": "n2"}}), ("POST", "/tasks/a/run", {}),
    ("POST", "/tasks/a/pause", {}), ("POST", "/tasks/a/resume", None), ("POST", "/tasks/a/remove", {}), ("POST", "/tasks/zz/remove", {}), ("POST", "/tasks/a/nope", {}), ("HEAD", "/tasks", None),
]  # fmt: skip
TOKENS = ["right", "none", "wrong", "prefix", "longer", "upper", "empty", "space", "bearer", "query", "cookie"]
TOKEN = st.fixed_dictionaries({"token": st.sampled_from(["t0k", "T0k en", "x", None]), "calls": st.lists(st.tuples(st.integers(0, len(ROUTES) - 1), st.sampled_from(TOKENS)), min_size=1, max_size=8)})


def sent(kind: str, token: str) -> tuple:
    """-> headers, query"""
    name = "x-asyncz-remote-token"
    v = {
        "right": token, "wrong": "other", "prefix": token[:-1], "longer": token + "x", "upper": token.swapcase(), "empty": "", "space": token.replace(" ", "") + " .",
    }.get(kind)  # fmt: skip
    if v is not None:
        return [(name, v)], ""
    if kind == "bearer":
        return [("authorization", "Bearer " + token), ("x-asyncz-token", token)], ""
    if kind == "cookie":
        return [("cookie", f"{name}={token}")], ""
    if kind == "query":
        return [], f"?token={quote(token)}&{name}={quote(token)}"
    return [], ""


def run_token(c: dict) -> Outcome:
    clock.install()
    got: set = set()
    with clock.virtual(TZ.at(T0)):
        p = Pair(token=c["token"])
        s = p.worker
        s.start()
        try:
            s.add_task(PLAIN, "interval", hours=1, id="a")
            for i, kind in c["calls"]:
                method, path, body = ROUTES[i]
                headers, query = sent(kind, c["token"] or "t0k")
                allowed = c["token"] is None or kind == "right" or (kind == "upper" and c["token"].swapcase() == c["token"])
                before, events, calls = norm(s.get_task_infos()), len(p.events[1]), len(targets.CALLS)
                status, _, data = web.call(p.app, method, path + query, headers, b"" if body is None else json.dumps(body).encode())
                if allowed:
                    check(status not in (401, 403), f"{method} {path} with the right token gives {status}")
                else:
                    check(status in (401, 405, 404) and (status == 401 or method == "HEAD"), lambda: f"{method} {path} with token {kind} gives {status} {data!r}")  # noqa: B023
                    check((norm(s.get_task_infos()), len(p.events[1]), len(targets.CALLS)) == (before, events, calls), f"{method} {path} with token {kind} has an effect")
                    check(b"vp.targets" not in data and b"node" not in data, lambda: f"{method} {path} with token {kind} shows {data!r}")  # noqa: B023
                got.add(allowed)
        finally:
            p.stop()
    return Outcome(len(got) == 2, [k for _, k in c["calls"]])


# ------------------------------------------------------------------ malformed requests

_junk = st.sampled_from([None, 0, 1.5, True, "", "x", [], ["x"], [1], {}, {"x": 1}])
_body = st.one_of(
    st.sampled_from(["[]", "7", '"x"', "[[1, 2]]", "true"]).map(lambda x: ["raw", x]),
    st.dictionaries(
        st.sampled_from(["fn", "id", "name", "args", "kwargs", "trigger", "trigger_args", "trigger_pickle", "store", "executor", "max_instances", "mistrigger_grace_time", "next_run_time", "updates", "force"]),
        _junk, max_size=4,
    ).map(lambda x: ["json", x]),
)  # fmt: skip
WIRE = st.fixed_dictionaries(
    {
        "calls": st.lists(
            st.one_of(
                st.tuples(st.sampled_from([("POST", "/tasks"), ("PATCH", "/tasks/zz"), ("POST", "/tasks/zz/run"), ("POST", "/tasks/zz/pause"), ("POST", "/tasks/zz/resume"), ("POST", "/tasks/zz/remove"), ("POST", "/tasks/a/nope")]), _body),
                st.tuples(st.sampled_from([("GET", "/tasks/a/preview?count=x"), ("GET", "/tasks/a/preview?count=-3"), ("GET", "/tasks/a/preview?count=1e3"), ("GET", "/tasks/a/preview?now=soon"), ("GET", "/tasks?sort_by=x"), ("GET", "/tasks?schedule_state=x"), ("GET", "/tasks/zz"), ("GET", "/tasks/zz/preview"), ("GET", "/tasks/%ff")]), st.just(["none", None])),
                st.tuples(st.just(("PATCH", "/tasks/a")), st.sampled_from([{"updates": {"id": "b"}}, {"updates": [1]}, {"updates": "x"}, {"updates": {"args": "x"}}, {"updates": {"next_run_time": 5}}, {"updates": {"trigger": {}}}, {"updates": {"scheduler": "x"}}, {"updates": {"store_alias": 5}}, {"trigger_pickle": "x"}]).map(lambda x: ["json", x])),
            ),
            min_size=1, max_size=4,
        )
    }
)  # fmt: skip


def run_wire(c: dict) -> Outcome:
    clock.install()
    with clock.virtual(TZ.at(T0)):
        p = Pair()
        s = p.worker
        s.start()
        try:
            s.add_task(PLAIN, "interval", hours=1, id="a")
            before, events, calls = norm(s.get_task_infos()), len(p.events[1]), len(targets.CALLS)
            for (method, path), (kind, body) in c["calls"]:
                data = b"" if kind == "none" else body.encode() if kind == "raw" else json.dumps(body).encode()
                try:
                    status, _, answer = web.call(p.app, method, path, [("x-asyncz-remote-token", "t0k"), ("content-type", "application/json")], data)
                except Exception as e:  # noqa: BLE001
                    check(False, f"{method} {path} {data!r}: the control app fails: {e!r}")
                    raise
                check(400 <= status < 500, lambda: f"{method} {path} {data!r}: {status} {answer!r}")  # noqa: B023
                check(set(json.loads(answer)) >= {"error", "message"}, lambda: f"{method} {path} {data!r}: answered {answer!r}")  # noqa: B023
                check((norm(s.get_task_infos()), len(p.events[1]), len(targets.CALLS)) == (before, events, calls), lambda: f"{method} {path} {data!r} was refused and has an effect: {norm(s.get_task_infos())}")  # noqa: B023
        finally:
            p.stop()
    return Outcome(True, [f"{m} {x.split('?')[0]}" for (m, x), _ in c["calls"]])


# ------------------------------------------------------------------ broken connections

ANSWERS = [
    b"", b"HTTP/1.1 200 OK\r\n", b"garbage\r\n\r\n", b"HTTP/1.1 200 OK\r\ncontent-length: 50\r\n\r\n{}", b"HTTP/1.1 200 OK\r\ncontent-length: 2\r\n\r\n[]", b"HTTP/1.1 200 OK\r\ncontent-length: 5\r\n\r\n<html",
    b"HTTP/1.1 502 Bad\r\ncontent-length: 5\r\n\r\n<html", b"HTTP/1.1 404 No\r\ncontent-length: 20\r\n\r\n{\"detail\": \"no such\"}", b"HTTP/1.1 500 No\r\ncontent-length: 4\r\n\r\nnull", b"HTTP/1.1 403 No\r\ncontent-length: 0\r\n\r\n",
    b"HTTP/1.1 503 No\r\ncontent-length: 2\r\n\r\n\xff\xfe", b"HTTP/1.1 500 No\r\ncontent-length: 30\r\n\r\n{\"error\": \"OSError\", \"mess",
]  # fmt: skip
BROKEN = st.fixed_dictionaries({"answer": st.one_of(st.integers(0, len(ANSWERS) - 1), st.just(-1)), "op": st.one_of(_good, _update, _act, _run, _run_flags, _preview, _list, st.just({"op": "scheduler"}), st.just({"op": "instances"}))})


def run_broken(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, RemoteSchedulerError

    web.SERVER.raw = ANSWERS[c["answer"]]
    try:
        url = web.SERVER.url if c["answer"] >= 0 else "http://127.0.0.1:1"
        got = attempt(lambda: operate(RemoteSchedulerClient(url, token="t"), {**c["op"], **({"proxy": False} if "proxy" in c["op"] else {})}, True))
    finally:
        web.SERVER.raw = None
    x = got[1]
    update = c["op"].get("more")
    fine = isinstance(x, RemoteSchedulerError) or (update and isinstance(x, (ValueError, TypeError)) and not isinstance(x, json.JSONDecodeError))
    check(got[0] == "no" and fine, lambda: f"{c['op']['op']} answered with {ANSWERS[c['answer']]!r} gives {got}")
    return Outcome(True, [c["op"]["op"]])


PARTS = [
    Part("step", steps, run_step, quick=1800, thorough=30000, setup=web.session),
    Part("run", runs, run_step, quick=400, thorough=6000, setup=web.session),
    Part("token", lambda: TOKEN, run_token, quick=500, thorough=8000),
    Part("wire", lambda: WIRE, run_wire, quick=500, thorough=8000),
    Part("broken", lambda: BROKEN, run_broken, quick=150, thorough=2000, setup=web.session),
]
_ = (base64, pickle)
