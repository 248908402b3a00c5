"""P21: all ways of writing a configuration give the same scheduler and settings."""

from __future__ import annotations

import copy
import math
import os
import random
from collections.abc import Mapping
from types import MappingProxyType
from typing import Any

from hypothesis import strategies as st

from vp.runner import Outcome, Part, check

PROPERTY = "P21"
RULE = (
    "config: a configuration as data (identity, zone, delays, lock path, logger, loggers, shape, task defaults, executors and stores by plugin name, "
    "class reference, class, or instance, with arguments) written in several forms: keyword arguments, one nested mapping, flat dotted keys at any depth, "
    "nested and dotted entries for the same part in any order, other prefixes or none, read-only mappings, numbers and booleans as text, later setup() of a "
    "scheduler configured otherwise, or calls; with unrelated keys next to it and other values which explicit arguments override. Every form is compared with "
    "values computed from the data: attributes, snapshot, aliases, arguments received, defaults of an added task, zone of naive times, waiting times of a failing "
    "store and of the startup; the given mapping must be as before. Malformed variants must be refused; a running scheduler refuses setup() and is unchanged. "
    "settings: a settings class tree with typed fields read from the environment, arguments and defaults, against a table of casts; exports in every option. "
    "Non-trivial: config: a form other than plain keyword arguments with an executor, store or defaults entry; settings: a value came from the environment."
)

ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Tokyo", "Pacific/Apia"]


# ------------------------------------------------------------------ plugin targets


def make_targets() -> Any:
    from asyncz.executors.base import BaseExecutor
    from asyncz.stores.memory import MemoryStore

    class CfgExecutor(BaseExecutor):
        def __init__(self, arg1: Any = None, arg2: Any = "d", opts: Any = None) -> None:
            super().__init__()
            self.got = {"arg1": arg1, "arg2": arg2, "opts": dict(opts) if isinstance(opts, Mapping) else opts}

        def do_send_task(self, task: Any, run_times: Any) -> None:
            pass

    class CfgStore(MemoryStore):
        def __init__(self, arg1: Any = None, arg2: Any = "d", opts: Any = None) -> None:
            super().__init__()
            self.got = {"arg1": arg1, "arg2": arg2, "opts": dict(opts) if isinstance(opts, Mapping) else opts}
            self.broken = False

        def get_due_tasks(self, now: Any) -> Any:
            if self.broken:
                raise OSError("down")
            return super().get_due_tasks(now)

    return CfgExecutor, CfgStore


_T: Any = None


def targets() -> Any:
    """The classes, importable as vp_cfg:CfgExecutor and vp_cfg:CfgStore."""
    global _T
    if _T is None:
        import sys
        import types

        from asyncz.schedulers.base import ClassicLogging

        mod = types.ModuleType("vp_cfg")
        mod.CfgExecutor, mod.CfgStore = make_targets()  # type: ignore[attr-defined]
        mod.Loggers = type("Loggers", (ClassicLogging,), {})  # type: ignore[attr-defined]
        for v in vars(mod).values():
            if isinstance(v, type):
                v.__module__ = "vp_cfg"
                v.__qualname__ = v.__name__
        sys.modules["vp_cfg"] = mod
        _T = mod
    return _T


# ------------------------------------------------------------------ the configuration as data

BOOLS = {True: [True, "true", "True", "1", "yes", "on", " TRUE ", "y", "t", 1], False: [False, "false", "0", "no", "OFF", "n", "f", 0, ""]}
_args = st.fixed_dictionaries(
    {},
    optional={
        "arg1": st.sampled_from(["3", "", None, 5, [1, 2], "a.b"]),
        "arg2": st.sampled_from(["a", "true", 0]),
        "opts": st.dictionaries(st.sampled_from(["p", "q"]), st.sampled_from(["1", 2, None]), min_size=1, max_size=2),
    },
)


def _spec(kind: str) -> Any:
    own = st.fixed_dictionaries({"how": st.sampled_from(["ref", "class", "instance"]), "args": _args})
    plug = (
        st.sampled_from(
            [("pool", {}), ("threadpool", {"max_workers": 3}), ("pool", {"max_workers": "4"}), ("threadpool", {"cancel_futures": True, "overwrite_wait": False}), ("pool", {"overwrite_wait": True}), ("pool", {"max_workers": 2, "pool_kwargs": {"thread_name_prefix": "vp"}}), ("debug", {}), ("asyncio", {})]
        )
        if kind == "executors"
        else st.sampled_from(
            [
                ("memory", {}),
                ("file", {"directory": "DIR/a"}),
                ("file", {"directory": "DIR/b", "suffix": ".x", "cleanup_directory": True}),
                ("sqlalchemy", {"database": "sqlite:///DIR/s.db", "tablename": "tt"}),
                ("sqlalchemy", {"database": "sqlite://"}),
            ]
        )
    )
    plugin = plug.map(lambda p: {"how": "type", "type": p[0], "args": p[1]})
    return st.one_of(own, plugin)


_defaults = st.fixed_dictionaries(
    {}, optional={"coalesce": st.booleans(), "max_instances": st.integers(1, 9), "mistrigger_grace_time": st.sampled_from([None, 1, 5, 0.5, 120])}
)
_opts = st.fixed_dictionaries(
    {},
    optional={
        "identity": st.sampled_from(["node-1", "a.b", "Ü"]),
        "timezone": st.sampled_from(ZONES),
        "startup_delay": st.sampled_from([0, 2, 0.5, 7]),
        "store_retry_interval": st.sampled_from([1, 2.5, 30, 12]),
        "heartbeat_stale_after": st.sampled_from([1, 9.5, 60]),
        "lock_path": st.sampled_from(["DIR/l", "DIR/{store}.lock"]),
        "logger_name": st.sampled_from(["w", "a.b"]),
        "loggers_class": st.sampled_from(["ref", "class"]),
        "shape": st.sampled_from(["dataclass", "pydantic", "attrs", "nosuch"]),
        "task_defaults": _defaults,
        "executors": st.dictionaries(st.sampled_from(["default", "e1", "e2"]), _spec("executors"), min_size=1, max_size=3),
        "stores": st.dictionaries(st.sampled_from(["default", "s1", "s2"]), _spec("stores"), min_size=1, max_size=3),
    },
)
_form = st.fixed_dictionaries(
    {
        "via": st.sampled_from(["init", "init", "setup", "again"]),
        "prefix": st.sampled_from(["asyncz.", "asyncz.", "asyncz.", "app.jobs.", "", None]),
        "how": st.sampled_from(["kwargs", "nested", "flat", "mix", "mix", "calls"]),
        "seed": st.integers(0, 10_000),
        "noise": st.booleans(),
        "over": st.booleans(),
        "frozen": st.booleans(),
    }
)
BAD = [
    ("timezone", ["Nope/Zone", 5, "../x", ""]),
    ("startup_delay", ["soon", None, [1]]),
    ("store_retry_interval", ["x", {}]),
    ("heartbeat_stale_after", ["", None]),
    ("shape", ["zzz", 5]),
    ("loggers_class", ["no.such:Thing", 5]),
    ("task_defaults", ["x", [1], 5, {"max_instances": "many"}, {"mistrigger_grace_time": "soon"}, {"max_instances": None}]),
    ("executors", ["pool", {"x": None}, {"x": "pool"}, {"x": {}}, {"x": {"arg1": 1}}, {"x": {"type": "memory"}}, {"x": {"class": "builtins:dict"}}, {"x": {"class": "no.such:Cls"}},
                   {"x": {"type": "pool", "max_workers": "many"}}, {"x": {"type": "pool", "nosuch": 1}}, {"x": {"class": "vp_cfg:CfgStore"}}, {"x": 5}]),
    ("stores", [[1], {"x": None}, {"x": "memory"}, {"x": {}}, {"x": {"directory": "DIR"}}, {"x": {"type": "pool"}}, {"x": {"class": "builtins:dict"}}, {"x": {"type": "sqlalchemy"}},
                {"x": {"type": "sqlalchemy", "database": ""}}, {"x": {"class": "vp_cfg:CfgExecutor"}}, {"x": {"type": "redis", "database": "first"}}]),
]  # fmt: skip
BADS = [(k, i) for k, vs in BAD for i in range(len(vs))]
CASE = st.fixed_dictionaries(
    {
        "cls": st.sampled_from(["manual", "manual", "asyncio", "native"]),
        "opts": _opts,
        "forms": st.lists(_form, min_size=1, max_size=3),
        "bad": st.one_of(st.none(), st.none(), st.sampled_from(BADS)),
    }
)


def klass(name: str) -> Any:
    from vp import sched

    if name == "manual":
        if sched._CLS is None:
            sched._CLS = sched.manual_class()
        return sched._CLS
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    return AsyncIOScheduler if name == "asyncio" else NativeAsyncIOScheduler


def subst(v: Any, d: str) -> Any:
    if isinstance(v, str):
        return v.replace("DIR", d)
    if isinstance(v, dict):
        return {k: subst(x, d) for k, x in v.items()}
    return v


class Writer:
    """Writes the data in one form."""

    def __init__(self, opts: dict, form: dict, d: str) -> None:
        self.f, self.d = form, d
        self.r = random.Random(form["seed"])
        self.opts = opts
        self.made: dict = {}

    def textual(self, v: Any) -> Any:
        if isinstance(v, bool):
            return self.r.choice(BOOLS[v])
        if isinstance(v, (int, float)) and self.r.random() < 0.4:
            return str(v) if self.r.random() < 0.7 else float(v)
        return v

    def spec(self, kind: str, alias: str, s: dict) -> Any:
        m = targets()
        cls = m.CfgExecutor if kind == "executors" else m.CfgStore
        args = copy.deepcopy(subst(s["args"], self.d))
        if s["how"] == "instance":
            obj = cls(**args)
            self.made[kind, alias] = obj
            return obj
        if s["how"] == "type":
            return {"type": s["type"], **args}
        return {"class": f"vp_cfg:{cls.__name__}" if s["how"] == "ref" else cls, **args}

    def values(self) -> dict:
        out: dict = {}
        for k, v in self.opts.items():
            if k == "task_defaults":
                out[k] = {n: (self.r.choice(BOOLS[x]) if n == "coalesce" else int(x) if n == "max_instances" and self.r.random() < 0.5 else str(x) if n == "max_instances" else self.textual(x)) for n, x in v.items()}
            elif k in ("executors", "stores"):
                out[k] = {a: self.spec(k, a, s) for a, s in v.items()}
            elif k == "timezone":
                from zoneinfo import ZoneInfo

                out[k] = ZoneInfo(v) if self.r.random() < 0.4 else v
            elif k == "lock_path":
                out[k] = subst(v, self.d)
            elif k == "loggers_class":
                out[k] = "vp_cfg:Loggers" if v == "ref" else targets().Loggers
            elif k == "shape":
                if v != "nosuch":
                    out[k] = v
            elif isinstance(v, (int, float)):
                out[k] = self.textual(v)
            else:
                out[k] = v
        return out

    def flat(self, key: str, v: Any, depth: int, force: bool = True) -> list:
        """key: value as one or more entries, split into dotted keys up to some depth"""
        if isinstance(v, dict) and v and depth and (force or self.r.random() < 0.6) and not any("." in k for k in v):
            out = []
            for k, x in v.items():
                out += self.flat(f"{key}.{k}", x, depth - 1, force)
            return out
        return [(key, v)]

    def mixed(self, key: str, v: Any, depth: int = 4) -> list:
        """a nested entry with some of the content and dotted entries with the rest"""
        if not isinstance(v, dict) or not v or depth == 0:
            return [(key, v)]
        inside, out = {}, []
        for k, x in v.items():
            p = self.r.random()
            if p < 0.35:
                inside[k] = x
            elif p < 0.55 and isinstance(x, dict) and len(x) > 1:
                # one part of it inside, the others dotted
                n = self.r.randint(1, len(x) - 1)
                names = self.r.sample(sorted(x), len(x))
                inside[k] = {a: x[a] for a in names[:n]}
                for a in names[n:]:
                    out += self.mixed(f"{key}.{k}.{a}", x[a], depth - 2)
            else:
                out += self.mixed(f"{key}.{k}", x, depth - 1)
        if inside or not out:
            out.append((key, inside))
        return out

    def freeze(self, v: Any) -> Any:
        return MappingProxyType({k: self.freeze(x) if k not in ("opts", "pool_kwargs") else x for k, x in v.items()}) if isinstance(v, dict) else v

    def write(self) -> tuple:
        """-> (mapping or None, prefix arguments, kwargs, calls)"""
        f, vals = self.f, self.values()
        kwargs: dict = {}
        calls: list = []
        how = f["how"]
        entries: list = []
        if how == "kwargs":
            kwargs = vals
        elif how == "calls":
            for kind in ("executors", "stores"):
                for a, v in vals.pop(kind, {}).items():
                    calls.append((kind, a, v))
            kwargs = vals
        else:
            for k, v in vals.items():
                p = self.r.random()
                if how == "mix" and p < 0.2:
                    kwargs[k] = v
                elif how == "nested":
                    entries.append((k, v))
                elif how == "flat":
                    entries += self.flat(k, v, 5)
                else:
                    entries += self.mixed(k, v)
        wrong = {"identity": "wrong", "timezone": "Asia/Kolkata", "startup_delay": 99, "store_retry_interval": 98, "heartbeat_stale_after": 97, "logger_name": "wrong", "lock_path": "/nonexistent/wrong"}
        wrong_spec = {"executors": {"wrong": {"type": "debug"}}, "stores": {"wrong": {"type": "memory"}}, "task_defaults": {"max_instances": 77}}
        if f["over"]:
            # what the explicit arguments override, as a whole
            for k in kwargs:
                if k in wrong:
                    entries.append((k, wrong[k]))
                elif k in wrong_spec:
                    entries += self.flat(k, wrong_spec[k], self.r.randint(0, 3))
        self.r.shuffle(entries)
        pre = f["prefix"] if f["prefix"] is not None else ""
        mapping: Any = {}
        for k, v in entries:
            check(pre + k not in mapping, "harness: key twice")
            mapping[pre + k] = self.freeze(v) if f["frozen"] else v
        if f["noise"]:
            if pre:
                mapping.update({"timezone": "Nope", "other.timezone": "Nope", pre[:-1] + "x.startup_delay": "x", pre[:-1]: "y", "executors": "z", "x" + pre + "timezone": 1})
            mapping[pre + "unknown_option"] = {"a": object}
            mapping[pre + "unknown.sub.option"] = 1
            items = list(mapping.items())
            self.r.shuffle(items)
            mapping = dict(items)
        return mapping, kwargs, calls


def same_tree(a: Any, b: Any) -> bool:
    if isinstance(a, Mapping) and isinstance(b, Mapping):
        return list(a) == list(b) and all(same_tree(a[k], b[k]) for k in a)
    if isinstance(a, (list, str, int, float, tuple)) and type(a) is type(b):
        return a == b
    return a is b


def shallow(v: Any) -> Any:
    """copies mappings and lists, keeps the rest"""
    if isinstance(v, Mapping):
        return {k: shallow(x) for k, x in v.items()}
    return list(v) if isinstance(v, list) else v


def build(cname: str, form: dict, mapping: Any, kwargs: dict, calls: list) -> Any:
    cls = klass(cname)
    pargs = {} if form["prefix"] == "asyncz." else {"prefix": form["prefix"]}
    first = {"identity": "first", "timezone": "Asia/Kolkata", "startup_delay": 55, "store_retry_interval": 44, "heartbeat_stale_after": 33, "lock_path": "/nonexistent/first",
             "logger_name": "first", "task_defaults": {"max_instances": 55, "coalesce": False, "mistrigger_grace_time": None}, "executors": {"old": {"type": "debug"}}, "stores": {"old": {"type": "memory"}}}  # fmt: skip
    if form["via"] == "init":
        s = cls(mapping, **pargs, **kwargs)
    else:
        s = cls(**first) if form["via"] == "again" else cls()
        s.setup(mapping, **pargs, **kwargs)
    for kind, alias, v in calls:
        add = s.add_executor if kind == "executors" else s.add_store
        if isinstance(v, dict):
            v = dict(v)
            if "type" in v:
                add(v.pop("type"), alias, **v)
                continue
            c = v.pop("class")
            if isinstance(c, str):
                c = getattr(targets(), c.partition(":")[2])
            v = c(**v)
        add(v, alias)
    return s


PLUGIN = {
    "pool": "ThreadPoolExecutor", "threadpool": "ThreadPoolExecutor", "debug": "DebugExecutor", "asyncio": "AsyncIOExecutor",
    "memory": "MemoryStore", "file": "FileStore", "sqlalchemy": "SQLAlchemyStore",
}  # fmt: skip


def expect_member(s: Any, kind: str, alias: str, spec: dict, made: dict, d: str) -> None:
    held = (s.executors if kind == "executors" else s.stores).get(alias)
    what = f"{kind}[{alias!r}] from {spec}"
    check(held is not None, f"{what} is missing")
    args = subst(spec["args"], d)
    if spec["how"] != "type":
        cls = targets().CfgExecutor if kind == "executors" else targets().CfgStore
        check(type(held) is cls, f"{what} is a {type(held)}")
        want = {"arg1": None, "arg2": "d", "opts": None, **args}
        check(held.got == want, lambda: f"{what} was made with {held.got}")
        if spec["how"] == "instance":
            check(held is made[kind, alias], f"{what} is another instance")
        return
    check(type(held).__name__ == PLUGIN[spec["type"]], f"{what} is a {type(held).__name__}")
    if PLUGIN[spec["type"]] == "ThreadPoolExecutor":
        check(held.pool._max_workers == int(args.get("max_workers", 10)), f"{what} has {held.pool._max_workers} workers")
        check((held.cancel_futures, held.overwrite_wait) == (args.get("cancel_futures", False), args.get("overwrite_wait")), f"{what} has {held.cancel_futures} {held.overwrite_wait}")
        if "pool_kwargs" in args:
            check(held.pool._thread_name_prefix == "vp", f"{what} lost its pool arguments")
    elif spec["type"] == "file":
        check(str(held.directory) == args["directory"] and held.suffix == args.get("suffix", ".task") and held.cleanup_directory == args.get("cleanup_directory", False), f"{what} differs")
    elif spec["type"] == "sqlalchemy":
        check(str(held.engine.url) == args["database"], f"{what} uses {held.engine.url}")


def run_config(c: dict) -> Outcome:
    import shutil
    import tempfile

    from asyncz.exceptions import SchedulerAlreadyRunningError

    targets()
    d = tempfile.mkdtemp(prefix="p21.")
    opts = c["opts"]
    tags = set()
    try:
        for form in c["forms"]:
            w = Writer(opts, form, d)
            mapping, kwargs, calls = w.write()
            before = shallow(mapping)
            kbefore = shallow(kwargs)
            what = f"{form['how']} via {form['via']}"
            s = build(c["cls"], form, mapping, kwargs, calls)
            check(same_tree(before, mapping), lambda: f"{what}: the mapping was changed: {before} -> {dict(mapping)}")  # noqa: B023
            check(same_tree(kbefore, kwargs), lambda: f"{what}: the arguments were changed: {kbefore} -> {kwargs}")  # noqa: B023
            expect(s, c, form, w, d, what)
            tags |= {form["how"], form["via"]}
        if c["bad"] is not None:
            refused(c, d)
            tags.add("malformed")
        s = running(c, d)
        try:
            attrs = seen(s)
            try:
                s.setup({"asyncz.timezone": "Asia/Kolkata"}, startup_delay=77)
            except SchedulerAlreadyRunningError:
                pass
            else:
                check(False, "setup() of a running scheduler was accepted")
            check(seen(s) == attrs, lambda: f"the refused setup() changed {attrs} to {seen(s)}")
        finally:
            s.shutdown()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rich = any(k in opts for k in ("executors", "stores", "task_defaults"))
    return Outcome(rich and bool(tags - {"kwargs", "init", "malformed"}), sorted(tags))


def running(c: dict, d: str) -> Any:
    from vp import sched

    s = sched.manual(timezone=c["opts"].get("timezone", "UTC"), identity="x")
    s.start(paused=True)
    return s


def seen(s: Any) -> dict:
    i = s.get_scheduler_info()
    return {
        "identity": i.identity, "timezone": i.timezone, "retry": i.store_retry_interval, "delay": i.startup_delay, "execs": i.executor_aliases, "stores": i.store_aliases,
        "lock": s.lock_path, "stale": s.heartbeat_stale_after, "zone": str(s.timezone), "logger": s.logger_name, "defaults": s.task_defaults.model_dump(),
    }  # fmt: skip


def expect(s: Any, c: dict, form: dict, w: Writer, d: str, what: str) -> None:
    from datetime import datetime
    from zoneinfo import ZoneInfo

    from asyncz.utils import to_timezone_with_fallback

    o = c["opts"]
    td = o.get("task_defaults", {})
    grace = td.get("mistrigger_grace_time", 1)
    want = {
        "retry": float(o.get("store_retry_interval", 10)),
        "delay": float(o.get("startup_delay", 1 if "lock_path" in o else 0)),
        "execs": tuple(sorted(o.get("executors", ()))),
        "stores": tuple(sorted(o.get("stores", ()))),
        "lock": subst(o.get("lock_path", ""), d),
        "stale": float(o.get("heartbeat_stale_after", 30)),
        "logger": "asyncz.schedulers" + (f".{o['logger_name']}" if "logger_name" in o else ""),
        "defaults": {"coalesce": td.get("coalesce", True), "max_instances": td.get("max_instances", 1), "mistrigger_grace_time": None if grace is None else float(grace)},
    }
    got = seen(s)
    if "identity" in o:
        want["identity"] = o["identity"]
    elif form["via"] == "again":
        want["identity"] = "first"
    else:
        check(got["identity"].startswith(type(s).__name__ + "-"), f"{what}: identity {got['identity']}")
    zone = o.get("timezone")
    want["timezone"] = want["zone"] = zone or str(to_timezone_with_fallback(None))
    have = {k: v for k, v in got.items() if k in want}
    check(have == want, lambda: f"{what}: configured { {k: (v, want[k]) for k, v in have.items() if v != want[k]} } (got, expected)")
    if o.get("shape", "nosuch") != "nosuch":
        check(s.shape.name == o["shape"], f"{what}: shape {s.shape.name} instead of {o['shape']}")
    if "loggers_class" in o:
        check(type(s.loggers) is targets().Loggers, f"{what}: loggers {type(s.loggers)}")
    for kind in ("executors", "stores"):
        for alias, spec in o.get(kind, {}).items():
            expect_member(s, kind, alias, spec, w.made, d)

    # what a user of the scheduler sees of it
    alias = sorted(o.get("stores", {"default": 0}))[0]
    ex = sorted(o.get("executors", {"default": 0}))[0]
    t = s.add_task("vp.targets:plain", "date", run_at="2999-01-01 10:00:00", store=alias, executor=ex, id="t")
    check({"coalesce": t.coalesce, "max_instances": t.max_instances, "mistrigger_grace_time": t.mistrigger_grace_time} == want["defaults"], lambda: f"{what}: a task got other defaults: {t.coalesce} {t.max_instances} {t.mistrigger_grace_time}")
    if zone is not None:
        at = s.get_task_info("t")
        check(at is not None and at.store_alias == alias and at.executor == ex, f"{what}: the task is at {at}")
        check(t.trigger.run_at == datetime(2999, 1, 1, 10, tzinfo=ZoneInfo(zone)), f"{what}: naive time became {t.trigger.run_at}")
    if c["cls"] == "manual":
        timings(s, c, want, what)


def timings(s: Any, c: dict, want: dict, what: str) -> None:
    from datetime import timedelta

    from vp import clock
    from vp import tz as TZ
    from vp.taskgen import T0

    o = c["opts"]
    at = TZ.at(T0)
    clock.install()
    with clock.virtual(at):
        s.remove_all_tasks(None)
        s.add_task("vp.targets:plain", "date", run_at=at, id="now", store=sorted(o.get("stores", {"default": 0}))[0])
        s.start(paused=True)
        try:
            i = s.get_scheduler_info()
            check(i.store_aliases == tuple(sorted({*want["stores"], "default"})), f"{what}: stores after start {i.store_aliases}")
            check(i.executor_aliases == tuple(sorted({*want["execs"], "default"})), f"{what}: executors after start {i.executor_aliases}")
            first = at + timedelta(seconds=want["delay"] if want["lock"] else 0)
            got = s.get_task_info("now").next_run_time
            check(got == first, f"{what}: startup_delay {want['delay']}, lock {want['lock']!r}: first run at {got}, expected {first}")
            s.remove_all_tasks(None)
            broken = [x for x in s.stores.values() if hasattr(x, "broken")]
            for x in broken:
                x.broken = True
            s.resume()
            wait = s.process_tasks()
            if broken:
                check(wait is not None and abs(wait - want["retry"]) < 1e-3, f"{what}: waits {wait} s for a failing store, expected {want['retry']}")
        finally:
            s.shutdown(False)


# ------------------------------------------------------------------ malformed


def refused(c: dict, d: str) -> None:
    key, i = c["bad"]
    bad = subst(dict(BAD)[key][i], d)
    if isinstance(bad, dict):
        bad = copy.deepcopy(bad)
    form = {**c["forms"][0], "over": False}
    opts = {k: v for k, v in c["opts"].items() if k != key}
    w = Writer(opts, form, d)
    mapping, kwargs, calls = w.write()
    pre = form["prefix"] or ""
    if form["how"] in ("kwargs", "calls"):
        kwargs[key] = bad
    elif form["how"] == "flat" and isinstance(bad, dict) and all(bad.values()):
        mapping.update((pre + k, v) for k, v in w.flat(key, bad, 3))
    else:
        mapping[pre + key] = bad
    try:
        s = build(c["cls"], form, mapping, kwargs, [])
    except Exception:
        return
    check(False, f"{form['how']} via {form['via']}: {key}={bad!r} was accepted: {getattr(s, key, None)!r}")


# ------------------------------------------------------------------ settings

NAMES = ["alpha", "beta", "gamma", "delta"]
TYPES = ["bool", "int", "float", "str", "Path", "Optional[int]", "int | None", "bool | None", "str | None", "Annotated[int, 'x']", "Annotated[float | None, 'x']", "int | str"]
TEXTS = ["1", "0", "true", "TRUE", "yes", "On", "off", "no", "3", "-7", "2.5", "x y", "", "1e3", " 4 ", "None", "y", "maybe", "ä"]
_field = st.tuples(st.sampled_from(TYPES), st.booleans(), st.sampled_from([None, 1, "d", 0.5, True]))
_level = st.fixed_dictionaries(
    {
        "fields": st.dictionaries(st.sampled_from(NAMES), _field, max_size=3),
        "plain": st.dictionaries(st.sampled_from(NAMES), st.sampled_from(["over", 9]), max_size=1),
        "unresolved": st.booleans(),
        "future": st.booleans(),
    }
)
SETTINGS = st.fixed_dictionaries(
    {
        "base": st.sampled_from(["BaseSettings", "BaseSettings", "Settings"]),
        "levels": st.lists(_level, min_size=1, max_size=3),
        "env": st.dictionaries(st.sampled_from(NAMES + ["debug", "secret_key", "version"]), st.sampled_from(TEXTS), max_size=3),
        "near": st.sampled_from([None, "alpha", "Beta", "XALPHA", "ASYNCZ_ALPHA"]),
        "kwargs": st.dictionaries(st.sampled_from(NAMES + ["debug", "other"]), st.sampled_from([None, 4, "kw"]), max_size=2),
        "prop": st.booleans(),
        "dumps": st.lists(
            st.fixed_dictionaries({"exclude_none": st.booleans(), "upper": st.booleans(), "exclude": st.one_of(st.none(), st.lists(st.sampled_from(NAMES + ["prop", "nope"]), max_size=2)), "include_properties": st.booleans()}),
            min_size=1, max_size=3,
        ),
    }
)  # fmt: skip


class Refused(Exception):
    pass


def cast(typ: str, text: str) -> Any:
    from pathlib import Path

    if typ == "int | str":
        raise Refused
    t = typ.replace("Optional[int]", "int").replace("Annotated[int, 'x']", "int").replace("Annotated[float | None, 'x']", "float").replace(" | None", "")
    if t == "bool":
        return text.lower() in {"true", "1", "yes", "on", "y"}
    try:
        return {"int": int, "float": float, "str": str, "Path": Path}[t](text)
    except ValueError:
        raise Refused from None


def run_settings(c: dict) -> Outcome:
    import sys
    import types

    import asyncz
    from asyncz.conf import global_settings as G

    hints: dict = {}
    values: dict = {}
    cls: Any = getattr(G, c["base"])
    if c["base"] == "Settings":
        hints = {"debug": "bool", "version": "str", "secret_key": "str | None"}
        values = {"debug": False, "version": asyncz.__version__, "secret_key": None}
    props = set() if c["base"] == "BaseSettings" else {"dashboard_config"}
    mod = types.ModuleType("vp_settings")
    sys.modules["vp_settings"] = mod
    saved: dict = {}
    try:
        for i, lv in enumerate(c["levels"]):
            src = (["from __future__ import annotations"] if lv["future"] else []) + ["from pathlib import Path", "from typing import Annotated, Optional", "class S(Base):", "    pass"]
            for n, (typ, has, dv) in lv["fields"].items():
                src.append(f"    {n}: {typ}" + (f" = {dv!r}" if has else ""))
                hints[n] = typ
                if has:
                    values[n] = dv
            for n, v in lv["plain"].items():
                src.append(f"    {n} = {v!r}")
                values[n] = v
            if lv["unresolved"]:
                src.append(f"    odd{i}: 'NoSuchName' = {i}")
                hints[f"odd{i}"] = "?"
                values[f"odd{i}"] = i
            if c["prop"] and i == 0:
                src += ["    @property", "    def prop(self): return 'p'", "    @property", "    def failing(self): raise OSError()", "    @property", "    def nothing(self): return None"]
            mod.__dict__["Base"] = cls
            exec(compile("\n".join(src), f"<settings {i}>", "exec", dont_inherit=True), mod.__dict__)
            cls = mod.__dict__["S"]
        env = {k.upper(): v for k, v in c["env"].items()}
        if c["near"] is not None:
            env.setdefault(c["near"], "near")
        for k in {n.upper() for n in NAMES + ["debug", "secret_key", "version"]} | set(env):
            saved[k] = os.environ.pop(k, None)
        os.environ.update(env)
        want: dict = {}
        bad = False
        for n, typ in hints.items():
            if n.upper() in env:
                try:
                    want[n] = cast(typ, env[n.upper()])
                except Refused:
                    bad = True
            else:
                want[n] = c["kwargs"][n] if n in c["kwargs"] else values.get(n)
        src_env = any(n.upper() in env for n in hints)
        try:
            s = cls(**c["kwargs"])
        except ValueError as e:
            check(bad, f"settings were refused: {e}; environment {env}, hints {hints}")
            return Outcome(True, ["refused"])
        check(not bad, lambda: f"a malformed value was accepted: environment {env}, hints {hints}: { {n: getattr(s, n) for n in hints} }")
        same(s, want)
        extra = {n: v for n, v in values.items() if n not in hints}
        for n, v in extra.items():
            check(getattr(s, n) == c["kwargs"].get(n, v), f"{n} is {getattr(s, n)!r}")
        for dump in c["dumps"]:
            kw = {k: v for k, v in dump.items() if v is not None}
            if "exclude" in kw:
                kw["exclude"] = set(kw["exclude"])
            got = s.dict(**kw)
            ex = kw.get("exclude", set())
            exp = {k: v for k, v in want.items()}
            if kw["include_properties"]:
                if c["prop"]:
                    exp.update({"prop": "p", "nothing": None})
                if props:
                    got.pop("DASHBOARD_CONFIG" if kw["upper"] else "dashboard_config", None)
            exp = {(k.upper() if kw["upper"] else k): v for k, v in exp.items() if k not in ex and not (kw["exclude_none"] and v is None)}
            check({k: kind(v) for k, v in got.items()} == {k: kind(v) for k, v in exp.items()}, lambda: f"dict({kw}) is {got}, expected {exp}")  # noqa: B023
            pairs = [(k, v) for k, v in s.tuple(**kw) if k.lower() != "dashboard_config"]
            check([(k, kind(v)) for k, v in pairs] == [(k, kind(v)) for k, v in got.items()], f"tuple({kw}) is {pairs}")
        return Outcome(src_env, ["env" if src_env else "noenv", c["base"]])
    finally:
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        sys.modules.pop("vp_settings", None)


def kind(v: Any) -> Any:
    return (type(v).__name__, "nan" if isinstance(v, float) and math.isnan(v) else v)


def same(s: Any, want: dict) -> None:
    for n, v in want.items():
        check(kind(getattr(s, n)) == kind(v), lambda: f"{n} is {getattr(s, n)!r}, expected {v!r}")  # noqa: B023


PARTS = [
    Part("config", lambda: CASE, run_config, quick=1600, thorough=24000, case_s=30),
    Part("settings", lambda: SETTINGS, run_settings, quick=2400, thorough=40000),
]
