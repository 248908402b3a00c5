"""P31: command-line options and commands mean the same as the API."""

from __future__ import annotations

import asyncio
import contextlib
import json
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import threading
import time
from datetime import datetime, timedelta
from typing import Any

from hypothesis import strategies as st

from vp import backends, clock, crongen, cronref, shell, targets
from vp import tz as TZ
from vp.runner import Outcome, Part, check
from vp.taskgen import T0

PROPERTY = "P31"
RULE = (
    "add: `asyncz add` with generated trigger, argument, id and name option texts (valid ones rendered from structured values, spoiled ones, several or none) on a durable store or an application's scheduler in some zone: either refused with a message and nothing stored, or exactly the task the values say is there, with the run times they say. "
    "stores: store texts of every documented form (and spoiled ones): a task added through the text is found by the API in exactly the named database, directory, server or nowhere else, under the alias said. "
    "start: `asyncz start` with executor texts, zones, and jobs from JSON/YAML files or registries: the scheduler started has exactly the executors said, the store exactly the jobs. "
    "commands: generated command sequences over two durable stores against the same operations through the API on a twin pair of stores: same acceptance, same stored tasks, same runs; listing, preview, status, dry-run and diagnostic commands report what the API reports and change and run nothing. "
    "stop: standalone runs with hooks and watched files interrupted at a random moment: hooks run in pairs, changed jobs are loaded, the scheduler is stopped. "
    "Non-trivial: add: a valid option besides a plain interval, or a refusal; stores: a store other than memory or a refusal; start: something was configured; commands: at least two mutating commands had an effect; stop: a hook was given."
)
ASSUMPTIONS = [
    "Unless an application's scheduler is used the commands' own scheduler runs in the machine's local zone.",
    "A stand-in takes the place of the MongoDB client; Redis is a private server on the loopback interface.",
]

scratch_root = backends.scratch_root


class Box:
    dir: str = ""
    n = 0
    redis: Any = None
    port = 0


BOX = Box()


@contextlib.contextmanager
def session() -> Any:
    os.environ.pop(backends.KEY_ENV, None)
    shell.load()
    BOX.dir = tempfile.mkdtemp(prefix="vpc", dir=scratch_root())
    try:
        yield
    finally:
        if BOX.redis is not None:
            BOX.redis.kill()
            BOX.redis.wait()
            BOX.redis = None
        shutil.rmtree(BOX.dir, ignore_errors=True)


def fresh(kind: str) -> tuple:
    """the text a user writes, and the configuration an API user gives"""
    BOX.n += 1
    path = os.path.join(BOX.dir, f"{kind}{BOX.n}")
    if kind == "file":
        return f"file://{path}", {"type": "file", "directory": path}
    return f"sqlite:///{path}.db", {"type": "sqlalchemy", "database": f"sqlite:///{path}.db"}


def redis_port() -> int:
    if BOX.redis is None:
        from redis import Redis

        for _ in range(5):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                BOX.port = s.getsockname()[1]
            BOX.redis = subprocess.Popen(
                ["redis-server", "--port", str(BOX.port), "--bind", "127.0.0.1", "--save", "", "--appendonly", "no", "--dir", BOX.dir], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL
            )
            for _ in range(200):
                with contextlib.suppress(Exception):
                    if BOX.redis.poll() is None and Redis(host="127.0.0.1", port=BOX.port).ping():
                        return BOX.port
                if BOX.redis.poll() is not None:
                    break
                time.sleep(0.02)
            BOX.redis.kill()
            BOX.redis.wait()
        BOX.redis = None
        raise backends.HarnessGap("redis-server does not start")
    return BOX.port


def facts(t: Any, state: Any = None) -> dict:
    return {
        "name": t.name,
        "callable": t.fn_reference,
        "args": typed(list(t.args or ())),
        "kwargs": typed(dict(t.kwargs or {})),
        "executor": t.executor,
        "coalesce": t.coalesce,
        "max_instances": t.max_instances,
        "grace": t.mistrigger_grace_time,
        "trigger": f"{type(t.trigger).__name__} {t.trigger}",
        "next": t.next_run_time,
        "state": state,
    }


def typed(v: Any) -> Any:
    if isinstance(v, (list, tuple)):
        return [typed(x) for x in v]
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    return (type(v).__name__, v)


def look(stores: dict) -> dict:
    """(alias, id) -> facts, read by an API user"""
    out = {}
    with shell.api(stores) as (s, _):
        for alias in stores:
            for t in s.get_tasks(alias):
                out[(alias, t.id)] = facts(t, s.get_task_info(t.id, alias).schedule_state.value if hasattr(s, "get_task_info") else None)
    return out


def refused(said: Any) -> None:
    check(said.text, lambda: f"{said!r} is refused without a message")


# ------------------------------------------------------------------ option texts

_value = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-5, 10**20), st.sampled_from([0.5, -2.0, 1e300]), st.sampled_from(["", "a", " b ", "ü€😀", '"', "\\", "[red]", "--x", "100%", "null"])),
    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["a", "b", "key", "a b"]), x, max_size=3)),
    max_leaves=4,
)
def mostly(good: Any, bad: Any, n: int = 9) -> Any:
    """one in n + 1 from the spoiled ones"""
    good, bad = (x if isinstance(x, st.SearchStrategy) else st.sampled_from(x) for x in (good, bad))
    return st.integers(0, n).flatmap(lambda k: bad if k == n else good)


_args = st.one_of(
    st.none(),
    mostly(
        st.tuples(st.just("ok"), st.lists(_value, max_size=4), st.booleans()),
        st.tuples(st.just("bad"), st.sampled_from(['"ab"', '{"a": 1}', "{}", '""', "1", "null", "true", "[1", "a", "[1,]", "['a']", "[] []"])),
        n=5,
    ),
)
_kwargs = st.one_of(
    st.none(),
    mostly(
        st.tuples(st.just("ok"), st.dictionaries(st.sampled_from(["a", "b", "key", "ü", "x1"]), _value, max_size=3), st.booleans()),
        st.tuples(st.just("bad"), st.sampled_from(['"ab"', "[]", '[["a", 1]]', "1", "null", "{a: 1}", '{"a": 1', "a=1"])),
        n=5,
    ),
)

_interval = st.tuples(st.just("interval"), st.one_of(st.integers(1, 90), st.integers(1, 10**6)), st.sampled_from("smh"), st.integers(0, 7))
_interval_bad = st.tuples(st.just("interval_bad"), st.sampled_from(["10", "s", "-5s", "1.5s", "10d", "0s", "0h", "000m", "5 s x", "5sm", "1h30m", "five s", "+5s", "5 seconds", "1_0s", "s5", "5s;", "1e3s"]))
_cron_fields = ["minute", "hour", "day", "month", "day_of_week"]


@st.composite
def _cron(draw: Any) -> tuple:
    spec = {}
    for f in _cron_fields:
        if draw(st.booleans()):
            terms = draw(st.lists(crongen.term(f).filter(lambda t: t[0] != "p" and not (f == "day" and t[0] == "r" and t[1] > 28)), min_size=1, max_size=2))
            spec[f] = terms
        else:
            spec[f] = [["*", None]]
    return ("cron", spec)


_cron_bad = st.tuples(st.just("cron_bad"), st.sampled_from(["* * * *", "* * * * * *", "61 * * * *", "a b c d e", "* 24 * * *", "* * 0 * *", "* * * 13 *", "5-1 * * * *", "*/0 * * * *", "@daily", "* * * * mun", "1;2 * * * *", "*/100 * * * *"]))
_at = st.tuples(
    st.just("at"),
    st.integers(2022, 2060),
    st.integers(1, 12),
    st.integers(1, 28),
    st.integers(0, 23),
    st.integers(0, 59),
    st.one_of(st.none(), st.integers(0, 59)),
    st.sampled_from([None, None, "Z", "+00:00", "+02:00", "-05:30", "+0545"]),
    st.sampled_from(["T", " ", "date"]),
)
_at_bad = st.tuples(st.just("at_bad"), st.sampled_from(["tomorrow", "2030-13-01", "2030-02-30T00:00:00", "10:00", "2030/01/01", "2030-01-01T25:00:00", "2030-01-01T00:00:00+25:00", "now", "1893456000.5"]))
_trigger = mostly(
    st.one_of(_interval, _cron(), _at),
    st.one_of(_interval_bad, _cron_bad, _at_bad, st.just(("none",)), st.tuples(st.just("two"), st.sampled_from([("interval", "cron"), ("cron", "at"), ("interval", "at"), ("interval", "cron", "at")]))),
    3,
)
_ids = st.sampled_from([None, "a", "nightly-cleanup", "[/x]", "ü €", "A.b_c-1", "[bold]x[/bold]", ":smile:", "x" * 100])
_names = st.sampled_from([None, "report", "[/red] daily", "a\\", "ünï cödé", "two words", "[1]", "0"])
ZONES = ["UTC", "Europe/Zurich", "America/New_York", "Asia/Kolkata", "Pacific/Auckland"]


def interval_text(n: int, unit: str, style: int) -> str:
    u = unit.upper() if style & 1 else unit
    out = f"{n}{' ' if style & 2 else ''}{u}"
    return f" {out} " if style & 4 else out


SECONDS = {"s": 1, "m": 60, "h": 3600}


def trigger_options(t: Any, zone: Any) -> tuple:
    """(options, a function next(now) -> first run time) or (options, None) when it is to be refused"""
    from asyncz.triggers import CronTrigger

    kind = t[0]
    if kind == "none":
        return {}, None
    if kind == "two":
        return {k: {"interval": "5s", "cron": "* * * * *", "at": "2030-01-01T00:00:00+00:00"}[k] for k in t[1]}, None
    if kind.endswith("_bad"):
        return {kind[:-4]: t[1]}, None
    if kind == "interval":
        _, n, unit, style = t
        d = timedelta(seconds=n * SECONDS[unit])

        def runs(now: datetime) -> list:
            return [now + d * k for k in (1, 2, 3)]

        return {"interval": interval_text(n, unit, style)}, runs
    if kind == "cron":
        texts = {f: cronref.render(f, t[1][f]) for f in _cron_fields}

        def runs(now: datetime) -> list:
            # P01 and P02 decide what the fields mean
            trig = CronTrigger(timezone=zone, **texts)
            out: list = []
            prev = None
            for _ in range(3):
                prev = trig.get_next_trigger_time(zone, prev, now if prev is None else prev)
                if prev is None:
                    break
                out.append(prev)
            return out

        return {"cron": " ".join(texts[f] for f in _cron_fields)}, runs
    _, y, mo, d, h, mi, sec, off, sep = t
    if sep == "date":
        wall, text = datetime(y, mo, d), f"{y}-{mo:02}-{d:02}"
        off = None
    else:
        wall = datetime(y, mo, d, h, mi, sec or 0)
        text = f"{y}-{mo:02}-{d:02}{sep}{h:02}:{mi:02}" + (f":{sec:02}" if sec is not None else "") + (off or "")
    when = datetime.strptime(wall.strftime("%Y%m%d%H%M%S") + off.replace(":", "").replace("Z", "+0000"), "%Y%m%d%H%M%S%z") if off else wall.replace(tzinfo=zone)
    return {"at": text}, lambda now: [when]


def local_zone() -> Any:
    from tzlocal import get_localzone

    return get_localzone()


ADD = st.fixed_dictionaries(
    {
        "trigger": _trigger,
        "args": _args,
        "kwargs": _kwargs,
        "id": _ids,
        "name": _names,
        "fn": mostly(["vp.targets:anyargs"], ["vp.targets:nope", "vp.targets", "nope.nope:x", "vp.targets:TRIGGERS_BROKEN", ""]),
        "store": st.sampled_from(["sql", "sql", "file"]),
        "alias": st.sampled_from(["durable", "durable", "default", "Main", "sqlite", "jobs"]),
        "boot": st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(ZONES), st.sampled_from(["vp.shell:boot", "vp.shell:Boot", "vp.shell:instance"]))),
    }
)


def json_option(v: Any) -> Any:
    return None if v is None else v[1] if v[0] == "bad" else json.dumps(v[1], ensure_ascii=v[2])


def run_add(c: dict) -> Outcome:
    from asyncz.cli.bootstrap_loader import clear_bootstrap_cache
    from asyncz.schedulers import AsyncIOScheduler

    with clock.virtual(TZ.at(T0)):
        now = TZ.at(T0)
        text, config = fresh(c["store"])
        alias = c["alias"]
        stores = {alias: config}
        where: list = ["--store", f"{alias}={text}"]
        zone: Any = local_zone()
        if c["boot"]:
            clear_bootstrap_cache()
            shell.BOOT = AsyncIOScheduler(stores=stores, timezone=c["boot"][0])
            zone = shell.BOOT.timezone
            where = ["--bootstrap", c["boot"][1]]
        options, runs = trigger_options(c["trigger"], zone)
        line = ["add", c["fn"], *where]
        for k, v in options.items():
            line += [f"--{k}", v]
        bad = runs is None or c["fn"] != "vp.targets:anyargs"
        for k in ("args", "kwargs"):
            v = json_option(c[k])
            if v is not None:
                line += [f"--{k}", v]
                bad = bad or c[k][0] == "bad"
        for k in ("id", "name"):
            if c[k] is not None:
                line += [f"--{k}", c[k]]
        odd = c["store"] == "file" and c["id"] is not None and any(ch in c["id"] for ch in "/[]:\\ ")
        said = shell.run(*line)
        try:
            have = look(stores)
            if bad or (odd and not said.ok):
                check(not said.ok, lambda: f"{said!r}: an option makes no sense, it must be refused")
                refused(said)
                check(not have, lambda: f"{said!r} is refused, the store has {have}")
            else:
                check(said.ok, lambda: f"{said!r}: must be accepted")
                if c["boot"] and runs(now)[:1] <= [now]:
                    # a scheduler of an application takes care of what is due
                    return Outcome(False, ["due"])
                check(len(have) == 1, lambda: f"{said!r}: the store has {have}")
                (((_, i), f),) = have.items()
                check(c["id"] in (None, i), lambda: f"{said!r}: the task has the id {i!r}")
                want = {
                    "name": c["name"] or "anyargs",
                    "callable": "vp.targets:anyargs",
                    "args": typed(c["args"][1] if c["args"] else []),
                    "kwargs": typed(c["kwargs"][1] if c["kwargs"] else {}),
                    "executor": "default",
                }
                for k, v in want.items():
                    check(f[k] == v, lambda: f"{said!r}: {k} is {f[k]!r} instead of {v!r}")  # noqa: B023
                with shell.api(stores, timezone=zone) as (s, _):
                    times = list(s.preview_task_runs(i, count=3).run_times)
                want_times = runs(now)
                check(times == want_times, lambda: f"{said!r}: it is going to run at {times} instead of {want_times}")
        finally:
            shell.BOOT = None
    return Outcome(bad or c["trigger"][0] != "interval" or c["args"] or c["kwargs"], ["refused" if bad else c["trigger"][0], *(["boot"] if c["boot"] else [])])


# ------------------------------------------------------------------ stores

_good_store = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["sql", "sql", "file", "file", "memory", "plain", "redis", "mongo"]),
        "alias": st.sampled_from(["durable", "default", "sqlite", "sql", "cache", "Main", "memory", "file", "a b", "x-1", "sqlalchemy"]),
        "pad": st.integers(0, 3),
        "db": st.integers(0, 9),
    }
)
_bad_store = st.fixed_dictionaries({"bad": st.sampled_from(["foo", "durable", "sqlite", "durable=", "=memory", " =memory", "x=foo", "memory=foo", "x=nope://a/b", "durable=nope://a", "=", "cache=foo:1", "file", "x=redis://h:port/0", "redis", "mongodb"])})
STORES = st.fixed_dictionaries({"specs": mostly(
            st.lists(_good_store, min_size=1, max_size=3, unique_by=lambda x: x["alias"]),
            st.one_of(st.lists(_good_store, min_size=1, max_size=3), st.tuples(st.lists(_good_store, max_size=1), st.lists(_bad_store, min_size=1, max_size=1)).map(lambda x: x[0] + x[1])),
            2,
        )})


def run_stores(c: dict) -> Outcome:
    import asyncz.stores.mongo as M

    mongo: dict = {}
    seen: list = []

    class Client(backends.FakeMongo):
        def __init__(self, *a: Any, **kw: Any) -> None:
            seen.append((a, kw))
            host = kw.get("host", a[0] if a else None)
            super().__init__(mongo.setdefault(host, {}))

    texts: list = []
    expect: dict = {}
    bad = False
    for n, sp in enumerate(c["specs"]):
        if "bad" in sp:
            texts.append(sp["bad"])
            bad = True
            continue
        kind, alias = sp["kind"], sp["alias"]
        if kind == "plain":
            texts.append("memory")
            alias, config = ("default" if n == 0 else "memory"), {"type": "memory"}
        else:
            if kind in ("sql", "file"):
                value, config = fresh(kind)
            elif kind == "memory":
                value, config = "memory", {"type": "memory"}
            elif kind == "redis":
                value = f"redis://127.0.0.1:{redis_port()}/{n * 5 + sp['db'] % 5}"
                config = {"type": "redis", "host": "127.0.0.1", "port": BOX.port, "database": n * 5 + sp["db"] % 5}
            else:
                BOX.n += 1
                value, config = f"mongodb://h{BOX.n}:27017/d{sp['db']}", {"type": "mongo", "url": f"mongodb://h{BOX.n}:27017/d{sp['db']}", "db": f"d{sp['db']}"}
            texts.append((" " if sp["pad"] & 1 else "") + alias + "=" + (" " if sp["pad"] & 2 else "") + value)
        bad = bad or alias in expect
        expect[alias] = config
    where = [x for t in texts for x in ("--store", t)]
    old = M.MongoClient
    M.MongoClient = Client
    if BOX.redis is not None:
        from redis import Redis

        Redis(host="127.0.0.1", port=BOX.port).flushall()
    try:
        said = shell.run("add", "vp.targets:plain", "--interval", "1h", "--id", "it", *where)
        status = shell.run("status", "--json", *where)
        listed = shell.run("list", "--json", *where)
        if bad:
            for x in (said, status, listed):
                check(not x.ok, lambda: f"{x!r}: must be refused")  # noqa: B023
                refused(x)
            return Outcome(True, ["refused"])
        for x in (said, status, listed):
            check(x.ok, lambda: f"{x!r}: must be accepted")  # noqa: B023
        check(set(json.loads(status.out)["stores"]) == {*expect, "default"}, lambda: f"{status!r} does not list the stores {[*expect]}")
        first = next(iter(expect))
        rows = json.loads(listed.out)
        want = [("it", first)] if expect[first]["type"] != "memory" else []
        check([(r["id"], r["store"]) for r in rows] == want, lambda: f"{said!r}, then {listed!r}: must list {want}")
        for alias, config in expect.items():
            if config["type"] == "memory":
                continue
            if config["type"] == "mongo":
                found = sorted(mongo.get(config["url"], {}).get((config["db"], "tasks"), {}))
            else:
                with shell.api({"default": config}) as (s, _):
                    found = [t.id for t in s.get_tasks("default")]
            check(found == (["it"] if alias == first else []), lambda: f"{said!r}: an API user finds {found} in {config}")  # noqa: B023
    finally:
        M.MongoClient = old
    return Outcome(any(x["type"] != "memory" for x in expect.values()), sorted({x["type"] for x in expect.values()}))


# ------------------------------------------------------------------ start

_executor = mostly(
    st.tuples(st.sampled_from(["default", "io", "cpu", "X"]), st.sampled_from(["asyncio", "thread", "threads", "pool", "process", "proc", "processpool", "debug", "THREAD", " thread "]), st.sampled_from([None, None, None, 1, 2, 7])),
    ["thread", "io=", "io=nope", "io=thread:x", "io=thread:1.5", "io=thread:0", "io=thread:-2", "io=process:0", "io=thread:2:3"],
)
_job = st.fixed_dictionaries(
    {
        "name": st.sampled_from([None, "ping", "[/x]", "daily report"]),
        "trigger": st.one_of(_interval, _cron(), _at),
        "args": st.one_of(st.none(), st.lists(_value, max_size=3)),
        "kwargs": st.one_of(st.none(), st.dictionaries(st.sampled_from(["a", "b"]), _value, max_size=2)),
    }
)
START = st.fixed_dictionaries(
    {
        "executors": mostly(st.lists(_executor, max_size=3, unique_by=lambda e: e[0]), st.lists(_executor, max_size=3)),
        "zone": st.sampled_from([None, *ZONES]),
        "jobs": st.lists(_job, max_size=3),
        "by": st.sampled_from(["json", "yaml", "yml", "registry", "object"]),
        "raw": st.booleans(),  # times as YAML has them
        "spoil": st.integers(0, 9),
        "hooks": st.sampled_from(["sync", "async"]),
    }
)
KINDS = {"asyncio": "AsyncIOExecutor", "thread": "ThreadPoolExecutor", "threads": "ThreadPoolExecutor", "pool": "ThreadPoolExecutor", "process": "ProcessPoolExecutor", "proc": "ProcessPoolExecutor", "processpool": "ProcessPoolExecutor", "debug": "DebugExecutor"}


def workers_of(e: Any) -> Any:
    import concurrent.futures

    for v in vars(e).values():
        if isinstance(v, concurrent.futures.Executor):
            return v._max_workers  # type: ignore[attr-defined]
    return None


def run_start(c: dict) -> Outcome:
    import yaml

    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    with clock.virtual(TZ.at(T0)):
        now = TZ.at(T0)
        text, config = fresh("sql")
        zone = __import__("zoneinfo").ZoneInfo(c["zone"]) if c["zone"] else local_zone()
        line = ["start", "--store", f"default={text}", "--on-start", "vp.shell:up" if c["hooks"] == "sync" else "vp.shell:aup", "--on-stop", "vp.shell:down" if c["hooks"] == "sync" else "vp.shell:adown"]
        bad = False
        want_ex: dict = {}
        lenient = False
        for e in c["executors"]:
            if isinstance(e, str):
                line += ["--executor", e]
                bad = True
            else:
                alias, kind, n = e
                line += ["--executor", f"{alias}={kind}" + (f":{n}" if n else "")]
                kind = KINDS[kind.strip().lower()]
                if n and not kind.endswith("PoolExecutor"):
                    lenient = True
                bad = bad or alias in want_ex
                want_ex[alias] = (kind, n)
        if c["zone"]:
            line += ["--timezone", c["zone"]]
        want: list = []
        jobs: list = []
        for j in c["jobs"]:
            options, runs = trigger_options(j["trigger"], zone)
            entry: dict = {"func": "vp.targets:anyargs"}
            if c["by"] in ("registry", "object"):
                ((k, v),) = options.items()
                t = j["trigger"]
                if k == "interval":
                    entry["trigger"] = IntervalTrigger(seconds=t[1] * SECONDS[t[2]])
                elif k == "cron":
                    entry["trigger"] = CronTrigger.from_crontab(v)
                else:
                    entry["trigger"] = DateTrigger(run_at=runs(now)[0])
                if c["raw"]:
                    entry["func"] = targets.anyargs
            else:
                ((k, v),) = options.items()
                entry[k] = v
                if k == "at" and c["raw"] and c["by"] != "json" and j["trigger"][7] in (None, "+02:00") and (j["trigger"][6] is not None or j["trigger"][8] == "date"):
                    # unquoted in YAML: a date(time) of its own
                    entry[k] = datetime.fromisoformat(v) if j["trigger"][8] != "date" else datetime.fromisoformat(v).date()
            for k in ("name", "args", "kwargs"):
                if j[k] is not None:
                    entry[k] = j[k]
            jobs.append(entry)
            want.append((j["name"] or "anyargs", typed(j["args"] or []), typed(j["kwargs"] or {}), runs(now)))
        if c["spoil"] == 0 and jobs and c["by"] not in ("registry", "object"):
            bad = True
            x = jobs[-1]
            x.pop("interval", None) or x.pop("cron", None) or x.pop("at", None)
        shell.LOG.clear()
        shell.SEEN.clear()
        shell.ON_START = None
        if c["by"] in ("registry", "object"):
            shell.JOBS = jobs
            line += ["--module", "vp.shell:" + ("registry" if c["by"] == "registry" else "JOBS")]
        else:
            BOX.n += 1
            p = os.path.join(BOX.dir, f"jobs{BOX.n}.{c['by']}")
            data = {"jobs": jobs} if jobs or c["raw"] else {}
            with open(p, "w", encoding="utf-8") as f:
                f.write(json.dumps(data) if c["by"] == "json" else yaml.safe_dump(data, allow_unicode=True))
            line += ["--config", p]
        found: dict = {}
        states: list = []

        def at_start() -> None:
            s = shell.SEEN[-1] if shell.SEEN else None
            if s is not None:
                states.append(s.running)
                for alias, e in s.executors.items():
                    found[alias] = (type(e).__name__, workers_of(e))
                found["zone"] = str(s.timezone)

        shell.ON_START = at_start
        try:
            said = shell.run(*line)
        finally:
            shell.ON_START = None
        if lenient and not said.ok:
            refused(said)
            return Outcome(True, ["refused"])
        if bad:
            check(not said.ok, lambda: f"{said!r}: must be refused")
            refused(said)
            check(not shell.LOG, lambda: f"{said!r} is refused, the hooks ran: {shell.LOG}")
            return Outcome(True, ["refused"])
        check(said.ok, lambda: f"{said!r} with {jobs}: must be accepted")
        check(shell.LOG == ["up", "down"], lambda: f"{said!r}: the hooks ran {shell.LOG}")
        if shell.SEEN and not lenient:
            want_ex.setdefault("default", ("AsyncIOExecutor", None))
            check(states == [True], lambda: f"{said!r}: on start the scheduler is not running")
            check({k: v[0] for k, v in found.items() if k != "zone"} == {k: v[0] for k, v in want_ex.items()}, lambda: f"{said!r}: has the executors {found} instead of {want_ex}")
            for alias, (_, n) in want_ex.items():
                check(n is None or found[alias][1] == n, lambda: f"{said!r}: executor {alias} has {found[alias][1]} workers instead of {n}")  # noqa: B023
            check(c["zone"] is None or found["zone"] == c["zone"], lambda: f"{said!r}: runs in {found['zone']}")
            check(not shell.SEEN[-1].running, lambda: f"{said!r}: the scheduler is still running")
        with shell.api({"default": config}, timezone=zone) as (s, _):
            got = [(t.name, typed(list(t.args)), typed(dict(t.kwargs)), list(s.preview_task_runs(t.id, count=3).run_times)) for t in s.get_tasks()]
        # what is due at once may have been taken care of
        late = [w for w in want if w[3] and w[3][0] <= now]
        future = [w for w in want if not w[3] or w[3][0] > now]
        got_f = [g for g in got if not g[3] or g[3][0] > now]

        def key(g: tuple) -> Any:
            return repr((*g[:3], [t.timestamp() for t in g[3]]))

        check(sorted(got_f, key=key) == sorted((w for w in future if w[3]), key=key) or (late and all(w in got_f for w in future if w[3])), lambda: f"{said!r}: the store has {got}, the jobs are {want}")
    return Outcome(bool(c["executors"] or jobs or c["zone"]), [c["by"] if jobs else "none"])


# ------------------------------------------------------------------ commands

_fields = st.fixed_dictionaries(
    {},
    optional={
        "name": mostly(["renamed", "[/y]"], [""]),
        "callable": mostly(["vp.targets:late", "vp.targets:alate"], ["vp.targets:nope", "nope"]),
        "args": mostly(["[]", '["x"]', "[1, 2]"], ['"ab"', "{}", "[1"]),
        "kwargs": mostly(["{}", '{"tag": 3}'], ['{"nope": 3}', "[]", '"a"']),
        "executor": mostly(["default", "other"], [""]),
        "coalesce": mostly(["true", "False", "1", "0", "yes", " No ", "on", "off"], ["maybe", ""]),
        "max-instances": mostly(["1", "3"], ["0", "0", "-1", "x"], 3),
        "mistrigger-grace-time": mostly(["1", "2.5", "3600"], ["0", "0", "-1", "x"], 4),
        "clear-mistrigger-grace-time": st.just(True),
    },
)
_which = st.sampled_from([0, 0, 0, 1, 1, 2, 3])
_where = st.sampled_from(["ab", "ab", "ba", "a", "b"])
_add = st.tuples(st.just("add"), _where, _which, st.sampled_from(["late", "alate", "late", "failing"]), st.sampled_from([["interval", "5s"], ["interval", "1h"], ["cron", "*/10 * * * *"], ["at", "2024-03-01T06:00:00+00:00"], ["at", "2020-01-01T00:00:00+00:00"], ["at", "2040-01-01T00:00:00+00:00"]]))
_act = st.one_of(
    st.tuples(st.sampled_from(["pause", "resume", "remove", "run", "pause", "run"]), _where, _which),
    st.tuples(st.just("update"), _where, _which, _fields, st.sampled_from(["yes", "yes", "dry", "dry-yes", "ask-no", "ask-yes", "json", "json"])),
)
_look = st.one_of(
    st.tuples(
        st.just("list"),
        _where,
        st.fixed_dictionaries(
            {},
            optional={
                "state": st.sampled_from(["paused", "Scheduled ", "pending", "bogus"]),
                "executor": st.sampled_from(["default", "other"]),
                "trigger": st.sampled_from(["interval", "CronTrigger", "date", "zz"]),
                "query": st.sampled_from(["late", "ALATE", "t1", "zz", "renamed"]),
                "sort-by": st.sampled_from(["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger", "bogus"]),
                "desc": st.just(True),
            },
        ),
        st.booleans(),
    ),
    st.tuples(st.sampled_from(["inspect", "preview"]), _where, _which, st.sampled_from([None, 1, 3, 50, 0, 51, -1]), st.booleans()),
    st.tuples(st.just("timeline"), _where, st.sampled_from([None, 1, 4, 10, 0, 99]), st.sampled_from([None, 1, 3, 500, 0, 9999]), st.booleans()),
    st.tuples(st.sampled_from(["status", "doctor", "instances"]), _where, st.booleans()),
    st.tuples(st.just("advance"), st.sampled_from([1, 6, 600, 4000, 90000])),
)
_step = st.integers(0, 7).flatmap(lambda k: _add if k == 0 else _act if k < 5 else _look)
COMMANDS = st.fixed_dictionaries({"boot": st.integers(0, 3).map(lambda k: k == 3), "kinds": st.tuples(st.sampled_from(["sql", "sql", "file"]), st.sampled_from(["sql", "file"])), "steps": st.tuples(st.lists(_add, min_size=1, max_size=3), st.lists(_step, min_size=4, max_size=16)).map(lambda x: x[0] + x[1])})


def calls() -> list:
    out = list(targets.CALLS)
    targets.CALLS.clear()
    return out


async def api_run(s: Any, i: str) -> None:
    """run now, through the API, until the runs are over"""
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED, TASK_SUBMITTED

    count = {"want": 0, "have": 0}

    def hear(e: Any) -> None:
        if e.task_id == i:
            if e.code == TASK_SUBMITTED:
                count["want"] += len(e.scheduled_run_times)
            else:
                count["have"] += 1

    s.add_listener(hear, TASK_SUBMITTED | TASK_EXECUTED | TASK_ERROR | TASK_MISSED)
    s.run_task(i)
    for _ in range(5000):
        if count["have"] >= count["want"]:
            return
        await asyncio.sleep(0.002)
    raise backends.HarnessGap(f"the run of {i} does not end")


def plain_json(v: Any) -> Any:
    return json.loads(json.dumps(v, default=str))


FLAGS = {"1": True, "true": True, "yes": True, "on": True, "0": False, "false": False, "no": False, "off": False}


def run_commands(c: dict) -> Outcome:
    from asyncz.cli.bootstrap_loader import clear_bootstrap_cache
    from asyncz.schedulers import AsyncIOScheduler

    labels: set = set()
    effects = 0
    with clock.virtual(TZ.at(T0)) as vc:
        texts, mine, twins = {}, {}, {}
        for alias, kind in zip("ab", c["kinds"]):
            texts[alias], mine[alias] = fresh(kind)
            _, twins[alias] = fresh(kind)

        def order(stores: dict, where: str) -> dict:
            return {k: stores[k] for k in where}

        def both(where: str) -> list:
            if c["boot"]:
                return ["--bootstrap", "vp.shell:boot"]
            return [x for k in where for x in ("--store", f"{k}={texts[k]}")]

        def command(*line: str, where: str, answer: Any = None) -> Any:
            if not c["boot"]:
                return shell.run(*line, *both(where), answer=answer)
            # each command is a process of its own, with a scheduler of its own
            clear_bootstrap_cache()
            shell.BOOT = AsyncIOScheduler(stores=order(mine, where))
            try:
                return shell.run(*line, *both(where), answer=answer)
            finally:
                with contextlib.suppress(Exception):
                    shell.BOOT.shutdown(wait=False)
                shell.BOOT = None

        def api_op(where: str, op: Any) -> Any:
            """the exception, if any"""
            with shell.api(order(twins, where)) as (s, loop):

                async def go() -> Any:
                    r = op(s)
                    return await r if asyncio.iscoroutine(r) else r

                try:
                    loop.run_until_complete(go())
                except Exception as e:
                    return e
            return None

        targets.CALLS.clear()
        for step in c["steps"]:
            kind = step[0]
            if c["boot"] and kind == "add" and step[4][1] in ("5s", "2020-01-01T00:00:00+00:00", "2024-03-01T06:00:00+00:00"):
                # the scheduler of an application takes care of what is due
                step = (*step[:4], ["interval", "1h"])
            if kind == "advance":
                if c["boot"]:
                    continue
                clock.set_now(clock.STATE.now + timedelta(seconds=step[1]))
                continue
            where = step[1]
            before = look(order(mine, "ab"))
            if kind in ("add", "pause", "resume", "remove", "run", "update"):
                i = f"t{step[2]}"
                answer = None
                applies = True
                bad = False
                if kind == "add":
                    _, _, _, fn, (opt, text) = step
                    line = ["add", f"vp.targets:{fn}", "--id", i, f"--{opt}", text, "--args", json.dumps([f"{i}{where[0]}"])]
                    conf = {"interval": lambda: {"trigger": "interval", "seconds": {"5s": 5, "1h": 3600}[text]}, "cron": lambda: {"trigger": "cron", "minute": "*/10", "hour": "*", "day": "*", "month": "*", "day_of_week": "*"}, "at": lambda: {"trigger": "date", "run_at": text}}[opt]()  # noqa: B023

                    def op(s: Any) -> Any:
                        s.add_task(f"vp.targets:{fn}", id=i, args=[f"{i}{where[0]}"], store=where[0], **conf)  # noqa: B023
                elif kind == "update":
                    _, _, _, fields, how = step
                    line = ["update", i]
                    updates: dict = {}
                    for k, v in fields.items():
                        if v is True:
                            line.append(f"--{k}")
                        else:
                            line += [f"--{k}", v]
                    for k, v in fields.items():
                        bad = bad or v == "-1"  # reads like an option
                        try:
                            if k in ("name", "executor"):
                                updates[k] = v
                            elif k == "callable":
                                updates["fn"] = v
                            elif k in ("args", "kwargs"):
                                updates[k] = json.loads(v)
                                bad = bad or not isinstance(updates[k], list if k == "args" else dict)
                            elif k == "coalesce":
                                updates[k] = FLAGS[v.strip().lower()]
                            elif k == "max-instances":
                                updates["max_instances"] = int(v)
                            elif k == "mistrigger-grace-time":
                                updates.setdefault("mistrigger_grace_time", float(v))
                            else:
                                updates["mistrigger_grace_time"] = None
                        except (ValueError, KeyError):
                            bad = True
                    if "clear-mistrigger-grace-time" in fields:
                        updates["mistrigger_grace_time"] = None
                    bad = bad or not fields
                    if how == "yes":
                        line.append("--yes")
                    elif how == "json":
                        line += ["--yes", "--json"]
                    elif how in ("dry", "dry-yes"):
                        line += ["--dry-run", "--json"] + (["--yes"] if how == "dry-yes" else [])
                        applies = False
                    else:
                        answer = "y\n" if how == "ask-yes" else "n\n"
                        applies = how == "ask-yes"

                    def op(s: Any) -> Any:
                        t, alias = s.lookup_task(i, None)  # noqa: B023
                        s.update_task(i, alias, **updates)  # noqa: B023
                else:
                    line = [kind, i]

                    def op(s: Any) -> Any:
                        if kind == "run":  # noqa: B023
                            return api_run(s, i)  # noqa: B023
                        if kind == "remove":  # noqa: B023
                            return s.delete_task(i)  # noqa: B023
                        return getattr(s, f"{kind}_task")(i)  # noqa: B023

                said = command(*line, where=where, answer=answer)
                ran = calls()
                after = look(order(mine, "ab"))
                if bad:
                    check(not said.ok, lambda: f"{said!r}: an option makes no sense, it must be refused")  # noqa: B023
                    refused(said)
                    check(after == before and not ran, lambda: f"{said!r} is refused, yet {diff(before, after)} {ran}")  # noqa: B023
                    continue
                if not applies:
                    # whether it would have been refused
                    with shell.api(order(mine, where)) as (s, _):
                        try:
                            t, alias = s.lookup_task(i, None)
                            t.model_copy().update_task(scheduler=s, **updates)
                            e: Any = None
                        except Exception as x:
                            e = x
                    check(after == before and not ran, lambda: f"{said!r} must not change anything, yet {diff(before, after)} {ran}")  # noqa: B023
                    if step[4] in ("dry", "dry-yes"):
                        check(said.ok == (e is None), lambda: f"{said!r}: the API answers {e!r}")  # noqa: B023
                        if said.ok:
                            data = json.loads(said.out)
                            check(data["dry_run"] is True and data["applied"] is False, lambda: f"{said!r}: not a dry run")  # noqa: B023
                            labels.add("dry")
                    continue
                e = api_op(where, op)
                ran_twin = calls()
                twin = look(order(twins, "ab"))
                if kind == "update" and said.ok and e is None:
                    old = before[next((a, i) for a in where if (a, i) in before)]
                    new = after[next((a, i) for a in where if (a, i) in after)]
                    names = {"name": "name", "executor": "executor", "callable": "callable_reference", "args": "args", "kwargs": "kwargs", "coalesce": "coalesce", "max_instances": "max_instances", "grace": "mistrigger_grace_time"}
                    changed = {names[k] for k in names if old[k] != new[k]}
                    if step[4] == "json":
                        data = json.loads(said.out)
                        check(data["id"] == i and data["dry_run"] is False and data["applied"] is bool(changed) and data["changed"] is bool(changed), lambda: f"{said!r}: {diff(before, after)}")  # noqa: B023
                        check({k for k in data["diff"]} >= changed or {k: v for k, v in data["diff"].items() if v["before"] != v["after"]}.keys() == changed, lambda: f"{said!r}: says it changed {data['diff']}, it changed {changed}")  # noqa: B023
                        for k, v in names.items():
                            if v in changed and k not in ("args", "kwargs"):
                                check(data["diff"][v] == {"before": old[k], "after": new[k]}, lambda: f"{said!r}: {v} was {old[k]!r} and is {new[k]!r}")  # noqa: B023
                check(said.ok == (e is None), lambda: f"{said!r}: the API answers {e!r}")  # noqa: B023
                if not said.ok:
                    refused(said)
                    check(after == before, lambda: f"{said!r} is refused, yet {diff(before, after)}")  # noqa: B023
                check(after == twin, lambda: f"{said!r}: command and API differ: {diff(twin, after)}")  # noqa: B023
                check(ran == ran_twin, lambda: f"{said!r}: ran {ran}, the API ran {ran_twin}")  # noqa: B023
                if kind == "run" and said.ok:
                    labels.add("run")
                if after != before:
                    effects += 1
                    labels.add(kind)
                continue
            # the others only look
            ok = True
            want: Any = None
            line = [kind]
            with shell.api(order(mine, where)) as (s, _):
                try:
                    if kind == "list":
                        filters = dict(step[2])
                        for k, v in filters.items():
                            line += [f"--{k}"] if v is True else [f"--{k}", v]
                        from asyncz.enums import TaskScheduleState

                        state = filters.get("state")
                        infos = s.get_task_infos(
                            schedule_state=TaskScheduleState(state.strip().lower()) if state else None,
                            executor=filters.get("executor"),
                            trigger=filters.get("trigger"),
                            q=filters.get("query"),
                            sort_by=filters.get("sort-by", "next_run_time"),
                            descending=filters.get("desc", False),
                        )
                        want = [row(x) for x in infos]
                    elif kind in ("inspect", "preview"):
                        i = f"t{step[2]}"
                        line.append(i)
                        if step[3] is not None:
                            line += ["--count", str(step[3])]
                        p = s.preview_task_runs(i, count=5 if step[3] is None else step[3])
                        ok = p is not None
                        if ok:
                            want = {"task": row(s.get_task(i).snapshot()), "run_times": list(p.run_times), "exhausted": p.exhausted, "returned_count": len(p.run_times)}
                    elif kind == "timeline":
                        per, limit = step[2], step[3]
                        if per is not None:
                            line += ["--per-task", str(per)]
                        if limit is not None:
                            line += ["--limit", str(limit)]
                        per = max(1, min(10, 3 if per is None else per))
                        limit = max(1, min(500, 100 if limit is None else limit))
                        want = []
                        for x in s.get_task_infos():
                            want += [(t, x.id, x.store_alias) for t in s.preview_task_runs(x.id, x.store_alias, count=per).run_times]
                    else:
                        want = s.get_scheduler_info()
                except ValueError:
                    ok = False
            as_json = step[-1]
            said = command(*line, *(["--json"] if as_json else []), where=where)
            after = look(order(mine, "ab"))
            ran = calls()
            check(not ran, lambda: f"{said!r} only looks, yet ran {ran}")  # noqa: B023
            check(after == before, lambda: f"{said!r} only looks, yet {diff(before, after)}")  # noqa: B023
            check(said.ok == ok, lambda: f"{said!r}: the API {'answers ' + repr(want) if ok else 'refuses'}")  # noqa: B023
            if not said.ok:
                refused(said)
                continue
            labels.add(kind)
            if not as_json:
                if kind == "list":
                    for r in want:
                        check(r["id"] in said.out, lambda: f"{said!r}: {r['id']} is not shown")  # noqa: B023
                continue
            data = json.loads(said.out)
            if kind == "list":
                want = plain_json(want)
                key = ["id", "store", "name", "state", "trigger", "trigger_alias", "next_run_time", "executor", "callable_name", "callable_reference", "trigger_description"]
                check([[d[k] for k in key] for d in data] == [[d[k] for k in key] for d in want], lambda: f"{said!r}: the API lists {want}")  # noqa: B023
            elif kind in ("inspect", "preview"):
                want = plain_json(want)
                for k in ("run_times", "exhausted", "returned_count"):
                    check(data[k] == want[k], lambda: f"{said!r}: {k} is {want[k]!r} by the API")  # noqa: B023
                for k, v in data["task"].items():
                    check(k not in want["task"] or v == want["task"][k], lambda: f"{said!r}: {k} is {want['task'][k]!r} by the API")  # noqa: B023
                check(data["task"]["id"] == i and data["task"]["store"] == want["task"]["store"], lambda: f"{said!r}: another task")  # noqa: B023
            elif kind == "timeline":
                full = sorted([(str(t.astimezone(TZ.UTC)), a, b) for t, a, b in want])
                got = [(str(datetime.fromisoformat(r["run_time"]).astimezone(TZ.UTC)), r["task"]["id"], r["task"]["store"]) for r in data["rows"]]
                check([g[0] for g in got] == [f[0] for f in full][:limit], lambda: f"{said!r}: not the first {limit} of {full}")  # noqa: B023
                check(all(g in full for g in got) and (len(got) < len(full) or sorted(got) == full), lambda: f"{said!r}: not from {full}")  # noqa: B023
                check(data["total_count"] == len(full) and data["returned_count"] == len(got), lambda: f"{said!r}: {len(full)} and {len(got)} by the API")  # noqa: B023
            elif not c["boot"]:  # they show the application's scheduler as it is: not started
                d = data if kind == "status" else data["scheduler"] if kind == "doctor" else data["instances"][0]
                for k in ("task_count", "scheduled_task_count", "paused_task_count", "pending_task_count"):
                    check(d[k] == getattr(want, k), lambda: f"{said!r}: {k} is {getattr(want, k)} by the API")  # noqa: B023
                check(sorted(d["stores"]) == sorted(want.store_aliases), lambda: f"{said!r}: stores are {want.store_aliases}")  # noqa: B023
                if kind == "doctor":
                    check(data["health"] == "ok" and data["ready"] is True, lambda: f"{said!r}: nothing is wrong")  # noqa: B023
    return Outcome(effects >= 2, sorted(labels | ({"bootstrap"} if c["boot"] else set())))


def row(x: Any) -> dict:
    return {
        "id": x.id,
        "name": x.name,
        "state": x.schedule_state.value,
        "trigger": x.trigger_name,
        "trigger_alias": x.trigger_alias,
        "trigger_description": x.trigger_description,
        "next_run_time": x.next_run_time,
        "store": x.store_alias,
        "executor": x.executor,
        "callable_name": x.callable_name,
        "callable_reference": x.callable_reference,
        "coalesce": x.coalesce,
        "max_instances": x.max_instances,
        "mistrigger_grace_time": x.mistrigger_grace_time,
        "paused": x.paused,
    }


def diff(a: dict, b: dict) -> str:
    out = []
    for k in sorted({*a, *b}):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            out.append(f"{k}: {x} -> {y}" if x is None or y is None else f"{k}: " + ", ".join(f"{f} {x[f]!r} -> {y[f]!r}" for f in x if x[f] != y[f]))
    return "; ".join(out) or "nothing"


# ------------------------------------------------------------------ stop

STOP = st.fixed_dictionaries(
    {
        "hooks": st.sampled_from([None, "sync", "async", "sync", "async"]),  # how to stop
        "delay": st.integers(1, 30),
        "reloads": st.integers(0, 2),
        "jobs": st.lists(st.integers(0, 2), min_size=3, max_size=3),
        "watch": st.booleans(),
    }
)


def run_stop(c: dict) -> Outcome:
    text, config = fresh("sql")
    BOX.n += 1
    p = os.path.join(BOX.dir, f"stop{BOX.n}.json")
    reloads = c["reloads"] if c["watch"] else 0
    active = [False]

    def write(n: int) -> None:
        tmp = p + ".new"
        with open(tmp, "w") as f:
            json.dump({"jobs": [{"func": "vp.targets:plain", "interval": "1h", "name": f"job{n}.{k}"} for k in range(c["jobs"][n])]}, f)
        os.utime(tmp, (1000 + n, 1000 + n))
        os.replace(tmp, p)

    def interrupt(*_: Any) -> None:
        if active[0]:
            active[0] = False
            raise KeyboardInterrupt

    timers: list = []

    def later(fn: Any) -> None:
        t = threading.Timer(c["delay"] / 1000, fn)
        t.start()
        timers.append(t)

    main = threading.main_thread().ident
    starts = [0]

    def at_start() -> None:
        starts[0] += 1
        if starts[0] <= reloads:
            later(lambda: write(starts[0]))
        else:
            later(lambda: signal.pthread_kill(main, signal.SIGINT))  # type: ignore[arg-type]

    write(0)
    shell.LOG.clear()
    shell.ON_START = at_start
    line = ["start", "--standalone", "--store", f"default={text}", "--config", p, "--watch-interval", "0.005"]
    if c["watch"]:
        line.append("--watch")
    line += ["--on-start", "vp.shell:aup" if c["hooks"] == "async" else "vp.shell:up"]
    if c["hooks"]:
        line += ["--on-stop", "vp.shell:adown" if c["hooks"] == "async" else "vp.shell:down"]
    old = signal.signal(signal.SIGINT, interrupt)
    active[0] = True
    try:
        said = shell.run(*line)
    finally:
        active[0] = False
        for t in timers:
            t.join()
        signal.signal(signal.SIGINT, old)
        shell.ON_START = None
    check(said.ok, lambda: f"{said!r}: stopped by Ctrl+C, it must end well")
    check(shell.LOG == (["up", "down"] if c["hooks"] else ["up"]) * (reloads + 1), lambda: f"{said!r}: after {reloads} changes of the file and Ctrl+C the hooks ran {shell.LOG}")
    want = sorted(f"job{n}.{k}" for n in range(reloads + 1) for k in range(c["jobs"][n]))
    have = sorted(f["name"] for f in look({"default": config}).values())
    check(have == want, lambda: f"{said!r}: the store has the jobs {have} instead of {want}")
    return Outcome(bool(c["hooks"]), [c["hooks"] or "no stop hook", f"{reloads} reloads"])


PARTS = [
    Part("add", lambda: ADD, run_add, setup=session, quick=600, thorough=20000),
    Part("stores", lambda: STORES, run_stores, setup=session, quick=200, thorough=5000),
    Part("start", lambda: START, run_start, setup=session, quick=200, thorough=6000),
    Part("commands", lambda: COMMANDS, run_commands, setup=session, quick=240, thorough=6000),
    Part("stop", lambda: STOP, run_stop, setup=session, quick=48, thorough=1000),
]
