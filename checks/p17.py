"""P17: start, pause, resume and shutdown follow one state machine."""

from __future__ import annotations

import asyncio
import collections
import threading
import time
from typing import Any

from hypothesis import strategies as st

from vp import backends, targets
from vp import world as W
from vp.runner import Outcome, Part, check
from vp.world import SEC, Refused

PROPERTY = "P17"
RULE = (
    "machine: histories of start (also nested and paused), shutdown, pause, resume, adding and removing executors and stores (also "
    "refused ones: taken alias, wrong type, unknown plugin name; plugins whose start or shutdown fails once) and tasks, on a manual "
    "and on an asyncio scheduler; state, events, tasks and the start/shutdown calls seen by every plugin are compared with a model "
    "after every operation. Non-trivial: at least one restart and one configuration change. "
    "real: real asyncio and native schedulers (own loop, running loop, isolated loop; thread or process pools, file or SQLite store) "
    "are started, used, shut down and started again, possibly under another loop; tasks must run in every run, durable ones survive. "
    "Non-trivial: at least two runs."
)


class PluginError(Exception):
    pass


def counting(obj: Any, world: Any) -> Any:
    """Counts start/shutdown calls of a store or executor; they fail once when told to."""
    cls = type(obj)
    if not cls.__name__.startswith("Counting"):

        class Counting(cls):  # type: ignore
            def start(self, scheduler: Any, alias: str) -> None:
                c = world.count(self)
                if c.get("failstart"):
                    c["failstart"] = False
                    raise PluginError("start")
                c["on"] += 1
                return super().start(scheduler, alias)

            def shutdown(self, *a: Any, **kw: Any) -> None:
                c = world.count(self)
                c["off"] += 1
                super().shutdown(*a, **kw)
                if c.get("failstop"):
                    c["failstop"] = False
                    raise PluginError("shutdown")

        Counting.__name__ = "Counting" + cls.__name__
        obj.__class__ = Counting
    return obj


class LifeWorld(W.World):
    def _build(self) -> None:
        self.counts: dict = {}
        self.objs: list = []
        self.removed: list = []
        super()._build()
        for d in (self.stores, self.execs):
            for alias, o in d.items():
                self.track(o)
        self.bare = set(self.cfg.get("bare") or [])
        for a in self.bare:  # the defaults are made at start
            if a == "store":
                self.s.remove_store("default", shutdown=False)
                del self.stores["default"], self.held["default"]
                self.mem.remove("default")
            else:
                self.s.remove_executor("default", shutdown=False)
                del self.execs["default"]
        self.events.clear()
        self.m_events.clear()

    def track(self, o: Any) -> Any:
        counting(o, self)
        self.objs.append(o)
        self.counts[id(o)] = {"on": 0, "off": 0}
        return o

    def count(self, o: Any) -> dict:
        return self.counts[id(o)]

    # ---- configuration

    def plugin(self, op: dict) -> Any:
        kind = op["kind"]
        if kind == "new":
            return self.track(self.make_recorder(op["alias"])) if op["op"] == "exadd" else self.track(_memory())
        if kind == "name":
            return "debug" if op["op"] == "exadd" else "memory"
        if kind == "unknown":
            return "no such plugin"
        if kind == "wrong":
            return object()
        if kind == "failing":
            o = self.track(self.make_recorder(op["alias"])) if op["op"] == "exadd" else self.track(_memory())
            self.count(o)["failstart"] = True
            return o
        raise AssertionError(kind)

    def do_exadd(self, op: dict) -> Any:
        self.obj = self.plugin(op)
        return self.s.add_executor(self.obj, op["alias"])

    def do_stadd(self, op: dict) -> Any:
        self.obj = self.plugin(op)
        return self.s.add_store(self.obj, op["alias"])

    def _model_plugin(self, op: dict, container: dict) -> None:
        kind = op["kind"]
        if op["alias"] in container:
            raise Refused("invalid")
        if kind == "unknown":
            raise Refused("LookupError")
        if kind == "wrong":
            raise Refused("invalid")
        if kind == "failing" and self.state != "stopped":
            raise Refused("PluginError")
        container[op["alias"]] = self.obj if kind != "name" else self.fetch(op)
        self.stats["config"] += 1

    def fetch(self, op: dict) -> Any:
        return (self.s.executors if op["op"] == "exadd" else self.s.stores)[op["alias"]]

    def model_exadd(self, op: dict, real: Any) -> Any:
        self._model_plugin(op, self.execs)
        self.ev(W.E_EXADD, alias=op["alias"])

    def model_stadd(self, op: dict, real: Any) -> Any:
        self._model_plugin(op, self.stores)
        self.held[op["alias"]] = {}
        self.mem.append(op["alias"])
        self.ev(W.E_STADD, alias=op["alias"])

    def do_exrem(self, op: dict) -> Any:
        return self.s.remove_executor(op["alias"], shutdown=op["stop"])

    def model_exrem(self, op: dict, real: Any) -> Any:
        if op["alias"] not in self.execs:
            raise Refused("key")
        self.removed.append((self.execs.pop(op["alias"]), op["stop"], self.state))
        self.ev(W.E_EXREM, alias=op["alias"])
        self.stats["config"] += 1

    def do_strem(self, op: dict) -> Any:
        return self.s.remove_store(op["alias"], shutdown=op["stop"])

    def model_strem(self, op: dict, real: Any) -> Any:
        if op["alias"] not in self.stores:
            raise Refused("key")
        self.removed.append((self.stores.pop(op["alias"]), op["stop"], self.state))
        del self.held[op["alias"]]
        if op["alias"] in self.mem:
            self.mem.remove(op["alias"])
        self.ev(W.E_STREM, alias=op["alias"])
        self.stats["config"] += 1

    def do_trip(self, op: dict) -> Any:
        """The next start (or shutdown) of a plugin fails once."""
        return None

    def model_trip(self, op: dict, real: Any) -> None:
        live = [o for o in [*self.execs.values(), *self.stores.values()] if id(o) in self.counts]
        if live:
            o = live[op["n"] % len(live)]
            self.count(o)["failstart" if op["what"] == "start" else "failstop"] = True

    def model_start(self, op: dict, real: Any) -> Any:
        if self.refs == 0:
            if "default" not in self.execs:
                self.ev(W.E_EXADD, alias="default")
                self.execs["default"] = self.s.executors.get("default")
                check(self.execs["default"] is not None, f"{self.what}: no default executor was made")
                self.stats["made"] += 1
            if "default" not in self.stores:
                self.ev(W.E_STADD, alias="default")
                self.stores["default"] = self.s.stores.get("default")
                check(self.stores["default"] is not None, f"{self.what}: no default store was made")
                self.held["default"] = {}
                self.mem.append("default")
                self.stats["made"] += 1
            missing = any(t.store not in self.held for t, _, _ in self.pending)
            if not missing and real[0] == "err" and isinstance(real[2], PluginError):
                check(self.tripped, lambda: f"{self.what}: failed though every plugin starts")
                self.stats["failstart"] += 1
                raise Refused("PluginError")
            check(missing or not self.tripped or real[0] == "err", f"{self.what}: succeeded although a plugin does not start")
        out = super().model_start(op, real)
        if out:
            self.stats["runs"] += 1
        return out

    def apply(self, op: dict) -> Any:
        self.tripped = any(self.counts[id(o)].get("failstart") for o in [*self.execs.values(), *self.stores.values()] if id(o) in self.counts)
        if op["op"] == "trip" and self.state != "stopped" and op["what"] == "start":
            return None
        return super().apply(op)

    # ---- comparing

    def compare(self) -> None:
        super().compare()
        s = self.s
        want = {"stopped": 0, "running": 1, "paused": 2}[self.state]
        check(int(s.state) == want, lambda: f"{self.what}: state is {s.state}, expected {self.state}")
        check(s.running == (self.state != "stopped"), lambda: f"{self.what}: running is {s.running}")
        check(set(s.executors) == set(self.execs), lambda: f"{self.what}: executors are {sorted(s.executors)}, expected {sorted(self.execs)}")
        check(set(s.stores) == set(self.stores), lambda: f"{self.what}: stores are {sorted(s.stores)}, expected {sorted(self.stores)}")
        live = 0 if self.state == "stopped" else 1
        for d in (self.execs, self.stores):
            for alias, o in d.items():
                c = self.counts.get(id(o))
                if c:
                    check(c["on"] - c["off"] == live, lambda: f"{self.what}: {alias!r} was started {c['on']} times and shut down {c['off']} times while the scheduler is {self.state}")
        for o, stop, state in self.removed:
            c = self.counts.get(id(o))
            if c and stop and state != "stopped":
                check(c["on"] == c["off"], lambda: f"{self.what}: a removed plugin was started {c['on']} times and shut down {c['off']} times")
            if c and not stop:
                self.counts.pop(id(o))


def _memory() -> Any:
    from asyncz.stores.memory import MemoryStore

    return MemoryStore()


OPS = {"start": 6, "shutdown": 7, "pause": 1, "resume": 1, "exadd": 2, "exrem": 1, "stadd": 2, "strem": 1, "trip": 1, "add": 4, "adv": 2, "round": 2, "tpause": 1, "upd": 1, "fin": 1}


@st.composite
def machine(draw):
    cfg = draw(W.config(driver=("manual", "manual", "loop"), disks=(None, "file", "sql")))
    cfg["bare"] = draw(st.sampled_from([[], [], ["store"], ["exec"]]))
    if cfg["driver"] == "loop" and "exec" in cfg["bare"]:
        cfg["bare"] = []  # its default executor runs on the loop itself
    names = [k for k, n in OPS.items() for _ in range(n)]
    ops: list = []
    for _ in range(draw(st.integers(8, 22))):
        k = draw(st.sampled_from(names))
        known = [(o["id"], o["store"] or "default") for o in ops if o["op"] == "add"]
        if k in ("exadd", "stadd"):
            alias = draw(st.sampled_from(["p", "q", "p", "default", "x" if k == "exadd" else "disk"]))
            kind = draw(st.sampled_from(["new", "new", "name", "unknown", "wrong", "failing"]))
            if kind == "name" and k == "exadd":
                alias = "n"  # not a recorder: no task is sent there
            ops.append({"op": k, "alias": alias, "kind": kind})
        elif k in ("exrem", "strem"):
            ops.append({"op": k, "alias": draw(st.sampled_from(["p", "q", "nowhere", "n", "p"])), "stop": draw(st.booleans())})
        elif k == "trip":
            ops.append({"op": "trip", "n": draw(st.integers(0, 5)), "what": draw(st.sampled_from(["start", "stop"]))})
        elif k == "add":
            o = draw(W.add_op(cfg))
            if draw(st.integers(0, 3)) == 3:
                o["store"] = draw(st.sampled_from(["p", "q"]))
                o["id"] = o["id"][0] + o["store"]
            o["exec"] = draw(st.sampled_from(["x", "inline", "x", "p"]))
            ops.append(o)
        else:
            ops.append(draw(W.an_op(cfg, {k: 1}, known)))
            if ops[-1].get("ch", {}).get("exec") == "default" and "exec" in cfg["bare"]:
                ops[-1]["ch"]["exec"] = "x"  # the default made by the scheduler records nothing
            if k == "shutdown" and draw(st.booleans()):
                ops.append({"op": "start", "paused": False})
    return {"cfg": cfg, "ops": ops}


def run_machine(c):
    w = W.play(c, LifeWorld)
    s = w.stats
    return Outcome(s["runs"] >= 2 and s["config"] >= 1, [k for k in ("failstart", "made") if s[k]] + ([f"runs{min(s['runs'], 3)}"] if s["runs"] else []) + [c["cfg"]["driver"]])


# ------------------------------------------------------------------ real loops


def until(cond: Any, what: str, s: float = 30.0) -> None:
    end = time.monotonic() + s
    while not cond():
        check(time.monotonic() < end, lambda: f"{what}: nothing happened for {s} seconds")
        time.sleep(0.002)


class _Tick:
    def __await__(self) -> Any:
        yield


async def nap(s: float) -> None:
    try:
        asyncio.get_running_loop()
    except RuntimeError:
        await _Tick()
    else:
        await asyncio.sleep(s)


async def auntil(cond: Any, what: str, s: float = 30.0) -> None:
    end = time.monotonic() + s
    while not cond():
        check(time.monotonic() < end, lambda: f"{what}: nothing happened for {s} seconds")
        await nap(0.002)


@st.composite
def real(draw):
    kind = draw(st.sampled_from(["own", "running", "isolated", "native", "nativeisolated", "explicit"]))
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        runs.append(
            {
                "newloop": draw(st.booleans()),
                "nested": draw(st.integers(0, 2)),
                "paused": draw(st.integers(0, 3)) == 3,
                "wait": draw(st.booleans()),
                "tentative": draw(st.booleans()),
                "hang": draw(st.booleans()),
                "cm": draw(st.booleans()),
            }
        )
    return {"kind": kind, "store": draw(st.sampled_from(["memory", "file", "sql"])), "exec": draw(st.sampled_from(["asyncio", "asyncio", "thread"])), "runs": runs}


class RealRuns:
    def __init__(self, c: dict) -> None:
        from asyncz.executors.pool import ThreadPoolExecutor
        from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

        self.c = c
        self.kind = c["kind"]
        self.native = self.kind.startswith("native")
        config: dict = {"timezone": "UTC"}
        self.backend = None
        if c["store"] != "memory":
            self.backend = backends.CURRENT(c["store"])
            config["stores"] = {"default": self.backend.make()}
        if c["exec"] == "thread":
            config["executors"] = {"default": ThreadPoolExecutor(2)}
        if "isolated" in self.kind:
            config["isolated_event_loop"] = True
        self.loop = None
        if self.kind == "explicit":
            self.loop = asyncio.new_event_loop()
            config["event_loop"] = self.loop
        cls = NativeAsyncIOScheduler if self.native else AsyncIOScheduler
        self.s = cls(**config)
        self.codes: collections.Counter = collections.Counter()
        self.s.add_listener(lambda e: self.codes.update([e.code]))
        self.n = 0

    def ran(self, key: str) -> Any:
        return lambda: (key, self.n) in targets.CALLS

    def add(self, fn: Any, key: str, **kw: Any) -> None:
        self.s.add_task(fn, args=[key, self.n], id=key, mistrigger_grace_time=None, replace_existing=True, **kw)

    async def go(self, r: dict) -> None:
        """One run, from start to shutdown."""
        self.n += 1
        what = f"run {self.n} of {self.c}"
        s = self.s
        coro = self.c["exec"] == "asyncio"
        if r["tentative"]:
            self.add(targets.amark if coro else targets.mark, "tentative")
            self.add(targets.mark, "later", trigger="interval", hours=1000)

        async def call(f: Any) -> Any:
            out = f()
            return await out if self.native else out

        check(await call(lambda: s.start(r["paused"])) is True, f"{what}: start() was refused")
        for _ in range(r["nested"]):
            check(await call(s.start) is False, f"{what}: a nested start() says it is the first")
        check(s.running and int(s.state) == (2 if r["paused"] else 1), f"{what}: state is {s.state} after start")
        check(self.codes[W.E_START] == self.n, f"{what}: {self.codes[W.E_START]} start events")
        if r["paused"]:
            s.resume()
        if r["tentative"]:
            await auntil(self.ran("tentative"), f"{what}: a task added before the start")
            check(s.get_task("later") is not None, f"{what}: a tentative task was not stored")
        self.add(targets.mark, "plain")
        await auntil(self.ran("plain"), f"{what}: a plain task")
        if coro:
            self.add(targets.amark, "coro")
            await auntil(self.ran("coro"), f"{what}: a coroutine task")
        if self.n > 1 and self.c["store"] != "memory":
            check(s.get_task("keep") is not None, f"{what}: a stored task was lost by the restart")
        self.add(targets.mark, "keep", trigger="interval", hours=1000)
        if r["hang"] and coro:
            self.add(targets.ahang, "hang")
            await auntil(self.ran("hang"), f"{what}: a coroutine that was cut off by an earlier shutdown")
        for i in range(r["nested"]):
            check(not await call(lambda: s.shutdown(r["wait"])), f"{what}: an inner shutdown() says it is the last")
            await nap(0)
            check(s.running, f"{what}: stopped by an inner shutdown()")
        check(self.codes[W.E_SHUTDOWN] == self.n - 1, f"{what}: {self.codes[W.E_SHUTDOWN]} shutdown events before the last shutdown()")
        if not self.native:  # calls from other threads are queued: let the inner ones arrive
            await auntil(lambda: s.ref_counter <= 1, what)
        check(await call(lambda: s.shutdown(r["wait"])) is True, f"{what}: the last shutdown() says it is not")
        await auntil(lambda: not s.running and self.codes[W.E_SHUTDOWN] == self.n, f"{what}: shutdown")
        if not self.native:
            # it is over when its own loop is gone as well
            await auntil(lambda: s.event_loop_thread is None, f"{what}: end of its loop")

    def play(self) -> None:
        runs = self.c["runs"]
        if self.kind in ("own", "isolated"):
            for r in runs:
                run_plain(self.go(r))
            return
        if self.kind == "explicit":
            for r in runs:
                self.loop.run_until_complete(self.go(r))
            self.loop.close()
            return
        i = 0
        while i < len(runs):
            group = [runs[i]]
            i += 1
            while i < len(runs) and not runs[i]["newloop"]:
                group.append(runs[i])
                i += 1

            async def main(group: list = group) -> None:
                for r in group:
                    await self.go(r)

            asyncio.run(main())


def run_plain(coro: Any) -> None:
    """Runs the coroutine with no event loop (its sleeps become real sleeps)."""
    try:
        while True:
            coro.send(None)
            time.sleep(0.001)
    except StopIteration:
        return


def run_real(c):
    del targets.CALLS[:]
    r = RealRuns(c)
    try:
        r.play()
    finally:
        if r.backend is not None:
            r.backend.dispose()
    return Outcome(len(c["runs"]) >= 2, [c["kind"], c["store"], c["exec"]])


PARTS = [
    Part("machine", machine, run_machine, quick=4000, thorough=80000, setup=backends.session),
    Part("real", real, run_real, quick=160, thorough=3000, setup=backends.session, quick_s=120),
]
