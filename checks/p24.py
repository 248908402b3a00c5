"""P24: shutdown and lifecycle tasks run exactly once per shutdown."""

from __future__ import annotations

import asyncio
import os
import subprocess
import sys
import threading
import time
from collections import Counter
from typing import Any

from hypothesis import strategies as st

from vp import backends, clock
from vp import tz as TZ
from vp.runner import ROOT, Outcome, Part, check

PROPERTY = "P24"
RULE = (
    "loops: a history of adding tasks for shutdown (sync or async functions, with several awaits, raising, exiting; given as functions, task "
    "objects or by decoration; in memory or on a file, sql, redis or mongo store), ordinary tasks and generator-based lifecycle tasks, of deleting, "
    "pausing, resuming, changing and rescheduling them, of passing time, pausing and resuming the scheduler and of nested starts and shutdowns, "
    "on the real schedulers and real event loops: own loop in a thread, the caller's loop, a given loop, awaited start and shutdown. After every "
    "step the calls made are exactly those of a model. leave: small programs that leave a `with` block, call shutdown(), or end asyncio.run, "
    "and exit: everything scheduled for shutdown ran to its end. busy: running tasks, listeners, tasks for shutdown and further threads use the scheduler "
    "in every way while its shutdown waits or does not: all come to their end, once. Non-trivial: at least one shutdown with a shutdown or lifecycle task; a task in the middle."
)

WAIT = 10.0
STEP = 10
T0 = TZ.at(1_600_000_000_000_000)


class Boom(Exception):
    pass


CALLS: list = []


def finish(body: str) -> None:
    if body == "exc":
        raise Boom("x")
    if body == "exit":
        sys.exit(3)
    if body == "stop":
        raise StopIteration


def record(tag: int, body: str) -> None:
    CALLS.append([tag, "run"])
    finish(body)


async def arecord(tag: int, body: str, awaits: int = 0) -> None:
    for _ in range(awaits):
        await asyncio.sleep(0.001)
    CALLS.append([tag, "run"])
    if body != "stop":
        finish(body)


async def forever() -> None:
    await asyncio.sleep(3600)


KINDS = ["own", "own", "given", "inloop", "iso", "native", "native", "native_iso"]
AWAITED = ("native", "native_iso")
SYNC = ("own", "given")


class Life:
    def __init__(self, tag: int, ends: Any) -> None:
        self.tag, self.ends, self.ticks, self.over = tag, ends, 0, False


class Driver:
    def __init__(self, c: dict) -> None:
        self.c = c
        self.kind = c["kind"]
        self.backend = backends.CURRENT(c["disk"]) if c["disk"] else None
        self.want: list = []
        self.tasks: dict = {}
        self.refs = 0
        self.paused = False
        self.tag = 0
        self.stats: Counter = Counter()
        self.sent = self.done = self.lives = 0
        self.loop: Any = None
        self.s: Any = None

    # ---- the real side

    def build(self) -> None:
        from asyncz.events import constants as ec
        from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

        kw: dict = {"timezone": "UTC"}
        cls = NativeAsyncIOScheduler if self.kind in AWAITED else AsyncIOScheduler
        if self.kind in ("iso", "native_iso"):
            kw["isolated_event_loop"] = True
        if self.kind == "given":
            self.loop = asyncio.new_event_loop()
            self.thread = threading.Thread(target=self.loop.run_forever, daemon=True)
            self.thread.start()
            kw["event_loop"] = self.loop
        if self.backend is not None:
            kw["stores"] = {"disk": self.backend.make()}
        kw["executors"] = {"pool": {"type": "pool", "max_workers": 2}}
        self.s = cls(**kw)

        def seen(event: Any) -> None:
            if event.code == ec.TASK_SUBMITTED:
                self.sent += len(event.scheduled_run_times)
            else:
                self.done += 1

        self.s.add_listener(seen, ec.TASK_SUBMITTED | ec.TASK_EXECUTED | ec.TASK_ERROR | ec.TASK_MISSED)

    async def nap(self) -> None:
        if self.kind in SYNC:
            time.sleep(0.0005)
        else:
            await asyncio.sleep(0.0005)

    async def until(self, cond: Any, what: str) -> None:
        end = time.monotonic() + WAIT
        while not cond():
            if time.monotonic() > end:
                check(False, f"{what}: calls {CALLS} expected {self.want}")
            await self.nap()

    async def settle(self) -> None:
        loop = self.s.event_loop
        if loop is not None and self.refs:
            for _ in range(2):
                ev = threading.Event()
                loop.call_soon_threadsafe(ev.set)
                await self.until(ev.is_set, "the event loop does not answer")
        pending = self.stats["forever"]
        await self.until(lambda: self.done >= self.sent - pending, "a submitted run is never reported")

    # ---- the model

    def new_tag(self) -> int:
        self.tag += 1
        return self.tag

    def effect(self, t: dict) -> None:
        e = t["eff"]
        if e[0] == "call":
            self.want.append([e[1], "run"])
            return
        if e[0] == "none":
            return
        life = e[1]
        if life.over:
            return
        if e[0] == "tick":
            self.want.append([life.tag, "tick"])
            life.ticks += 1
            if life.ends is not None and life.ticks >= life.ends:
                life.over = True
                self.stats["ended"] += 1
                self.want.append([life.tag, "cleanup"])
        else:
            life.over = True
            self.want.append([life.tag, "cleanup"])

    def now(self) -> int:
        return round((clock.now() - T0).total_seconds())

    def rounds(self) -> None:
        """What is due runs now."""
        if not self.refs or self.paused:
            return
        for t in list(self.tasks.values()):
            if t["next"] is not None and t["next"] <= self.now():
                self.effect(t)
                t["next"] = self.now() + STEP

    # ---- operations

    async def maybe(self, r: Any) -> Any:
        return await r if asyncio.iscoroutine(r) else r

    async def apply(self, op: dict) -> None:
        k = op["op"]
        if k in ("del", "tpause", "tresume", "resched", "upd"):
            ids = sorted(self.tasks)
            if not ids or (k != "del" and not self.refs):
                return
            tid = ids[op["i"] % len(ids)]
            await getattr(self, "op_" + k)(op, tid, self.tasks[tid])
        else:
            await getattr(self, "op_" + k)(op)
        if k != "down":
            self.rounds()
            await self.settle()
            self.compare(k)

    def compare(self, what: Any) -> None:
        got, want = Counter(map(str, CALLS)), Counter(map(str, self.want))
        check(got == want, lambda: f"after {what}: calls made but not expected {sorted((got - want).elements())}, expected but not made {sorted((want - got).elements())}; all calls {CALLS}")

    async def op_add(self, op: dict) -> None:
        tag = self.new_tag()
        tid = f"t{tag}"
        store = "disk" if op["disk"] and self.backend is not None else None
        kw: dict = {"id": tid, "mistrigger_grace_time": None, "coalesce": True, "max_instances": 5, "store": store}
        if op["pool"] and not op["async"]:
            kw["executor"] = "pool"
        fn: Any = arecord if op["async"] else record
        args = [tag, op["body"]] + ([op["awaits"]] if op["async"] else [])
        if op.get("named"):
            kw["kwargs"] = {"body": args.pop(1)} if len(args) == 2 else dict(zip(("body", "awaits"), (args.pop(1), args.pop(1))))
        trig = "shutdown" if op["at"] == "shutdown" else "interval"
        targs = {} if trig == "shutdown" else {"seconds": STEP}
        if op["via"] == "text":
            fn = f"checks.p24:{fn.__name__}"
        if op["via"] == "deco":
            self.s.add_task(trigger=trig, args=args, **kw, **targs)(fn if callable(fn) else record)
        elif op["via"] == "task":
            from asyncz.tasks import Task

            kw.pop("id")
            self.s.add_task(Task(fn, id=tid, args=args, kwargs=kw.pop("kwargs", {}), trigger=self.s.create_trigger(trig, targs)), **kw)
        else:
            self.s.add_task(fn, trig, args=args, **kw, **targs)
        self.tasks[tid] = {"store": store, "trig": trig, "pool": "executor" in kw, "pending": not self.refs, "start": self.now() + STEP, "next": None if trig == "shutdown" else self.now() + STEP, "eff": ("call", tag)}
        self.stats["shut" if trig == "shutdown" else "every"] += 1

    async def op_forever(self, op: dict) -> None:
        """A run that is still going on at shutdown: it neither delays nor prevents it."""
        if not self.refs or self.paused:
            return
        tid = f"t{self.new_tag()}"
        self.stats["forever"] += 1
        self.s.add_task(forever, "date", id=tid, mistrigger_grace_time=None)

    async def op_life(self, op: dict) -> None:
        from asyncz.utils import make_async_function, make_function

        tag = self.new_tag()
        life = Life(tag, op["ends"])
        s = self.s
        kw: dict = {"coalesce": True, "mistrigger_grace_time": None, "max_instances": 5}
        hold: list = []

        def ticks() -> bool:
            CALLS.append([tag, "tick"])
            life_n[0] += 1
            return op["ends"] is None or life_n[0] < op["ends"]

        life_n = [0]

        def gen() -> Any:
            CALLS.append([tag, "setup"])
            s.add_task(make_function(hold[0].send), args=[False], trigger="shutdown", id=f"l{tag}down", **kw)
            running = yield
            while running and ticks():
                running = yield
            CALLS.append([tag, "cleanup"])

        async def agen() -> Any:
            CALLS.append([tag, "setup"])
            s.add_task(make_async_function(hold[0].asend), args=[False], trigger="shutdown", id=f"l{tag}down", **kw)
            running = yield
            while running and ticks():
                await asyncio.sleep(0)
                running = yield
            await asyncio.sleep(0.001)
            CALLS.append([tag, "cleanup"])

        if op["async"]:
            g: Any = agen()
            hold.append(g)
            if self.kind in SYNC:
                loop = asyncio.new_event_loop()
                loop.run_until_complete(g.asend(None))
                loop.close()
            else:
                await g.asend(None)
            send = make_async_function(g.asend)
        else:
            g = gen()
            hold.append(g)
            g.send(None)
            send = make_function(g.send)
        self.s.add_task(send, args=[True], trigger="interval", seconds=STEP, id=f"l{tag}tick", **kw)
        self.want.append([tag, "setup"])
        self.tasks[f"l{tag}down"] = {"store": None, "pending": not self.refs, "trig": "shutdown", "start": 0, "next": None, "eff": ("down", life)}
        self.tasks[f"l{tag}tick"] = {"store": None, "pending": not self.refs, "trig": "interval", "start": self.now() + STEP, "next": self.now() + STEP, "eff": ("tick", life)}
        self.lives += 1

    async def op_del(self, op: dict, tid: str, t: dict) -> None:
        if not self.refs and not t.get("pending"):
            return
        self.s.delete_task(tid, t["store"])
        del self.tasks[tid]

    async def op_tpause(self, op: dict, tid: str, t: dict) -> None:
        self.s.pause_task(tid, t["store"])
        t["next"] = None
        self.stats["tpaused"] += 1

    async def op_tresume(self, op: dict, tid: str, t: dict) -> None:
        self.s.resume_task(tid, t["store"])
        t["next"] = None if t["trig"] == "shutdown" else max(t["start"], self.now())
        self.stats["tresumed"] += 1

    async def op_resched(self, op: dict, tid: str, t: dict) -> None:
        if t["eff"][0] in ("tick", "down"):
            return
        if op["to"] == "shutdown":
            self.s.reschedule_task(tid, t["store"], trigger="shutdown")
            t.update(trig="shutdown", next=None)
        else:
            self.s.reschedule_task(tid, t["store"], trigger="interval", seconds=STEP)
            t.update(trig="interval", start=self.now() + STEP, next=self.now() + STEP)
        self.stats["resched"] += 1

    async def op_upd(self, op: dict, tid: str, t: dict) -> None:
        if t["eff"][0] != "call":
            return
        op = {**op, "async": op["async"] and not t["pool"]}
        tag = self.new_tag()
        fn, args = (arecord, [tag, "ok", op["awaits"]]) if op["async"] else (record, [tag, "ok"])
        self.s.update_task(tid, t["store"], fn=fn, args=args, kwargs={})
        t["eff"] = ("call", tag)

    async def op_adv(self, op: dict) -> None:
        for _ in range(op["n"]):
            clock.advance(STEP)
            if self.refs:
                self.s.wakeup()
                self.rounds()
                await self.settle()

    async def op_pause(self, op: dict) -> None:
        if self.refs:
            self.s.pause()
            self.paused = True

    async def op_resume(self, op: dict) -> None:
        if self.refs:
            self.s.resume()
            self.paused = False

    async def op_up(self, op: dict) -> None:
        r = await self.maybe(self.s.start(paused=op["paused"]))
        self.refs += 1
        check(r is (self.refs == 1), f"start() returned {r} with {self.refs} users")
        if self.refs == 1:
            self.paused = op["paused"]
            now = self.now()
            for t in self.tasks.values():
                if t.pop("pending", False) and t["next"] is not None:
                    t["next"] = max(t["start"], now)

    async def op_down(self, op: dict) -> None:
        from asyncz.exceptions import SchedulerNotRunningError

        if not self.refs:
            try:
                await self.maybe(self.s.shutdown())
            except SchedulerNotRunningError:
                return
            check(False, "shutdown() of a stopped scheduler succeeded")
        await self.settle()
        thread = self.s.event_loop_thread
        r = await self.maybe(self.s.shutdown())
        self.refs -= 1
        check(r is (self.refs == 0), f"shutdown() returned {r} with {self.refs} users left")
        if self.refs:
            await self.settle()
            self.compare("nested shutdown")
            return
        for tid, t in list(self.tasks.items()):
            if t["trig"] == "shutdown":
                self.stats["atshutdown"] += 1
                self.effect(t)
                del self.tasks[tid]
            elif t["store"] is None:
                del self.tasks[tid]
        self.stats["down"] += 1
        self.stats["forever"] = 0
        if self.kind not in AWAITED:
            await self.until(lambda: len(CALLS) >= len(self.want), "not every task scheduled for shutdown ran")
            await self.until(lambda: not self.s.running, "the scheduler does not stop")
            if thread is not None:
                await self.until(lambda: not thread.is_alive(), "the own event loop does not end")
        self.compare("shutdown")
        self.sent = self.done = 0
        # nothing else happens afterwards
        for _ in range(3):
            await self.nap()
        self.compare("the end of the shutdown")

    async def drive(self) -> None:
        self.build()
        for op in self.c["ops"]:
            await self.apply(op)
        while self.refs:
            await self.apply({"op": "down"})
        # what was left over would run at the next shutdown
        await self.apply({"op": "up", "paused": True})
        await self.apply({"op": "down"})

    def run(self) -> None:
        del CALLS[:]
        try:
            with clock.virtual(T0):
                if self.kind in SYNC:
                    coro = self.drive()
                    try:
                        coro.send(None)
                    except StopIteration:
                        pass
                    finally:
                        coro.close()
                else:
                    asyncio.run(self.drive())
        finally:
            if self.loop is not None:
                self.loop.call_soon_threadsafe(self.loop.stop)
                self.thread.join(WAIT)
                if not self.loop.is_running():
                    self.loop.close()
            if self.backend is not None:
                self.backend.dispose()


def run_loops(c: dict) -> Outcome:
    d = Driver(c)
    d.run()
    labels = [c["kind"], f"disk={c['disk']}"] + [k for k in ("ended", "tresumed", "resched") if d.stats[k]]
    if d.lives:
        labels.append("lifecycle")
    if d.stats["down"] > 2:
        labels.append("restarted")
    return Outcome(d.stats["atshutdown"] > 0, labels)


@st.composite
def histories(draw):
    ops: list = []
    b = st.booleans()

    def one(k: str) -> dict:
        o: dict = {"op": k}
        if k == "add":
            o.update(
                at=draw(st.sampled_from(["shutdown", "shutdown", "interval"])), disk=draw(b), pool=draw(b), named=draw(b), body=draw(st.sampled_from(["ok"] * 4 + ["exc", "exit", "stop"])),
                awaits=draw(st.sampled_from([0, 1, 3])), via=draw(st.sampled_from(["fn", "fn", "text", "deco", "task"])),
            )  # fmt: skip
            o["async"] = draw(b)
            if o["at"] == "interval":
                o["body"] = "ok"
        elif k == "life":
            o.update(ends=draw(st.sampled_from([None, None, 1, 2])))
            o["async"] = draw(b)
        elif k == "up":
            o["paused"] = draw(st.sampled_from([False, False, False, True]))
        elif k == "adv":
            o["n"] = draw(st.integers(1, 3))
        elif k in ("del", "tpause", "tresume", "resched", "upd"):
            o["i"] = draw(st.integers(0, 7))
            if k == "resched":
                o["to"] = draw(st.sampled_from(["shutdown", "interval"]))
            if k == "upd":
                o["async"] = draw(b)
                o["awaits"] = draw(st.sampled_from([0, 2]))
        return o

    names = ["add"] * 6 + ["life"] * 3 + ["adv"] * 5 + ["up"] * 3 + ["down"] * 2 + ["pause", "resume", "del", "tpause", "tresume", "tresume", "resched", "upd", "upd", "forever"]
    for k in draw(st.lists(st.sampled_from(["add", "add", "life"]), max_size=3)):
        ops.append(one(k))
    ops.append(one("up"))
    for k in draw(st.lists(st.sampled_from(names), min_size=1, max_size=12)):
        ops.append(one(k))
    return {"kind": draw(st.sampled_from(KINDS)), "disk": draw(st.sampled_from([None, None, "file", "sql", "redis", "mongo"])), "ops": ops}


# ------------------------------------------------------------------ programs that end

PROGRAM = """
import asyncio, sys, time
from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler
from asyncz.utils import make_function, make_async_function

SPECS = {specs!r}
out = lambda *a: print(*a, flush=True)
s = {cls}({kw})

def sync(i, slow):
    if slow:
        time.sleep(0.05)
    out("ran", i)

async def coro(i, slow):
    if slow:
        await asyncio.sleep(0.05)
    out("ran", i)

def life(i, slow):
    s.add_task(make_function(gens[i].send), args=[False], trigger="shutdown")
    running = yield
    while running:
        running = yield
    if slow:
        time.sleep(0.05)
    out("ran", i)

gens = {{}}
def add():
    for i, (kind, slow) in enumerate(SPECS):
        if kind == "life":
            gens[i] = life(i, slow)
            gens[i].send(None)
        else:
            s.add_task(sync if kind == "sync" else coro, "shutdown", args=[i, slow])
{main}
"""

MAINS = {
    "with": ("AsyncIOScheduler", "add()\nwith s:\n    time.sleep(0.02)\n"),
    "withexc": ("AsyncIOScheduler", "try:\n    with s:\n        add()\n        raise ValueError\nexcept ValueError:\n    pass\n"),
    "call": ("AsyncIOScheduler", "s.start()\nadd()\ns.shutdown()\n"),
    "nested": ("AsyncIOScheduler", "add()\nwith s:\n    with s:\n        pass\n    s.start()\n    s.shutdown()\n    out('inner')\n"),
    "awith": ("NativeAsyncIOScheduler", "async def main():\n    add()\n    async with s:\n        await asyncio.sleep(0.01)\nasyncio.run(main())\n"),
    "aexc": ("NativeAsyncIOScheduler", "async def main():\n    async with s:\n        add()\n        raise ValueError\ntry:\n    asyncio.run(main())\nexcept ValueError:\n    pass\n"),
}


def run_leave(c: dict) -> Outcome:
    cls, main = MAINS[c["main"]]
    kw = "isolated_event_loop=True" if c["iso"] else ""
    src = PROGRAM.format(specs=[tuple(x) for x in c["specs"]], cls=cls, kw=kw, main=main)
    env = {**os.environ, "PYTHONPATH": os.environ.get("VP_REPO", "/repo")}
    try:
        p = subprocess.run([sys.executable, "-c", src], capture_output=True, text=True, timeout=45, env=env, cwd=ROOT)
    except subprocess.TimeoutExpired:
        check(False, "the program does not end", "leave:hang")
        raise
    check(p.returncode == 0, lambda: f"the program fails: {p.stderr[-1500:]}")
    lines = p.stdout.split()
    ran = sorted(x for a, x in zip(lines, lines[1:]) if a == "ran")
    check(ran == sorted(str(i) for i in range(len(c["specs"]))), lambda: f"{c['main']}: of {len(c['specs'])} tasks scheduled for shutdown ran {ran}; {p.stderr[-800:]}")
    return Outcome(bool(c["specs"]), [c["main"]])


@st.composite
def leaves(draw):
    specs = draw(st.lists(st.tuples(st.sampled_from(["sync", "coro", "life"]), st.booleans()).map(list), min_size=1, max_size=4))
    return {"main": draw(st.sampled_from(sorted(MAINS))), "iso": draw(st.booleans()), "specs": specs}


# ------------------------------------------------------------------ used while it shuts down

USES = {
    "tasks": lambda s, i: s.get_tasks(),
    "infos": lambda s, i: s.get_task_infos(),
    "info": lambda s, i: s.get_scheduler_info(),
    "get": lambda s, i: s.get_task("other"),
    "add": lambda s, i: s.add_task(record, "interval", hours=1, args=[99, "ok"], id=f"new{i}", replace_existing=True),
    "update": lambda s, i: s.update_task("other", name="renamed"),
    "pause": lambda s, i: s.pause_task("other"),
    "run": lambda s, i: s.run_task("other", force=True),
    "delete": lambda s, i: s.delete_task("other"),
    "wake": lambda s, i: s.wakeup(),
    "stop": lambda s, i: s.shutdown(),
    "listen": lambda s, i: s.add_listener(lambda e: None),
}

BUSY = st.fixed_dictionaries(
    {
        "wait": st.sampled_from([True, True, True, False]),
        "tasks": st.lists(st.tuples(st.booleans(), st.lists(st.sampled_from(sorted(USES)), min_size=1, max_size=3)), min_size=1, max_size=4),
        "listener": st.lists(st.sampled_from(sorted(USES)), max_size=2),
        "shutdown": st.lists(st.lists(st.sampled_from(sorted(set(USES) - {"stop"})), max_size=2), max_size=2),
        "stops": st.integers(1, 2),
    }
)


def run_busy(c: dict) -> Outcome:
    from asyncz.events import constants as ec
    from asyncz.exceptions import SchedulerNotRunningError
    from asyncz.schedulers import AsyncIOScheduler

    s = AsyncIOScheduler(timezone="UTC", isolated_event_loop=True, executors={"default": {"type": "pool", "max_workers": 4}})
    began, left = threading.Event(), threading.Event()
    lock = threading.Lock()
    log: list = []

    def note(*x: Any) -> None:
        with lock:
            log.append(x)

    def use(names: list, i: Any) -> None:
        for k in names:
            try:
                USES[k](s, i)
            except Exception as e:  # noqa: BLE001
                note("refused", i, type(e).__name__)

    def work(i: int, before: bool, names: list) -> None:
        note("begin", i)
        if not before:
            began.wait(WAIT)
            time.sleep(0.002)
        use(names, i)
        note("end", i)

    def bye(i: int, names: list) -> None:
        use(names, f"s{i}")
        note("bye", i)

    s.add_listener(lambda e: use(c["listener"], "l"), ec.TASK_EXECUTED)
    s.add_listener(lambda e: note("down"), ec.SCHEDULER_SHUTDOWN)
    s.start()
    s.add_task(record, "interval", hours=1, args=[98, "ok"], id="other")
    for i, names in enumerate(c["shutdown"]):
        s.add_task(bye, "shutdown", args=[i, names])
    for i, (before, names) in enumerate(c["tasks"]):
        names = [k for k in names if k != "stop"] if before else names
        s.add_task(work, args=[i, before, names])
    end = time.monotonic() + WAIT
    while sum(x[0] == "begin" for x in list(log)) < len(c["tasks"]):
        check(time.monotonic() < end, "the tasks do not start")
        time.sleep(0.001)
    errors: list = []

    def stop() -> None:
        try:
            began.set()
            s.shutdown(c["wait"])
            note("left")
        except SchedulerNotRunningError:
            note("already")
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    threads = [threading.Thread(target=stop, daemon=True) for _ in range(c["stops"])]
    for t in threads:
        t.start()
    for t in threads:
        t.join(WAIT)
        check(not t.is_alive(), lambda: f"shutdown({c['wait']}) does not return while tasks and listeners use the scheduler: {log}", "busy:hang")
    check(not errors, lambda: f"shutdown fails: {errors}")
    end = time.monotonic() + WAIT
    while sum(x[0] == "end" for x in list(log)) < len(c["tasks"]):
        check(time.monotonic() < end, lambda: f"a task that uses the scheduler during the shutdown does not end: {log}", "busy:hang")
        time.sleep(0.001)
    while ("down",) not in list(log):
        check(time.monotonic() < end, lambda: f"the scheduler does not come down: {log}", "busy:hang")
        time.sleep(0.001)
    time.sleep(0.001)
    with lock:
        seen = list(log)
    n = Counter(x[0] for x in seen)
    inner = sum("stop" in names for before, names in c["tasks"] if not before) + ("stop" in c["listener"])
    check(n["down"] == 1, lambda: f"{n['down']} shutdowns: {seen}")
    check(not s.running, "still running")
    check(inner or n["left"] == 1, lambda: f"{c['stops']} shutdown calls, {n['left']} succeeded: {seen}")
    check(sorted(x[1] for x in seen if x[0] == "bye") == list(range(len(c["shutdown"]))), lambda: f"the tasks for shutdown ran {[x[1] for x in seen if x[0] == 'bye']}, of {len(c['shutdown'])}")
    if c["wait"] and not inner:
        at = seen.index(("down",))
        check(all(("end", i) in seen[:at] for i in range(len(c["tasks"]))), lambda: f"shutdown(wait=True) ended before the running tasks: {seen}")
    return Outcome(any(not before for before, _ in c["tasks"]), [f"wait={c['wait']}", *(k for _, names in c["tasks"] for k in names)])


PARTS = [
    Part("loops", histories, run_loops, quick=2400, thorough=60000, setup=backends.session),
    Part("leave", leaves, run_leave, quick=64, thorough=1500),
    Part("busy", lambda: BUSY, run_busy, quick=160, thorough=4000),
]
