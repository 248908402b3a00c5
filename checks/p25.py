"""P25: the ASGI wrapper and context managers bracket the application exactly."""

from __future__ import annotations

import asyncio
import threading
import time
from collections import Counter
from datetime import datetime, timedelta, timezone
from typing import Any

from hypothesis import strategies as st

from vp.runner import Outcome, Part, check

PROPERTY = "P25"
RULE = (
    "asgi: an application (which answers the lifespan, ignores it, refuses startup or shutdown, fails before or after answering, or is cancelled; "
    "and answers, echoes or fails on requests) wrapped once or twice, with or without handling the lifespan, by one of the asyncio schedulers; "
    "a server opens lifespans (one after another or overlapping), sends startup, requests and shutdown in any order; executors may fail to start. "
    "managers: a tree of nested or concurrent `with`, `async with`, start/shutdown pairs in tasks or threads, left normally, by exceptions or by "
    "cancellation, around points where the scheduler must be running and a task due now and one due in 20 ms must run. "
    "Non-trivial: asgi: a startup reached the wrapper; managers: two brackets or an exception."
)

WAIT = 10.0


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def make(kind: str, **kw: Any) -> Any:
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    cls = NativeAsyncIOScheduler if kind.startswith("native") else AsyncIOScheduler
    if kind.endswith("iso"):
        kw["isolated_event_loop"] = True
    return cls(timezone="UTC", **kw)


class Watch:
    """Sees starts and shutdowns, which have to alternate."""

    def __init__(self, s: Any) -> None:
        from asyncz.events import constants as ec

        self.starts = self.stops = 0
        self.bad = ""

        def seen(event: Any) -> None:
            if event.code == ec.SCHEDULER_START:
                self.starts += 1
            else:
                self.stops += 1
            if self.starts - self.stops not in (0, 1):
                self.bad = f"{self.starts} starts, {self.stops} shutdowns"

        s.add_listener(seen, ec.SCHEDULER_START | ec.SCHEDULER_SHUTDOWN)


async def until(cond: Any, what: Any) -> None:
    end = time.monotonic() + WAIT
    while not cond():
        check(time.monotonic() < end, what)
        await asyncio.sleep(0.001)


# ------------------------------------------------------------------ ASGI


class App:
    """What the application does is data; what it sees is kept."""

    def __init__(self, c: dict, s: Any) -> None:
        self.c, self.s = c, s
        self.seen: list = []
        self.scopes: list = []

    async def __call__(self, scope: Any, receive: Any, send: Any) -> None:
        self.scopes.append(scope)
        if scope["type"] == "lifespan":
            await self.lifespan(self.c["lifespan"], scope, receive, send)
        else:
            await self.request(scope, receive, send)

    async def lifespan(self, how: str, scope: Any, receive: Any, send: Any) -> None:
        n = scope["n"]
        if how == "ignore":
            return
        if how == "raise":
            raise Boom("no lifespan")
        m = await receive()
        self.seen.append((n, m, self.s.running))
        if how == "raise_startup":
            raise Boom("startup")
        if how == "refuse":
            await send({"type": "lifespan.startup.failed", "message": "no", "n": n})
            return
        await send({"type": "lifespan.startup.complete", "n": n, "odd": [1, {"a": b"\x00"}]})
        if how == "leave":
            return
        if how == "raise_serving":
            await asyncio.sleep(0)
            raise Boom("serving")
        m = await receive()
        self.seen.append((n, m, None))
        if how == "raise_shutdown":
            raise Boom("shutdown")
        if how == "fail_shutdown":
            await send({"type": "lifespan.shutdown.failed", "message": "no", "n": n})
            return
        await send({"type": "lifespan.shutdown.complete", "n": n})

    async def request(self, scope: Any, receive: Any, send: Any) -> None:
        how = scope["how"]
        if how == "raise":
            raise Boom("request")
        for _ in range(scope["msgs"]):
            m = await receive()
            await send({"type": "echo", "of": m})
        if how == "raise_late":
            raise Boom("late")
        if how == "return":
            return "value"  # type: ignore[return-value]


def other(n: int) -> Any:
    """An application of no interest under the same scheduler."""

    async def app(scope: Any, receive: Any, send: Any) -> None:
        raise AssertionError("not called")

    return app


class Conn:
    """One call of the wrapped application."""

    def __init__(self, app: Any, scope: dict) -> None:
        self.scope = scope
        self.inbox: asyncio.Queue = asyncio.Queue()
        self.sent: list = []
        self.given: list = []

        async def receive() -> Any:
            m = await self.inbox.get()
            self.given.append(m)
            return m

        async def send(m: Any) -> None:
            self.sent.append(m)

        self.task = asyncio.ensure_future(app(scope, receive, send))

    async def give(self, m: dict) -> None:
        await self.inbox.put(m)

    async def idle(self) -> None:
        for _ in range(20):
            await asyncio.sleep(0)

    def answered(self, what: str) -> list:
        return [m["type"] for m in self.sent if m.get("type", "").startswith(what)]


class Failing:
    pass


async def server(c: dict) -> Counter:
    from asyncz.executors.debug import DebugExecutor

    class Fragile(DebugExecutor):
        broken = c["broken"]

        def start(self, scheduler: Any, alias: str) -> None:
            if self.broken:
                raise Boom("executor")
            super().start(scheduler, alias)

        def shutdown(self, wait: bool = True) -> None:
            waits.append(wait)
            super().shutdown(wait)

    waits: list = []
    stats: Counter = Counter()
    ex = Fragile()
    s = make(c["kind"], executors={"odd": ex})
    watch = Watch(s)
    app = App(c, s)
    own = c["own"]
    wrapped = s.asgi(app, handle_lifespan=own, wait=c["wait"]) if c["direct"] else s.asgi(handle_lifespan=own, wait=c["wait"])(app)
    if c["twice"]:
        wrapped = s.asgi(wrapped, wait=c["wait"])
    how = c["lifespan"]
    per = 2 if c["twice"] else 1  # starts per lifespan
    lives: dict = {}
    users = manual = 0
    native = c["kind"].startswith("native")

    async def settled() -> None:
        want = users + manual
        if native:
            check(s.running is (want > 0), lambda: f"running is {s.running} with {want} users")
        else:
            await until(lambda: s.running is (want > 0), lambda: f"running stays {s.running} with {want} users")
        check(not watch.bad, watch.bad)
        check(watch.starts - watch.stops == (1 if want else 0) or not native, lambda: f"{watch.starts} starts, {watch.stops} shutdowns")

    async def maybe(r: Any) -> Any:
        return await r if asyncio.iscoroutine(r) else r

    n = 0
    for op in [*c["ops"], {"op": "end"}]:
        k = op["op"]
        if k == "open":
            n += 1
            if len(lives) >= 2:
                continue
            live = Conn(wrapped, {"type": "lifespan", "n": n, "state": {}})
            lives[n] = {"conn": live, "stage": "new"}
            await live.idle()
            if not own and how in ("ignore", "raise"):
                # it is over before it began
                await until(live.task.done, "the lifespan goes on")
                exc = live.task.exception()
                check((exc is None) == (how == "ignore") and (exc is None or isinstance(exc, Boom)), lambda: f"lifespan ended with {exc!r}")
                check(live.sent == [] and app.scopes[-1] is live.scope, lambda: f"messages {live.sent}")
                del lives[n]
        elif k == "startup":
            new = [i for i, x in lives.items() if x["stage"] == "new"]
            if not new:
                continue
            i = new[op["i"] % len(new)]
            live = lives[i]["conn"]
            stats["startup"] += 1
            before = len(app.seen)
            await live.give({"type": "lifespan.startup", "x": i})
            if ex.broken and not users and not manual:
                await until(live.task.done, "a startup that fails does not end the lifespan")
                check(live.task.exception() is None, lambda: f"a failed start raised {live.task.exception()!r}")
                check(live.answered("lifespan") == ["lifespan.startup.failed"], lambda: f"a failed start was answered by {live.sent}")
                check(len(app.seen) == before, "the application was started although the scheduler did not start")
                del lives[i]
                stats["broken"] += 1
                await settled()
                continue
            ends = not own and how in ("raise_startup", "refuse", "leave", "raise_serving")
            if ends:
                await until(live.task.done, "the lifespan goes on")
                exc = live.task.exception()
                check(isinstance(exc, Boom) if how.startswith("raise") else exc is None, lambda: f"lifespan ended with {exc!r}")
                del lives[i]
                stats["failing"] += 1
                if how == "raise_startup":
                    # the server may go on without lifespan: up to the application's server
                    while s.running and s.ref_counter > users + manual:
                        manual += 1
                        stats["unanswered"] += 1
            else:
                await until(lambda: live.answered("lifespan.startup"), lambda: f"startup is not answered; sent {live.sent}")  # noqa: B023
                check(s.running, "startup was answered while the scheduler is not running")
                lives[i]["stage"] = "serving"
                users += per
            if own:
                check(live.sent == [{"type": "lifespan.startup.complete"}] and not app.seen, lambda: f"own answer {live.sent}; the application saw {app.seen}")
            else:
                got = app.seen[before:]
                check(got and got[0][1] == {"type": "lifespan.startup", "x": i} and got[0][1] is live.given[0], lambda: f"the application got {got}")
                check(got[0][2] is True, "the application was asked to start while the scheduler was not running")
                want = {"raise_startup": [], "refuse": [{"type": "lifespan.startup.failed", "message": "no", "n": i}]}.get(how, [{"type": "lifespan.startup.complete", "n": i, "odd": [1, {"a": b"\x00"}]}])
                check(live.sent == want, lambda: f"the application answered {want}, the server got {live.sent}")
            await settled()
        elif k == "shutdown" or k == "end":
            old = [i for i, x in lives.items() if x["stage"] == "serving"]
            if k == "shutdown":
                old = [old[op["i"] % len(old)]] if old else []
            for i in old:
                live = lives.pop(i)["conn"]
                before = len(app.seen)
                had = list(live.sent)
                if op.get("cancel"):
                    live.task.cancel()
                    await asyncio.wait([live.task], timeout=WAIT)
                    check(live.task.cancelled(), lambda: f"cancelled, the lifespan ended as {live.task}")  # noqa: B023
                    stats["cancelled"] += 1
                    users -= per
                    await settled()
                    continue
                await live.give({"type": "lifespan.shutdown", "x": i})
                await until(live.task.done, lambda: f"the lifespan goes on after shutdown; sent {live.sent}")  # noqa: B023
                users -= per
                exc = live.task.exception()
                if own:
                    check(exc is None and live.sent == [*had, {"type": "lifespan.shutdown.complete"}], lambda: f"own answer {live.sent}, ended with {exc!r}")
                else:
                    check(isinstance(exc, Boom) == (how == "raise_shutdown") and (exc is None or isinstance(exc, Boom)), lambda: f"lifespan ended with {exc!r}")
                    want = {"raise_shutdown": [], "fail_shutdown": [{"type": "lifespan.shutdown.failed", "message": "no", "n": i}]}.get(how, [{"type": "lifespan.shutdown.complete", "n": i}])
                    check(live.sent == had + want, lambda: f"the application answered {want}, the server got {live.sent[len(had):]}")
                    check([x[1] for x in app.seen[before:]] == [{"type": "lifespan.shutdown", "x": i}], lambda: f"the application got {app.seen[before:]}")
                stats["shutdown"] += 1
                await settled()
                if not users and not manual:
                    check(waits[-1:] == [c["wait"]], lambda: f"wait={c['wait']} reached the executors as {waits[-1:]}")
        elif k == "request":
            scope = {"type": op["type"], "how": op["how"], "msgs": op["msgs"], "path": "/x", "headers": [(b"a", b"\xff")]}
            copy = dict(scope)
            conn = Conn(wrapped, scope)
            msgs = [{"type": op["like"], "k": j, "body": bytes([j])} for j in range(op["msgs"])]
            for m in msgs:
                await conn.give(m)
            await until(conn.task.done, "a request hangs")
            exc = conn.task.exception()
            check(isinstance(exc, Boom) if op["how"].startswith("raise") else exc is None, lambda: f"a request ended with {exc!r}")
            check(app.scopes[-1] is scope and scope == copy, lambda: f"the scope {copy} became {app.scopes[-1]}")
            seen = [] if op["how"] == "raise" else msgs
            check(conn.given == seen and conn.sent == [{"type": "echo", "of": m} for m in seen], lambda: f"messages {msgs} became {conn.sent}")
            stats["request"] += 1
            await settled()
        elif k == "start":
            if ex.broken and not users and not manual:
                try:
                    await maybe(s.start())
                except Boom:
                    continue
                check(False, "start() succeeded with a failing executor")
            await maybe(s.start())
            manual += 1
            await settled()
        elif k == "stop" and manual:
            await maybe(s.shutdown())
            manual -= 1
            await settled()
        elif k == "mend":
            ex.broken = op["to"]
    for x in lives.values():
        x["conn"].task.cancel()
        await asyncio.wait([x["conn"].task], timeout=WAIT)
    while manual:
        await maybe(s.shutdown())
        manual -= 1
    await settled()
    await until(lambda: watch.starts == watch.stops, lambda: f"{watch.starts} starts, {watch.stops} shutdowns")
    return stats


def run_asgi(c: dict) -> Outcome:
    stats = asyncio.run(server(c))
    return Outcome(stats["startup"] > 0, [c["kind"], c["lifespan"] if not c["own"] else "own"] + sorted(stats))


@st.composite
def servings(draw):
    b = st.booleans()
    ops = []
    for k in draw(st.lists(st.sampled_from(["open", "open", "startup", "startup", "startup", "shutdown", "shutdown", "request", "request", "start", "stop", "mend"]), min_size=2, max_size=12)):
        o: dict = {"op": k}
        if k in ("startup", "shutdown"):
            o["i"] = draw(st.integers(0, 1))
        if k == "shutdown":
            o["cancel"] = draw(st.sampled_from([False, False, True]))
        if k == "request":
            o.update(type=draw(st.sampled_from(["http", "websocket", "odd"])), how=draw(st.sampled_from(["ok", "ok", "return", "raise", "raise_late"])), msgs=draw(st.integers(0, 3)))
            o["like"] = draw(st.sampled_from(["http.request", "lifespan.startup", "lifespan.shutdown", "websocket.receive"]))
        if k == "mend":
            o["to"] = draw(b)
        ops.append(o)
    if draw(b):
        ops = [{"op": "open"}, {"op": "startup", "i": 0}, *ops]
    return {
        "kind": draw(st.sampled_from(["asyncio", "asyncio", "native", "native", "asyncio_iso", "native_iso"])),
        "own": draw(st.sampled_from([False, False, True])),
        "wait": draw(b),
        "direct": draw(b),
        "twice": draw(st.sampled_from([False, False, True])),
        "broken": draw(st.sampled_from([False, False, False, True])),
        "lifespan": draw(st.sampled_from(["ok"] * 4 + ["ignore", "raise", "raise_startup", "refuse", "leave", "raise_serving", "raise_shutdown", "fail_shutdown"])),
        "ops": ops,
    }


# ------------------------------------------------------------------ context managers


class Managers:
    def __init__(self, c: dict) -> None:
        self.c = c
        self.s = make(c["kind"])
        self.native = c["kind"].startswith("native")
        self.watch = Watch(self.s)
        self.stats: Counter = Counter()
        self.ran: Counter = Counter()
        self.n = 0
        self.lock = threading.Lock()
        if c["slowdown"]:
            self.s.add_task(self.slow, "shutdown")

    async def slow(self) -> None:
        await asyncio.sleep(0.01)

    def probe(self, late: bool) -> str:
        """Add a task that has to run while the bracket is open."""
        with self.lock:
            self.n += 1
            key = f"p{self.n}"
        at = datetime.now(timezone.utc) + timedelta(milliseconds=20 if late else 0)

        def hit() -> None:
            self.ran[key] += 1

        self.s.add_task(hit, "date", run_at=at, id=key, mistrigger_grace_time=None)
        self.stats["late" if late else "now"] += 1
        return key

    def running(self, where: str) -> None:
        check(self.s.running, f"not running {where}")
        check(not self.watch.bad, self.watch.bad)

    # a node: {"how": with|async|pair, "body": [...], "end": ok|exc|base|cancel}; a leaf: {"do": probe|sleep}

    async def node(self, x: dict) -> None:
        self.stats["brackets"] += 1
        how = x["how"]
        if how == "with" and not self.native:
            with self.s as got:
                check(got is self.s, "the context manager gives something else")
                await self.body(x)
        elif how == "pair":
            r = self.s.start()
            if self.native:
                await r
            try:
                await self.body(x)
            finally:
                r = self.s.shutdown()
                if self.native:
                    await r
        else:
            async with self.s as got:
                check(got is self.s, "the context manager gives something else")
                await self.body(x)

    async def body(self, x: dict) -> None:
        self.running("inside a bracket")
        for y in x["body"]:
            if "how" in y:
                exc: Any = None
                try:
                    await self.node(y)
                except (Boom, Base) as e:
                    exc = e
                check(type(exc).__name__ == {"exc": "Boom", "base": "Base"}.get(y["end"], "NoneType"), lambda: f"left by {y['end']}, {exc!r} came out")
                if not (x.get("thread")):
                    self.running("after an inner bracket")
            elif y["do"] == "sleep":
                await self.nap(0.002)
                self.running("after a pause")
            else:
                key = self.probe(y["late"])
                end = time.monotonic() + WAIT
                while not self.ran[key]:
                    check(time.monotonic() < end, f"a task added inside a bracket never runs ({'later' if y['late'] else 'at once'})")
                    self.running("waiting for a task")
                    await self.nap(0.001)
        if x["end"] == "exc":
            self.stats["exc"] += 1
            raise Boom
        if x["end"] == "base":
            self.stats["exc"] += 1
            raise Base
        if x["end"] == "cancel" and not self.c["threads"]:
            self.stats["exc"] += 1
            asyncio.current_task().cancel()  # type: ignore[union-attr]
            await asyncio.sleep(3600)

    async def nap(self, t: float) -> None:
        if self.c["threads"]:
            time.sleep(t)
        else:
            await asyncio.sleep(t)

    async def top(self, x: dict) -> None:
        if x["delay"]:
            await self.nap(x["delay"] / 1000)
        try:
            await self.node(x)
        except (Boom, Base, asyncio.CancelledError) as e:
            want = {"exc": "Boom", "base": "Base", "cancel": "CancelledError"}.get(x["end"])
            check(type(e).__name__ == want, lambda: f"left by {x['end']}, {e!r} came out")

    async def all(self) -> None:
        results = await asyncio.gather(*[asyncio.ensure_future(self.top(x)) for x in self.c["tops"]], return_exceptions=True)
        for r in results:
            if isinstance(r, BaseException):
                raise r
        if self.native:
            check(not self.s.running, "still running after all brackets were left")
        else:
            await until(lambda: not self.s.running, "still running after all brackets were left")
        await self.last()

    async def last(self) -> None:
        check(not self.watch.bad, self.watch.bad)
        end = time.monotonic() + WAIT
        while self.watch.starts != self.watch.stops:
            check(time.monotonic() < end, f"{self.watch.starts} starts, {self.watch.stops} shutdowns")
            await self.nap(0.001)
        twice = [k for k, v in self.ran.items() if v > 1]
        check(not twice, f"tasks ran more than once: {twice}")

    def run(self) -> None:
        if not self.c["threads"]:
            asyncio.run(self.all())
            return
        errors: list = []

        def one(x: dict) -> None:
            coro = self.top({**x, "thread": True})
            try:
                coro.send(None)
            except StopIteration:
                pass
            except BaseException as e:
                errors.append(e)

        ts = [threading.Thread(target=one, args=(x,)) for x in self.c["tops"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join(4 * WAIT)
            check(not t.is_alive(), "a thread hangs")
        if errors:
            raise errors[0]
        end = time.monotonic() + WAIT
        while self.s.running or self.s.event_loop_thread is not None:
            check(time.monotonic() < end, "still running after all brackets were left")
            time.sleep(0.001)
        coro = self.last()
        try:
            coro.send(None)
        except StopIteration:
            pass


def run_managers(c: dict) -> Outcome:
    m = Managers(c)
    m.run()
    return Outcome(m.stats["brackets"] > 1 or m.stats["exc"] > 0, [c["kind"], "threads" if c["threads"] else "tasks"] + sorted(m.stats))


def nodes(depth: int, threads: bool) -> Any:
    leaf = st.one_of(st.just({"do": "sleep"}), st.builds(lambda late: {"do": "probe", "late": late}, st.sampled_from([False, False, True])))
    inner = st.one_of(leaf, leaf, st.deferred(lambda: nodes(depth - 1, threads))) if depth else leaf
    return st.fixed_dictionaries(
        {"how": st.sampled_from(["with", "pair"] if threads else ["with", "async", "async", "pair"]), "body": st.lists(inner, max_size=3), "end": st.sampled_from(["ok", "ok", "ok", "exc", "base"])}
    )


@st.composite
def manager_cases(draw):
    threads = draw(st.sampled_from([False, False, True]))
    kind = "asyncio" if threads else draw(st.sampled_from(["asyncio", "native", "native", "asyncio_iso", "native_iso", "native_iso"]))
    tops = draw(st.lists(nodes(2, threads), min_size=1, max_size=3))
    for x in tops:
        x["delay"] = draw(st.sampled_from([0, 0, 1, 3, 6, 12, 25]))
        if not threads and draw(st.integers(0, 4)) == 4:
            x["end"] = "cancel"
    return {"kind": kind, "threads": threads, "slowdown": draw(st.booleans()), "tops": tops}


PARTS = [
    Part("asgi", servings, run_asgi, quick=2400, thorough=60000),
    Part("managers", manager_cases, run_managers, quick=1200, thorough=30000),
]
