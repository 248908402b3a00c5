"""A whole scheduler under a virtual clock, next to a reference model of it.

    w = World(cfg)            # cfg: plain data, see config()
    w.apply(op)               # one operation on the real scheduler and on the model; raises Violation
    w.close()

The model is written from the documentation: a collection of tasks per store, a list of tentative
tasks while stopped, and rounds that submit what is due. Everything observable is compared after every
operation: outcome of the call, held tasks, submissions to executors, calls made, events.

Two drivers: "manual" (rounds are operations) and "loop" (the real AsyncIOScheduler on a virtual event
loop: rounds happen when its own timer or wake-up says so).
"""

from __future__ import annotations

import collections
import warnings
from typing import Any, Optional

from hypothesis import strategies as st

from vp import backends, clock
from vp import targets
from vp import tz as TZ
from vp.runner import Violation, check
from vp.taskgen import T0 as BASE

SEC = 1_000_000
T0 = BASE + 250_000

E_START, E_SHUTDOWN, E_PAUSED, E_RESUMED = 1, 2, 4, 8
E_EXADD, E_EXREM, E_STADD, E_STREM, E_ALLREM = 16, 32, 64, 128, 256
E_ADDED, E_REMOVED, E_MODIFIED, E_EXECUTED, E_ERROR, E_MISSED, E_SUBMITTED, E_MAX = (
    512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
)
NAMES = {v: k[2:] for k, v in list(globals().items()) if k.startswith("E_")}
DECORATED = ["tagged", "tagged_too"]
GROUP = {E_ADDED: "task", E_REMOVED: "task", E_MODIFIED: "task", E_SUBMITTED: "sub", E_MAX: "sub",
         E_EXECUTED: "run", E_ERROR: "run", E_MISSED: "run"}  # fmt: skip


# ------------------------------------------------------------------ reference triggers


class Trig:
    """A schedule as data: interval / date / cron second='*/n' / shutdown, with independent arithmetic."""

    def __init__(self, d: dict, created: int) -> None:
        self.k = d["k"]
        self.every = d.get("every", 1) * SEC
        self.start = T0 + d["start"] if d.get("start") is not None else created + (self.every if self.k == "interval" else 0)
        self.end = None if d.get("end") is None else T0 + d["end"]
        self.lenient = self.k == "date" and d.get("start") is None
        self.n = d.get("every", 1)
        self.brk = d.get("brk", False)

    def _end(self, t: int) -> Optional[int]:
        return None if self.end is not None and t > self.end else t

    def first(self, now: int) -> Optional[int]:
        if self.k == "shutdown":
            return None
        if self.k == "date":
            return self.start
        if self.k == "interval":
            k = max(0, -(-(now - self.start) // self.every))
            return self._end(self.start + k * self.every)
        return self._end(self._tick(now))

    def after(self, prev: int, now: int) -> Optional[int]:
        if self.k in ("shutdown", "date"):
            return None
        if self.k == "interval":
            return self._end(prev + self.every)
        t = min(now, prev + 1)
        return self._end(self._tick(t if t != prev else t + 1))

    def _tick(self, t: int) -> int:
        step = self.n * SEC
        minute = t // (60 * SEC) * (60 * SEC)
        k = -(-(t - minute) // step)
        return minute + k * step if k * step < 60 * SEC else minute + 60 * SEC


def real_trigger(d: dict) -> Any:
    from asyncz import triggers as tr

    name, kw = trigger_args(d)
    if d.get("brk"):
        return targets.BreakableTrigger(timezone="UTC", **kw)
    return {"interval": tr.IntervalTrigger, "date": tr.DateTrigger, "cron": tr.CronTrigger, "shutdown": tr.ShutdownTrigger}[name](**({"timezone": "UTC", **kw} if name != "shutdown" else kw))


def trigger_args(d: dict) -> tuple[str, dict]:
    k = d["k"]
    at = lambda v: TZ.at(T0 + v)  # noqa: E731
    if k == "interval":
        kw: dict = {"seconds": d["every"]}
        if d.get("start") is not None:
            kw["start_at"] = at(d["start"])
        if d.get("end") is not None:
            kw["end_at"] = at(d["end"])
    elif k == "date":
        kw = {} if d.get("start") is None else {"run_at": at(d["start"])}
    elif k == "cron":
        kw = {"second": f"*/{d['every']}"}
        if d.get("end") is not None:
            kw["end_at"] = at(d["end"])
    else:
        kw = {}
    return k, kw


# ------------------------------------------------------------------ virtual event loop


class Handle:
    def __init__(self, at: int, fn: Any, args: tuple) -> None:
        self.at, self.fn, self.args, self.dead = at, fn, args, False

    def cancel(self) -> None:
        self.dead = True


class FakeLoop:
    """What a scheduler uses of an asyncio loop, on the virtual clock."""

    def __init__(self) -> None:
        self.ready: collections.deque = collections.deque()
        self.timers: list[Handle] = []
        self.errors: list[BaseException] = []
        self.steps = 0

    def call_soon_threadsafe(self, fn: Any, *args: Any, context: Any = None) -> Handle:
        h = Handle(0, fn, args)
        self.ready.append(h)
        return h

    call_soon = call_soon_threadsafe

    def call_later(self, delay: float, fn: Any, *args: Any, context: Any = None) -> Handle:
        check(delay == delay and delay >= 0, f"call_later({delay})")
        h = Handle(TZ.us(clock.now()) + round(delay * SEC), fn, args)
        self.timers.append(h)
        return h

    def time(self) -> float:
        return TZ.us(clock.now()) / SEC

    def stop(self) -> None: ...

    def is_running(self) -> bool:
        return True

    def is_closed(self) -> bool:
        return False

    def deadline(self) -> Optional[int]:
        self.timers = [h for h in self.timers if not h.dead]
        return min((h.at for h in self.timers), default=None)

    def drain(self) -> None:
        n = 0
        while True:
            now = TZ.us(clock.now())
            due = [h for h in self.timers if not h.dead and h.at <= now]
            self.timers = [h for h in self.timers if not h.dead and h.at > now]
            self.ready.extend(sorted(due, key=lambda h: h.at))
            if not self.ready:
                return
            h = self.ready.popleft()
            if h.dead:
                continue
            h.dead = True
            n += 1
            check(n < 300, "the scheduler keeps waking itself up without advancing")
            try:
                h.fn(*h.args)
            except Violation:
                raise
            except Exception as exc:  # asyncio reports it and goes on
                self.errors.append(exc)


# ------------------------------------------------------------------ model


class MTask:
    def __init__(self, **kw: Any) -> None:
        self.__dict__.update(kw)

    def copy(self) -> "MTask":
        return MTask(**self.__dict__)

    def view(self) -> dict:
        return {
            "id": self.id,
            "store": self.store,
            "next": self.next,
            "grace": self.grace,
            "coalesce": self.coalesce,
            "maxi": self.maxi,
            "exec": self.exec,
            "name": self.name,
            "tag": self.tag,
            "trig": self.trig.k,
        }


def real_view(t: Any) -> dict:
    return {
        "id": t.id,
        "store": t.store_alias,
        "next": None if t.next_run_time is None else TZ.us(t.next_run_time),
        "grace": t.mistrigger_grace_time,
        "coalesce": t.coalesce,
        "maxi": t.max_instances,
        "exec": t.executor,
        "name": t.name,
        "tag": t.args[0] if t.args else None,
        "trig": t.trigger.alias,
    }


def kind_of(exc: BaseException) -> str:
    from asyncz import exceptions as X

    for cls, k in (
        (X.ConflictIdError, "conflict"),
        (X.TaskLookupError, "lookup"),
        (X.MaximumInstancesError, "max"),
        (X.SchedulerAlreadyRunningError, "alreadyrunning"),
        (X.SchedulerNotRunningError, "notrunning"),
    ):
        if isinstance(exc, cls):
            return k
    if isinstance(exc, KeyError):
        return "key"
    if isinstance(exc, (ValueError, TypeError, AttributeError, AssertionError)):
        return "invalid"
    return type(exc).__name__


class Refused(Exception):
    def __init__(self, kind: str) -> None:
        self.kind = kind


class World:
    DISK, OTHER, INLINE = "disk", "x", "inline"  # names of the stored store and the executors

    def __init__(self, cfg: dict) -> None:
        self.cfg = cfg
        self.vc = clock.virtual(TZ.at(T0))
        self.vc.__enter__()
        self.backend: Any = None
        try:
            self._build()
        except BaseException:
            self.close()
            raise

    # ---- set-up

    def make_recorder(self, alias: str) -> Any:
        from vp.sched import recorder_executor

        return recorder_executor(lambda task, times: self.on_send(alias, task, times))

    def extra_stores(self) -> dict:
        return {}

    def make_config(self, config: dict) -> dict:
        return config

    def _build(self) -> None:
        from asyncz.executors.debug import DebugExecutor
        from asyncz.stores.memory import MemoryStore

        cfg = self.cfg
        del targets.CALLS[:]
        self.sent: list = []  # (executor, store, id, times us)
        self.events: list = []
        self.order: list = []
        self.inflight: dict = collections.defaultdict(list)  # (store, id) -> [executor alias]
        self.stores: dict = {"default": MemoryStore()}
        self.mem = ["default"]
        if cfg.get("disk"):
            self.backend = backends.CURRENT(cfg["disk"])
            self.stores[self.DISK] = self.backend.make()
        self.stores.update(self.extra_stores())
        self.execs: dict = {"default": self.make_recorder("default"), self.OTHER: self.make_recorder(self.OTHER), self.INLINE: DebugExecutor()}
        d = dict(cfg.get("defaults") or {})
        config = {"timezone": "UTC", "stores": dict(self.stores), "executors": dict(self.execs), "task_defaults": d}
        config = self.make_config(config)
        self.defaults = {
            "grace": d.get("mistrigger_grace_time", 1),
            "coalesce": d.get("coalesce", True),
            "maxi": d.get("max_instances", 1),
        }
        self.loop: Optional[FakeLoop] = None
        if cfg["driver"] == "loop":
            from asyncz.schedulers import AsyncIOScheduler

            self.loop = FakeLoop()
            self.s = AsyncIOScheduler(event_loop=self.loop, **config)
        else:
            from vp.sched import manual

            self.s = manual(**config)
        clock.install()
        self.s.add_listener(self.on_event)
        # model
        self.state = "stopped"
        self.refs = 0
        self.pending: list = []  # [MTask, replace, start_task]
        self.held: dict = {a: {} for a in self.stores}
        self.m_sent: list = []
        self.m_events: list = []
        self.m_calls: list = []
        self.tag = 0
        self.batches: list = []
        self.retry: list = []  # Task objects whose submission was refused
        self.handles: list = []  # (id, store, Task as it was returned by add_task)
        self.decos: list = []  # (decorator, op, tag, created)
        for fn in DECORATED:
            vars(getattr(targets, fn)).pop("asyncz_tasks", None)
        self.stats: collections.Counter = collections.Counter()

    def close(self) -> None:
        try:
            if self.backend is not None:
                self.backend.dispose()
        finally:
            self.vc.__exit__(None, None, None)

    # ---- observation

    @property
    def now(self) -> int:
        return TZ.us(clock.now())

    def on_send(self, alias: str, task: Any, times: list) -> None:
        self.sent.append((alias, task.store_alias, task.id, [TZ.us(t) for t in times]))
        self.inflight[(task.store_alias, task.id)].append(alias)

    def on_event(self, e: Any) -> None:
        self.events.append(self.event_view(e))
        self.visible(e)

    @staticmethod
    def event_view(e: Any) -> dict:
        d: dict = {"code": e.code, "alias": e.alias}
        for k in ("task_id", "store", "source", "coalesced_run_count", "return_value"):
            if hasattr(e, k):
                d[k] = getattr(e, k)
        if hasattr(e, "scheduled_run_times"):
            d["times"] = [TZ.us(t) for t in e.scheduled_run_times]
        if hasattr(e, "scheduled_run_time"):
            d["times"] = [TZ.us(e.scheduled_run_time)]
        if hasattr(e, "exception"):
            d["exc"] = None if e.exception is None else type(e.exception).__name__
        return d

    def visible(self, e: Any) -> None:
        """What an event says has already happened when it is announced."""
        s = self.s
        if e.code == E_ADDED:
            check(s.get_task(e.task_id, e.store) is not None or s.state == 0, f"'added' announced before {e.task_id!r} is there")
        elif e.code == E_REMOVED:
            check(s.get_task(e.task_id, e.store) is None, f"'removed' announced while {e.task_id!r} is still there") if not self.dup(e) else None
        elif e.code in (E_START, E_RESUMED):
            check(s.running, "'started/resumed' announced while stopped")
        elif e.code == E_PAUSED:
            check(int(s.state) == 2, "'paused' announced while not paused")
        elif e.code == E_SHUTDOWN:
            check(not s.running, "'shutdown' announced while running")
        elif e.code == E_ALLREM:
            check(not s.get_tasks(e.alias), "'all removed' announced while tasks are still there")

    def dup(self, e: Any) -> bool:
        return self.state == "stopped"  # tentative tasks may repeat an id

    # ---- the model's view of an event

    def ev(self, code: int, task_id: Any = None, store: Any = None, alias: Any = None, **kw: Any) -> None:
        e = {"code": code, "alias": alias, "task_id": task_id, "store": store, **kw}
        # outcomes are announced when the batch is over
        (self.batches[-1] if self.batches and GROUP.get(code) == "run" else self.m_events).append(e)

    # ---- applying operations

    def apply(self, op: dict) -> Any:
        k = op["op"]
        del self.sent[:], self.events[:], self.m_sent[:], self.m_events[:]
        del targets.CALLS[:]
        self.m_calls = []
        self.what = f"{op} at +{(self.now - T0) / SEC}s ({self.state})"
        self.stats[k] += 1
        if op.get("own"):
            # through the task object the caller got when adding it
            for tid, store, h in reversed(self.handles):
                if tid == op["id"] and op.get("store") in (None, store):
                    op = {**op, "store": store, "_handle": h}
                    self.stats["own"] += 1
                    break
        if k in ("adv", "jump", "round"):
            getattr(self, "op_" + k)(op)
            self.compare()
            return None
        try:
            real: Any = ("ok", getattr(self, "do_" + k)(op))
        except Violation:
            raise
        except Exception as exc:
            real = ("err", kind_of(exc), exc)
        try:
            want: Any = ("ok", getattr(self, "model_" + k)(op, real))
        except Refused as r:
            want = ("err", r.kind)
        if "_handle" in op and real[0] == "ok":
            check(real[1] is op["_handle"], lambda: f"{self.what}: the task's method returned {real[1]!r}, not the task")
            real = ("ok", self.s.get_task(op["id"], op["store"]) if want[1] is not None else None)
        self.outcome(op, real, want)
        if real[0] == "ok" and k in ("add", "redeco"):
            if isinstance(want[1], MTask):
                self.handles.append((want[1].id, want[1].store, real[1]))
        if real[0] == "ok":
            self.stats["ok:" + k] += 1
        if self.loop is not None:
            self.loop.drain()
            self.model_settle()
        self.compare()
        return real

    def outcome(self, op: dict, real: tuple, want: tuple) -> None:
        if want[0] == "err":
            check(real[0] == "err", lambda: f"{self.what}: should be refused ({want[1]}), got {real[1]!r}")
            kinds = {want[1]} | ({"key"} if want[1] in ("lookup",) else set())
            check(real[1] in kinds, lambda: f"{self.what}: refused with {real[2]!r}, expected {want[1]}")
        else:
            check(real[0] == "ok", lambda: f"{self.what}: refused with {real[2]!r}")
            if want[1] is not _ANY:
                got = real[1]
                if isinstance(want[1], MTask):
                    check(got is not None, lambda: f"{self.what}: returned nothing")
                    got, w = real_view(got), want[1].view()
                    check(got == w, lambda: f"{self.what}: returned {diff(got, w)}")
                else:
                    check(got == want[1], lambda: f"{self.what}: returned {got!r}, expected {want[1]!r}")

    # time

    def op_adv(self, op: dict) -> None:
        """Time passes; every timer fires on time."""
        target = self.now + op["dt"]
        if self.loop is None:
            clock.set_now(TZ.at(target))
            return
        for _ in range(2000):
            due = self.model_next()
            dl = self.loop.deadline()
            if due is not None:
                check(dl is not None, lambda: f"{self.what}: a run is due at +{(due - T0) / SEC}s but no wake-up is planned")
                check(dl <= max(due, self.now), lambda: f"{self.what}: next run at +{(due - T0) / SEC}s, wake-up only at +{(dl - T0) / SEC}s")
            if dl is None or dl > target:
                break
            clock.set_now(TZ.at(max(dl, self.now)))
            self.loop.drain()
            self.model_settle()
            self.stats["timer"] += 1
        else:
            raise Violation(f"{self.what}: too many wake-ups")
        clock.set_now(TZ.at(target))

    def op_jump(self, op: dict) -> None:
        """The machine was asleep: timers fire late."""
        clock.set_now(TZ.at(self.now + op["dt"]))
        if self.loop is not None:
            self.loop.drain()
            self.model_settle()

    def op_round(self, op: dict) -> None:
        if self.loop is not None:
            self.s.wakeup()
            self.loop.drain()
            self.model_settle()
            return
        if self.state == "stopped":
            return
        wait = self.s.process_tasks()
        self.model_round()
        nxt = self.model_next()
        if self.state == "paused" or nxt is None:
            check(wait is None, lambda: f"{self.what}: waits {wait} with nothing to run")
        else:
            check(wait is not None, lambda: f"{self.what}: waits without limit, next run at {nxt}")
            check(wait >= 0 and round(wait * SEC) <= max(nxt - self.now, 0), lambda: f"{self.what}: waits {wait}s, next run in {(nxt - self.now) / SEC}s")

    def model_next(self) -> Optional[int]:
        if self.state != "running":
            return None
        return min((t.next for ts in self.held.values() for t in ts.values() if t.next is not None), default=None)

    def model_settle(self) -> None:
        for _ in range(100):
            n = self.model_next()
            if n is None or n > self.now:
                return
            self.model_round()
        raise AssertionError("model does not settle")

    # rounds

    def run_times(self, t: MTask) -> list:
        out, n = [], t.next
        while n is not None and n <= self.now:
            out.append(n)
            n = t.trig.after(n, self.now)
        return out

    def busy(self, t: MTask) -> int:
        return len(self.inflight_m[(t.store, t.id)])

    @property
    def inflight_m(self) -> dict:
        return self._mi

    _mi: dict

    def submit(self, t: MTask, times: list, source: str, omitted: int, late: list) -> bool:
        ev = {"times": times, "source": source, "coalesced_run_count": omitted}
        if len(self._mi[(t.store, t.id)]) >= t.maxi:
            late.append((E_MAX, t, ev))
            self.stats["limit"] += 1
            return False
        self.m_sent.append((t.exec, t.store, t.id, times, t.next)) if t.exec != self.INLINE else None
        if t.exec == self.INLINE:
            self._mi[(t.store, t.id)].append(t.exec)
            self.run_inline(t, times)
            self._mi[(t.store, t.id)].pop()
        else:
            self._mi[(t.store, t.id)].append(t.exec)
        late.append((E_SUBMITTED, t, ev))
        self.stats["sub"] += 1
        self.stats["many"] += len(times) > 1
        self.stats["omitted"] += omitted > 0
        return True

    def run_inline(self, t: MTask, times: list) -> None:
        self.batches.append([])
        try:
            self.run_batch(t, times)
        finally:
            self.m_events += self.batches.pop()

    def run_batch(self, t: MTask, times: list) -> None:
        for x in times:
            if t.grace is not None and self.now - x > round(t.grace * SEC):
                self.ev(E_MISSED, t.id, t.store, times=[x], return_value=None, exc=None)
                self.stats["missed"] += 1
            else:
                self.body(t, x)

    def body(self, t: MTask, x: int) -> None:
        self.m_calls.append(t.tag)
        self.ev(E_EXECUTED, t.id, t.store, times=[x], return_value=t.tag, exc=None)

    def model_round(self) -> None:
        if self.state != "running":
            return
        late: list = []
        for alias, held in self.held.items():
            self.round_of(alias, held, late)
        for code, t, kw in late:
            self.ev(code, t.id, t.store, **kw)

    def fails(self, t: MTask) -> bool:
        return False

    def round_of(self, alias: str, held: dict, late: list) -> None:
        due = sorted((t for t in held.values() if t.next is not None and t.next <= self.now), key=lambda t: t.next)
        for first in due:
            t = held.get(first.id)  # tasks run inline may have changed it
            if t is None or t.next is None or t.next > self.now:
                continue
            if t.exec not in self.execs:
                del held[t.id]
                self.ev(E_REMOVED, t.id, alias)
                continue
            if self.fails(t):
                continue
            times, scheduled = self.run_times(t), t.next
            batch = times[-1:] if t.coalesce else times
            self.submit(t, batch, "scheduled", len(times) - len(batch), late)
            t = held.get(t.id)
            if t is None or t.next != scheduled:
                continue
            nxt = t.trig.after(batch[-1], self.now)
            if nxt is None:
                del held[t.id]
                self.ev(E_REMOVED, t.id, alias)
            else:
                t.next = nxt

    # ---- comparing

    def compare(self) -> None:
        self.compare_tasks()
        self.compare_sent()
        self.compare_events()
        if self.loop is not None:
            check(not self.loop.errors, lambda: f"{self.what}: the scheduler failed in its loop: {self.loop.errors[0]!r}")
            due, dl = self.model_next(), self.loop.deadline()
            if due is not None:
                check(dl is not None, lambda: f"{self.what}: a run is due at +{(due - T0) / SEC}s but no wake-up is planned")
                check(dl <= due, lambda: f"{self.what}: next run at +{(due - T0) / SEC}s, wake-up only at +{(dl - T0) / SEC}s")

    def model_tasks(self, store: Any = None) -> list:
        if self.state == "stopped":
            return [t for t, _, _ in self.pending if store in (None, t.store)]
        return [t for a, ts in self.held.items() if store in (None, a) for t in ts.values()]

    def compare_tasks(self) -> None:
        got = [real_view(t) for t in self.s.get_tasks()]
        want = [t.view() for t in self.model_tasks()]
        if self.state == "stopped":
            check(got == want, lambda: f"{self.what}: tentative tasks are {got}, expected {want}")
            return
        key = lambda v: (v["store"], v["id"])  # noqa: E731
        got.sort(key=key)
        want.sort(key=key)
        check([key(v) for v in got] == [key(v) for v in want], lambda: f"{self.what}: held tasks are {[key(v) for v in got]}, expected {[key(v) for v in want]}")
        for g, w in zip(got, want):
            check(g == w, lambda: f"{self.what}: task {g['id']!r}: {diff(g, w)}")

    def compare_sent(self) -> None:
        def per(sent: list) -> dict:
            out: dict = collections.defaultdict(list)
            for ex, store, tid, times, *_ in sent:
                out[(ex, store, tid)].append(times)
            return dict(out)

        got, want = per(self.sent), per(self.m_sent)
        check(got == want, lambda: f"{self.what}: submitted {rel(got)}, expected {rel(want)}")
        check(collections.Counter(map(repr, targets.CALLS)) == collections.Counter(map(repr, self.m_calls)),
              lambda: f"{self.what}: calls made {targets.CALLS}, expected {self.m_calls}")  # fmt: skip

    def compare_events(self) -> None:
        def split(evs: list) -> dict:
            out: dict = collections.defaultdict(list)
            for e in evs:
                e = {k: v for k, v in e.items() if not (k in ("task_id", "store") and v is None)}
                g = GROUP.get(e["code"])
                if g:
                    e.pop("alias", None)  # task events name their store in `store`
                    out[(g, e.get("store"), e["task_id"])].append(e)
                else:
                    out["scheduler"].append(e)
            return dict(out)

        optional = self.optional_events()
        got_l = [e for e in self.events]
        for o in optional:
            for e in got_l:
                if e["code"] == o["code"] and e.get("task_id") == o["task_id"]:
                    got_l.remove(e)
                    break
        got, want = split(got_l), split(self.m_events)
        for k in sorted(set(got) | set(want), key=repr):
            check(got.get(k) == want.get(k), lambda: f"{self.what}: events for {k}: {nice(got.get(k))}, expected {nice(want.get(k))}")

    _opt: list = []

    def optional_events(self) -> list:
        o, self._opt = self._opt, []
        return o

    # ---- operations: lifecycle

    def do_start(self, op: dict) -> Any:
        return self.s.start(paused=op.get("paused", False))

    def model_start(self, op: dict, real: Any) -> Any:
        self.refs += 1
        if self.refs > 1:
            return False
        for t, _, _ in self.pending:
            if t.store not in self.held:
                self.refs -= 1
                raise Refused("key")
        self.state = "paused" if op.get("paused") else "running"
        for t, replace, start in self.pending:
            try:
                self.m_insert(t, replace, start)
            except Refused:
                pass
        self.pending = []
        self.ev(E_START)
        return True

    def do_shutdown(self, op: dict) -> Any:
        return self.s.shutdown(wait=op.get("wait", True))

    def model_shutdown(self, op: dict, real: Any) -> Any:
        if self.state == "stopped":
            raise Refused("notrunning")
        self.refs -= 1
        if self.refs:
            return _ANY
        # tasks kept for the shutdown run now, once, and are gone
        for alias, held in self.held.items():
            for t in list(held.values()):
                if t.trig.k == "shutdown":
                    del held[t.id]
                    self.m_calls.append(t.tag)
                    self._opt = [*self._opt, {"code": E_REMOVED, "task_id": t.id}]
                    self.stats["atshutdown"] += 1
            if alias in self.mem:
                held.clear()
        self.state = "stopped"
        self.ev(E_SHUTDOWN)
        return _ANY

    def do_pause(self, op: dict) -> Any:
        return self.s.pause()

    def model_pause(self, op: dict, real: Any) -> Any:
        if self.state == "stopped":
            raise Refused("notrunning")
        if self.state == "running":
            self.state = "paused"
            self.ev(E_PAUSED)
        return None

    def do_resume(self, op: dict) -> Any:
        return self.s.resume()

    def model_resume(self, op: dict, real: Any) -> Any:
        if self.state == "stopped":
            raise Refused("notrunning")
        if self.state == "paused":
            self.state = "running"
            self.ev(E_RESUMED)
        return None

    # ---- operations: tasks

    def do_add(self, op: dict) -> Any:
        tag = op.get("tag")
        if tag is None:
            self.tag += 1
            tag = self.tag
        kw: dict = {"replace_existing": op.get("replace", False)}
        if op.get("next", "unset") != "unset":
            kw["next_run_time"] = None if op["next"] is None else TZ.at(T0 + op["next"])
        for f, name in (("grace", "mistrigger_grace_time"), ("coalesce", "coalesce"), ("maxi", "max_instances")):
            if op.get(f, "unset") != "unset":
                kw[name] = op[f]
        if op.get("store") is not None:
            kw["store"] = op["store"]
        if op.get("exec") is not None:
            kw["executor"] = op["exec"]
        if op.get("name"):
            kw["name"] = op["name"]
        fn = getattr(targets, op.get("fn", "tagged"))
        args = [tag, op["act"]] if "act" in op else [tag]
        if op.get("via") == "deco":
            return self.decorate(op, args, kw)
        if op.get("via") == "task":
            from asyncz.tasks import Task

            # each value may have been given to the task before, or another one that is now replaced
            made = op.get("made", {})
            own: dict = {"args": [0] if made.get("args") else args, "trigger": real_trigger({"k": "interval", "every": 7, "start": 3} if made.get("trigger") else op["trig"])}
            if made.get("args"):
                kw["args"] = args
            if made.get("trigger") == "alias":
                name, targs = trigger_args(op["trig"])
                kw.update(targs, trigger=name)
            elif made.get("trigger"):
                kw["trigger"] = real_trigger(op["trig"])
            for name, other in (("mistrigger_grace_time", 17), ("coalesce", None), ("max_instances", 9), ("executor", "wrong"), ("name", "wrong"), ("store_alias", "wrong")):
                param = "store" if name == "store_alias" else name
                if param in kw and made.get(param) == "own":
                    own[name] = kw.pop(param)
                elif param in kw and made.get(param) == "over":
                    own[name] = not kw[param] if name == "coalesce" else other
            t = Task(fn, id=op["id"], **own)
            try:
                return self.s.add_task(t, **kw)
            except Exception:
                self.retry.append((t, dict(op), tag))
                raise
        if op.get("spell") in ("ref", "oldref"):
            # by its text
            fn = f"vp.targets:{fn.__name__}"
        if op.get("via") == "alias":
            name, targs = trigger_args(op["trig"])
            if op.get("spell"):
                kw["trigger"] = name
                name = None
            return self.s.add_task(fn, *([name] if name else []), args=args, id=op["id"], **kw, **targs)
        if op.get("spell") in ("old", "oldref"):
            # the name of the parameter in former versions
            with warnings.catch_warnings():
                warnings.simplefilter("ignore", DeprecationWarning)
                return self.s.add_task(fn=fn, trigger=real_trigger(op["trig"]), args=iter(args), id=op["id"], **kw)
        return self.s.add_task(fn, real_trigger(op["trig"]), args=args, id=op["id"], **kw)

    def decorate(self, op: dict, args: list, kw: dict) -> Any:
        kw.pop("replace_existing")
        before = self.model_tasks()
        dec = self.s.add_task(None, real_trigger(op["trig"]), args=args, id=op["id"], **kw)
        check(len(self.s.get_tasks()) == len(before), lambda: f"{self.what}: a task is there before the decorator was used")
        self.decos.append((dec, {**op, "replace": op["id"] is not None}, args[0], self.now))
        return self.use_deco(dec, op["id"], op.get("store") or "default", op.get("fn", "tagged"))

    def use_deco(self, dec: Any, tid: Any, store: str, fn_name: str) -> Any:
        fn = getattr(targets, fn_name)
        n = len(getattr(fn, "asyncz_tasks", ()))
        self.stats["deco"] += 1
        check(dec(fn) is fn, lambda: f"{self.what}: the decorator returned something else than the function")
        kept = getattr(fn, "asyncz_tasks", [])
        check(len(kept) == n + (tid is None), lambda: f"{self.what}: asyncz_tasks of the function has {len(kept)} entries after {n}")
        if tid is None:
            tid = kept[-1].id
            check(tid and tid not in {t.id for t in kept[:-1]}, lambda: f"{self.what}: made-up id {tid!r}")
        found = [t for t in self.s.get_tasks() if t.id == tid and t.store_alias == store]
        return found[-1] if found else None

    def do_redeco(self, op: dict) -> Any:
        """An earlier decorator is used for another function."""
        if not self.decos:
            return None
        dec, o, tag, created = self.decos[op["n"] % len(self.decos)]
        return self.use_deco(dec, o["id"], o.get("store") or "default", op["fn"])

    def model_redeco(self, op: dict, real: Any) -> Any:
        if not self.decos:
            return None
        dec, o, tag, created = self.decos[op["n"] % len(self.decos)]
        self.stats["redeco"] += 1
        return self.add_new({**o, "fn": op["fn"]}, tag, real, created)

    def new_task(self, op: dict, tag: int, created: Optional[int] = None) -> MTask:
        trig = Trig(op["trig"], self.now if created is None else created)

        def field(f: str, default: Any) -> Any:
            v = op.get(f, "unset")
            return default if v == "unset" else v

        as_task = op.get("via") == "task"
        d = {"grace": 1, "coalesce": True, "maxi": 1} if as_task else self.defaults
        grace = d["grace"] if as_task or not trig.lenient else None
        nxt = op.get("next", "unset")
        return MTask(
            id=op["id"],
            store=op.get("store") or "default",
            exec=op.get("exec") or "default",
            next=None if nxt in ("unset", None) else T0 + nxt,
            grace=field("grace", grace),
            coalesce=field("coalesce", d["coalesce"]),
            maxi=field("maxi", d["maxi"]),
            name=op.get("name") or op.get("fn", "tagged"),
            tag=tag,
            fn=op.get("fn", "tagged"),
            act=op.get("act"),
            trig=trig,
        )

    def model_add(self, op: dict, real: Any) -> Any:
        if op.get("via") == "deco":
            op = {**op, "replace": op["id"] is not None}
        return self.add_new(op, op.get("tag", self.tag), real)

    def add_new(self, op: dict, tag: int, real: Any, created: Optional[int] = None) -> Any:
        t = self.new_task(op, tag, created)
        if t.id is None and t.store not in self.held and self.state != "stopped":
            raise Refused("key")
        if t.id is None:
            check(real[0] == "ok" and real[1] is not None and real[1].id, lambda: f"{self.what}: no id was made up: {real}")
            t.id = real[1].id
            check(t.id not in {x.id for x in self.model_tasks()}, f"{self.what}: made-up id is taken")
        return self.m_submit(t, op.get("replace", False), op.get("next", "unset") is not None)

    def m_submit(self, t: MTask, replace: bool, start: bool) -> Any:
        if self.state == "stopped":
            self.pending.append([t, replace, start])
        else:
            self.m_insert(t, replace, start)
        return t

    def m_insert(self, t: MTask, replace: bool, start: bool) -> None:
        if t.store not in self.held:
            raise Refused("key")
        held = self.held[t.store]
        if t.id in held and not replace:
            raise Refused("conflict")
        if t.next is None and start:
            t.next = t.trig.first(self.now)
        self.stats["replaced"] += t.id in held
        held[t.id] = t
        self.ev(E_ADDED, t.id, t.store)

    def do_retry(self, op: dict) -> Any:
        """A refused Task object is given again, this time fitting."""
        if not self.retry:
            return None
        t, o, tag = self.retry[-1]
        return self.s.add_task(t, replace_existing=True, store="default")

    def model_retry(self, op: dict, real: Any) -> Any:
        if not self.retry:
            return None
        t, o, tag = self.retry.pop()
        self.stats["retried"] += 1
        created = None
        if o["trig"].get("start") is None:
            # the trigger was made when the task was first built
            created = TZ.us(t.trigger.start_at) - Trig(o["trig"], 0).every if o["trig"]["k"] == "interval" else TZ.us(t.trigger.run_at) if o["trig"]["k"] == "date" else 0
        m = self.new_task({**o, "store": "default"}, tag, created)
        return self.m_submit(m, True, True)

    def find(self, op: dict) -> tuple:
        """(task, where) where = 'pending' or store alias."""
        tid, store = op["id"], op.get("store")
        if self.state == "stopped":
            for p in self.pending:
                if p[0].id == tid and store in (None, p[0].store):
                    return p[0], None, p
        else:
            for a, ts in self.held.items():
                if store in (None, a) and tid in ts:
                    return ts[tid], a, None
        raise Refused("lookup")

    def do_upd(self, op: dict) -> Any:
        if "_handle" in op:
            return op["_handle"].update(**self.changes(op["ch"]))
        return self.s.update_task(self.target(op), op.get("store"), **self.changes(op["ch"]))

    def target(self, op: dict) -> Any:
        """Tasks can be named by id or given as the object."""
        if op.get("obj"):
            t = self.s.get_task(op["id"], op.get("store"))
            if t is not None:
                return t
        return op["id"]

    @staticmethod
    def changes(ch: dict) -> dict:
        out: dict = {}
        for k, v in ch.items():
            if k == "next":
                out["next_run_time"] = None if v is None else TZ.at(T0 + v)
            elif k == "trig":
                out["trigger"] = real_trigger(v)
            elif k == "tag":
                out["args"] = [v]
            else:
                out[{"grace": "mistrigger_grace_time", "maxi": "max_instances", "exec": "executor"}.get(k, k)] = v
        return out

    def model_upd(self, op: dict, real: Any) -> Any:
        t, store, p = self.find(op)
        ch = op["ch"]
        if bad(ch):
            raise Refused("invalid")
        for k, v in ch.items():
            if k == "next":
                t.next = None if v is None else T0 + v
                if p is not None:
                    p[2] = v is not None
            elif k == "trig":
                t.trig = Trig(v, self.now)
            else:
                setattr(t, k, v)
                if k == "tag":
                    t.act = None
        self.ev(E_MODIFIED, t.id, None if p is not None else t.store)
        return t

    def do_resched(self, op: dict) -> Any:
        if op.get("alias"):
            name, kw = trigger_args(op["trig"])
            if "_handle" in op:
                return op["_handle"].reschedule(name, **kw)
            return self.s.reschedule_task(self.target(op), op.get("store"), name, **kw)
        if "_handle" in op:
            return op["_handle"].reschedule(real_trigger(op["trig"]))
        return self.s.reschedule_task(self.target(op), op.get("store"), real_trigger(op["trig"]))

    def model_resched(self, op: dict, real: Any) -> Any:
        t, store, p = self.find(op)
        t.trig = Trig(op["trig"], self.now)
        t.next = t.trig.first(self.now)
        if p is not None:
            p[2] = t.next is not None
        self.ev(E_MODIFIED, t.id, None if p is not None else t.store)
        return t

    def do_tpause(self, op: dict) -> Any:
        if "_handle" in op:
            return op["_handle"].pause()
        return self.s.pause_task(self.target(op), op.get("store"))

    def model_tpause(self, op: dict, real: Any) -> Any:
        return self.model_upd({**op, "ch": {"next": None}}, real)

    def do_tresume(self, op: dict) -> Any:
        if "_handle" in op:
            return op["_handle"].resume()
        return self.s.resume_task(self.target(op), op.get("store"))

    def model_tresume(self, op: dict, real: Any) -> Any:
        t, store, p = self.find(op)
        nxt = t.trig.first(self.now)
        if nxt is None and t.trig.k != "shutdown":
            self.m_remove(t, store, p)
            return None
        t.next = nxt
        if p is not None:
            p[2] = True
        self.ev(E_MODIFIED, t.id, None if p is not None else t.store)
        return t

    def m_remove(self, t: MTask, store: Any, p: Any) -> None:
        if p is not None:
            # by identity: tentative entries may be equal
            self.pending = [q for q in self.pending if q is not p]
        else:
            del self.held[store][t.id]
        self.ev(E_REMOVED, t.id, t.store)

    def do_run(self, op: dict) -> Any:
        kw = {k: op[k] for k in ("force",) if k in op}
        if "keep" in op:
            kw["remove_finished"] = not op["keep"]
        return self.s.run_task(self.target(op), op.get("store"), **kw)

    def model_run(self, op: dict, real: Any) -> Any:
        if self.state == "stopped":
            raise Refused("notrunning")
        t, store, p = self.find(op)
        times = self.run_times(t)
        if not times and not op.get("force", True):
            return t
        batch = [self.now] if not times else times[-1:] if t.coalesce else times
        omitted = max(0, len(times) - len(batch))
        if t.exec not in self.execs:
            raise Refused("key")
        late: list = []
        scheduled = t.next
        ok = self.submit(t, batch, "manual", omitted, late)
        for code, x, kw in late:
            self.ev(code, x.id, x.store, **kw)
        if not ok:
            raise Refused("max")
        self.stats["runnow"] += 1
        t = self.held[store].get(t.id)
        if t is None or t.next != scheduled:
            return t
        nxt = t.trig.after(batch[-1], self.now)
        if nxt is not None and nxt <= self.now:
            nxt = self.now + 1000
        if nxt is None and not op.get("keep", False):
            self.m_remove(t, store, p)
            return None
        t.next = nxt
        return t

    def do_del(self, op: dict) -> Any:
        if "_handle" in op:
            return op["_handle"].delete()
        return self.s.delete_task(self.target(op), op.get("store"))

    def model_del(self, op: dict, real: Any) -> Any:
        t, store, p = self.find(op)
        self.m_remove(t, store, p)
        return None

    def do_clear(self, op: dict) -> Any:
        return self.s.remove_all_tasks(op.get("store"))

    def model_clear(self, op: dict, real: Any) -> Any:
        store = op.get("store")
        if self.state == "stopped":
            self.pending = [p for p in self.pending if store not in (None, p[0].store)]
        else:
            for a, ts in self.held.items():
                if store in (None, a):
                    ts.clear()
        self.ev(E_ALLREM, alias=store)
        return None

    def do_fin(self, op: dict) -> Any:
        """The oldest batch in flight for a task ends."""
        keys = sorted((k for k, v in self._mi.items() if v), key=repr)
        if not keys:
            return None
        key = keys[op.get("n", 0) % len(keys)]
        ex = self._mi[key].pop(0)
        self.execs[ex].run_task_success(key[1], [])
        return None

    def model_fin(self, op: dict, real: Any) -> Any:
        return None

    def do_get(self, op: dict) -> Any:
        return self.s.get_task(op["id"], op.get("store"))

    def model_get(self, op: dict, real: Any) -> Any:
        try:
            return self.find(op)[0]
        except Refused:
            return None


_ANY = object()


def bad(ch: dict) -> bool:
    return any(
        (k == "grace" and v is not None and (not isinstance(v, (int, float)) or v <= 0))
        or (k == "maxi" and (not isinstance(v, int) or v <= 0))
        or (k == "exec" and not isinstance(v, str))
        or k == "bogus"
        for k, v in ch.items()
    )


def diff(g: dict, w: dict) -> str:
    return ", ".join(f"{k} is {sec(g.get(k)) if k == 'next' else g.get(k)!r}, expected {sec(w.get(k)) if k == 'next' else w.get(k)!r}" for k in w if g.get(k) != w.get(k))


def sec(v: Any) -> str:
    return "none" if v is None else f"+{(v - T0) / SEC}s"


def rel(d: dict) -> dict:
    return {k: [[(t - T0) / SEC for t in ts] for ts in v] for k, v in d.items()}


def nice(evs: Any) -> Any:
    if evs is None:
        return "none"
    return [
        " ".join([NAMES.get(e["code"], str(e["code"]))] + [f"{k}={[sec(t) for t in v] if k == 'times' else v}" for k, v in e.items() if k != "code" and v is not None])
        for e in evs
    ]


# ------------------------------------------------------------------ generators

offset = st.one_of(
    st.sampled_from([0, 1, -1, SEC, -SEC, 5 * SEC, -5 * SEC, 500_000, 3 * SEC, 10 * SEC]),
    st.integers(-10 * SEC, 40 * SEC),
)
delta = st.one_of(
    st.sampled_from([SEC, 2 * SEC, 3 * SEC, 5 * SEC, 10 * SEC, 20 * SEC, SEC + 1, 750_000, 500_000, 1000, 1]),
    st.integers(1, 12 * SEC),
)


@st.composite
def trig(draw, shutdown=True):
    k = draw(st.sampled_from(["interval"] * 5 + ["date"] * 3 + ["cron"] * 3 + (["shutdown"] if shutdown else [])))
    d: dict = {"k": k}
    if k == "interval":
        d["every"] = draw(st.sampled_from([1, 1, 2, 3, 5, 10]))
        d["start"] = draw(st.none() | offset)
        d["end"] = draw(st.sampled_from([None, None, None, 5 * SEC, 12 * SEC, -SEC, 30 * SEC]))
    elif k == "date":
        d["start"] = draw(st.none() | offset)
    elif k == "cron":
        d["every"] = draw(st.sampled_from([1, 2, 5, 10, 7]))
        d["end"] = draw(st.sampled_from([None, None, 10 * SEC, -SEC]))
    return d


IDS = ["a", "b", "c", "d"]


@st.composite
def add_op(draw, cfg, ids=IDS):
    o: dict = {"op": "add", "trig": draw(trig())}
    o["via"] = draw(st.sampled_from(["fn", "fn", "alias", "task"]))
    if o["via"] == "task" and draw(st.booleans()):
        how = st.sampled_from(["own", "over", "over"])
        o["made"] = draw(st.fixed_dictionaries({}, optional={"args": st.just("over"), "trigger": st.sampled_from(["object", "alias"]), **{k: how for k in ("mistrigger_grace_time", "coalesce", "max_instances", "executor", "name", "store")}}))
    elif o["via"] != "task" and draw(st.integers(0, 3)) == 3:
        o["spell"] = draw(st.sampled_from(["ref", "old", "oldref"]))
    stores = ["default"] * 3 + (["disk"] * 3 if cfg.get("disk") else [])
    store = draw(st.sampled_from([None, *stores]))
    if not cfg.get("no_ghosts") and draw(st.integers(0, 29)) == 29:
        store = "nowhere"
    o["store"] = store
    base = draw(st.sampled_from(ids))
    # ids are per store unless the case asks for collisions across stores
    o["id"] = base if store in (None, "default") or cfg.get("same_ids") else base + "2"
    o["next"] = draw(st.sampled_from(["unset", "unset", "unset", None]) | offset)
    for f, vals in (("grace", ["unset", "unset", None, 1, 3, 0.5]), ("coalesce", ["unset", True, False, False]), ("maxi", ["unset", "unset", 1, 2, 3])):
        v = draw(st.sampled_from(vals))
        if v != "unset":
            o[f] = v
    o["exec"] = draw(st.sampled_from([None, "default", "x", "inline", "inline"]))
    if not cfg.get("no_ghosts") and draw(st.integers(0, 19)) == 19:
        o["exec"] = "ghost"
    if draw(st.integers(0, 3)) == 3:
        o["replace"] = True
    if cfg.get("decos") and draw(st.integers(0, 4)) == 4:
        # written above the function; it is "simply started", so it cannot be added paused
        o["via"] = "deco"
        if o["next"] is None:
            o["next"] = "unset"
        if draw(st.booleans()):
            o["id"] = None
    if draw(st.integers(0, 7)) == 7:
        o["name"] = draw(st.sampled_from(["n1", "other name", "ü"]))
    return o


@st.composite
def change(draw, cfg):
    ch: dict = {}
    for _ in range(draw(st.integers(1, 2))):
        f = draw(st.sampled_from(["next", "next", "trig", "grace", "coalesce", "maxi", "exec", "name", "tag"]))
        ch[f] = {
            "next": st.none() | offset,
            "trig": trig(),
            "grace": st.sampled_from([None, 1, 5, 0.5, 0, -1, "x"]),
            "coalesce": st.booleans(),
            "maxi": st.sampled_from([1, 2, 4, 0, "2"]),
            "exec": st.sampled_from(["default", "x", "inline", 5]),
            "name": st.sampled_from(["n2", "n3"]),
            "tag": st.integers(1000, 1010),
        }[f].filter(lambda v: True)
        ch[f] = draw(ch[f])
    return ch


@st.composite
def an_op(draw, cfg, weights, known=()):
    names = [k for k, n in weights.items() for _ in range(n)]
    k = draw(st.sampled_from(names))
    if k == "add":
        return draw(add_op(cfg))
    o: dict = {"op": k}
    if k in ("adv", "jump"):
        o["dt"] = draw(delta)
    elif k == "start":
        o["paused"] = draw(st.integers(0, 3)) == 3
    elif k == "redeco":
        o["n"] = draw(st.integers(0, 3))
        o["fn"] = draw(st.sampled_from(DECORATED))
    elif k == "fin":
        o["n"] = draw(st.integers(0, 5))
    elif k == "clear":
        o["store"] = draw(st.sampled_from([None, "default", "disk", "nowhere"]))
    elif k in ("upd", "resched", "tpause", "tresume", "run", "del", "get"):
        ids = IDS if not cfg.get("disk") or cfg.get("same_ids") else IDS + [i + "2" for i in IDS]
        if known and draw(st.integers(0, 4)):
            o["id"], store = draw(st.sampled_from(list(known)))
            o["store"] = draw(st.sampled_from([None, None, store]))
        else:
            o["id"] = draw(st.sampled_from(ids))
            o["store"] = draw(st.sampled_from([None, None, None, "default", "disk"]))
        if draw(st.integers(0, 4)) == 4:
            o["obj"] = True
        if cfg.get("decos") and k not in ("run", "get") and draw(st.integers(0, 3)) == 3:
            o["own"] = True
        if k == "upd":
            o["ch"] = draw(change(cfg))
        elif k == "resched":
            o["trig"] = draw(trig())
            o["alias"] = draw(st.booleans())
        elif k == "run":
            o["force"] = draw(st.sampled_from([True, True, False]))
            o["keep"] = draw(st.sampled_from([False, False, True]))
    return o


@st.composite
def config(draw, driver=("manual",), disks=(None, None, "file", "sql"), **extra):
    c: dict = {"driver": draw(st.sampled_from(driver)), "disk": draw(st.sampled_from(disks))}
    d: dict = {}
    if draw(st.booleans()):
        d["coalesce"] = draw(st.booleans())
    if draw(st.booleans()):
        d["max_instances"] = draw(st.sampled_from([1, 2, 3]))
    if draw(st.booleans()):
        d["mistrigger_grace_time"] = draw(st.sampled_from([1, 2.5, 30, None]))
    c["defaults"] = d
    c.update(extra)
    return c


@st.composite
def history(draw, weights, n=(4, 14), prelude=3, start=True, **cfgkw):
    cfg = draw(config(**cfgkw))
    ops: list = [draw(add_op(cfg)) for _ in range(draw(st.integers(0, prelude)))]
    if start:
        ops.append({"op": "start", "paused": draw(st.integers(0, 9)) == 9})
    for _ in range(draw(st.integers(*n))):
        known = [(o["id"], o["store"] or "default") for o in ops if o["op"] == "add" and o["id"]]
        ops.append(draw(an_op(cfg, weights, known)))
        if ops[-1]["op"] == "pause" and draw(st.booleans()):
            ops += [draw(an_op(cfg, weights, known)), {"op": "resume"}]
    return {"cfg": cfg, "ops": ops}


def play(case: dict, cls: Any = World) -> World:
    w = cls(case["cfg"])
    w._mi = collections.defaultdict(list)
    try:
        for op in case["ops"]:
            w.apply(op)
    finally:
        w.close()
    return w
