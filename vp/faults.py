"""World with faults: stores, executors, listeners, triggers and task bodies that fail or meddle.

The scheduler's rounds are counted (process_tasks is wrapped on the instance) and the model takes one
step per real round; what the model then says about the next due run is what the wake-up is held against.
"""

from __future__ import annotations

import contextlib
import threading
from typing import Any, Optional

from hypothesis import strategies as st

from vp import targets
from vp import tz as TZ
from vp import clock
from vp import world as W
from vp.runner import Violation, check
from vp.world import SEC, MTask, Refused


class Stop(Exception):
    """The model cannot tell the order; the rest of the history is not judged."""


class Boom(BaseException):
    pass


ERRORS = {"os": OSError, "run": RuntimeError, "key": KeyError, "base": Boom}


class Shared:
    """A store's lock; others hold it while told so."""

    def __init__(self, plain: Any, others: Any) -> None:
        self.plain, self.others = plain, others

    @contextlib.contextmanager
    def protected(self, blocking: bool = False, timeout: Any = None) -> Any:
        if not blocking and self.others():
            yield False
            return
        with self.plain.protected(blocking=blocking, timeout=timeout) as got:
            yield got

    def shutdown(self) -> None:
        self.plain.shutdown()


def flaky_class(base: type, hook: Any, held: Any) -> type:
    def wrap(name: str) -> Any:
        plain = getattr(base, name)

        def method(self: Any, *a: Any, **kw: Any) -> Any:
            hook(name)
            return plain(self, *a, **kw)

        return method

    def create_lock(self: Any) -> Any:
        return Shared(base.create_lock(self), held)  # type: ignore[attr-defined]

    names = ("get_due_tasks", "get_next_run_time", "update_task", "delete_task", "lookup_task", "get_all_tasks")
    return type("Flaky" + base.__name__, (base,), {"create_lock": create_lock, **{n: wrap(n) for n in names}})


class FaultWorld(W.World):
    def _build(self) -> None:
        from asyncz.stores.memory import MemoryStore

        self.broken: dict = {}
        self.faulty = False  # faults are active only while the scheduler processes
        self.xbroken = False
        self.taint = False
        self.rounds = 0
        self.store_retry: dict = {}
        self.flaky_tags: set = set()
        self.retry_s = self.cfg.get("retry", 10)
        self.errors_due: list = []
        targets.WORLD = self
        targets.TRIGGERS_BROKEN = False
        self.flaky = self.cfg.get("flaky")
        self._flaky_mem = MemoryStore() if self.flaky == "mem" else None
        self.noise: list = []
        super()._build()
        s = self.s
        if self.flaky:
            store = self._flaky_mem if self.flaky == "mem" else self.stores["disk"]
            self.flaky_alias = "flaky" if self.flaky == "mem" else "disk"
            store.__class__ = flaky_class(type(store), self.on_store, lambda: self.faulty and "lock" in self.broken)
        if "flaky" in self.stores:
            self.mem.append("flaky")
        plain = s.process_tasks

        def process_tasks() -> Any:
            self.rounds += 1
            self.faulty = True
            try:
                return plain()
            finally:
                self.faulty = False

        s.process_tasks = process_tasks
        self.events2: list = []
        for kind in self.cfg.get("noise") or []:
            s.add_listener(lambda e, k=kind: self.noisy(k))
        s.add_listener(lambda e: self.events2.append(self.event_view(e)))

    def extra_stores(self) -> dict:
        return {"flaky": self._flaky_mem} if self._flaky_mem is not None else {}

    def make_config(self, config: dict) -> dict:
        config["store_retry_interval"] = self.retry_s
        return config

    def noisy(self, kind: str) -> None:
        raise ERRORS[kind]("listener")

    # ---- faults at the seams

    def on_store(self, name: str) -> None:
        if self.faulty and name in self.broken:
            if name in ("update_task", "delete_task"):
                self.taint = True
            raise ERRORS[self.broken[name]]("store")

    def on_send(self, alias: str, task: Any, times: list) -> None:
        if alias == "x" and self.xbroken:
            raise RuntimeError("executor")
        super().on_send(alias, task, times)

    def on_event(self, e: Any) -> None:
        was, self.faulty = self.faulty, False
        try:
            super().on_event(e)
        except Violation as v:
            self.errors_due.append(v)  # listeners' errors are swallowed
        finally:
            self.faulty = was

    def act(self, op: dict) -> str:
        """An operation by a task body."""
        was, self.faulty = self.faulty, False
        try:
            getattr(self, "do_" + op["op"])(op)
            return "ok"
        except Exception as exc:
            return W.kind_of(exc)
        finally:
            self.faulty = was

    # ---- operations

    def m_insert(self, t: MTask, *a: Any) -> None:
        if self.flaky and t.store == self.flaky_alias:
            self.flaky_tags.add(t.tag)
        super().m_insert(t, *a)

    def apply(self, op: dict) -> Any:
        if self.taint and op.get("id", "")[:1] == self.flaky_alias[0]:
            return None
        if targets.TRIGGERS_BROKEN:
            if op["op"] == "add" and op["trig"].get("brk"):
                return None
            if op.get("id") and any(getattr(t.trig, "brk", False) for ts in self.held.values() for t in ts.values() if t.id == op["id"]):
                return None
        return super().apply(op)

    def do_break(self, op: dict) -> None:
        self.broken = dict(op["what"])

    def model_break(self, op: dict, real: Any) -> None: ...

    def do_mend(self, op: dict) -> None:
        self.broken = {}

    def model_mend(self, op: dict, real: Any) -> None:
        if self.taint:
            self.resync()

    def do_xbreak(self, op: dict) -> None:
        self.xbroken = op["on"]

    def model_xbreak(self, op: dict, real: Any) -> None: ...

    def do_tbreak(self, op: dict) -> None:
        targets.TRIGGERS_BROKEN = op["on"]

    def model_tbreak(self, op: dict, real: Any) -> None: ...

    def resync(self) -> None:
        """A store whose changes failed halfway may hold either version; nothing may be lost."""
        alias = self.flaky_alias
        real = {t.id: W.real_view(t) for t in self.s.get_tasks(alias)}
        model = self.held.get(alias, {})
        for tid, t in list(model.items()):
            if tid in real:
                t.next = real[tid]["next"]
                check(real[tid] == t.view(), lambda: f"{self.what}: after the store failed task {tid!r}: {W.diff(real[tid], t.view())}")
            else:
                endless = t.trig.k in ("interval", "cron") and t.trig.end is None
                check(not endless, lambda: f"{self.what}: task {tid!r} was lost while its store failed")
                del model[tid]
        check(set(real) == set(model), lambda: f"{self.what}: tasks came back after the store failed: {sorted(set(real) - set(model))}")
        self.taint = False

    # ---- model of rounds

    def model_settle(self) -> None:
        while self.rounds:
            self.rounds -= 1
            self.model_round()
        n = self.model_next()
        check(n is None or n > self.now, lambda: f"{self.what}: a run is due at +{((n or 0) - W.T0) / SEC}s and the scheduler does not look")

    def op_round(self, op: dict) -> None:
        if self.loop is not None:
            return super().op_round(op)
        if self.state == "stopped":
            return
        woken = self.s.woken
        wait = self.s.process_tasks()
        self.rounds = 0
        self.model_round()
        if self.s.woken != woken:  # it is told to look again
            return
        nxt = self.model_next()
        if self.state == "paused":
            check(wait is None, lambda: f"{self.what}: waits {wait} with nothing to run")
        elif nxt is not None:
            check(wait is not None, lambda: f"{self.what}: waits without limit, next run at {W.sec(nxt)}")
            check(wait >= 0 and round(wait * SEC) <= max(nxt - self.now, 0), lambda: f"{self.what}: waits {wait}s, next run in {(nxt - self.now) / SEC}s")
        elif not self.taint:
            check(wait is None, lambda: f"{self.what}: waits {wait} with nothing to run")

    def due_at(self, t: MTask) -> int:
        return max(t.next, getattr(t, "retry_at", None) or t.next)

    def model_next(self) -> Optional[int]:
        if self.state != "running":
            return None
        out = []
        for a, ts in self.held.items():
            if self.taint and a == self.flaky_alias and not self.really_due(a):
                continue  # what it still holds is not known to the model
            if a in self.store_retry:
                out.append(self.store_retry[a])
            elif not (self.taint and a == self.flaky_alias):
                out += [self.due_at(t) for t in ts.values() if t.next is not None]
        return min(out, default=None)

    def really_due(self, alias: str) -> bool:
        return any(t.next_run_time is not None and TZ.us(t.next_run_time) <= self.now for t in self.s.get_tasks(alias))

    def round_of(self, alias: str, held: dict, late: list) -> None:
        if self.flaky and alias == self.flaky_alias:
            if self.taint:
                self.store_retry[alias] = self.now + self.retry_s * SEC
                self.stats["taintround"] += 1
                return
            if "get_due_tasks" in self.broken or "lock" in self.broken:
                self.store_retry[alias] = self.now + self.retry_s * SEC
                self.stats["storefail"] += 1
                return
            if "get_next_run_time" in self.broken:
                self.store_retry[alias] = self.now + self.retry_s * SEC
            else:
                self.store_retry.pop(alias, None)
        due = [t for t in held.values() if t.next is not None and t.next <= self.now]
        nexts = [t.next for t in due]
        if len(set(nexts)) < len(nexts) and any(t.act for t in due):
            raise Stop
        for t in due:
            t.retry_at = None
        super().round_of(alias, held, late)

    def fails(self, t: MTask) -> bool:
        if targets.TRIGGERS_BROKEN and t.trig.brk:
            t.retry_at = self.now + self.retry_s * SEC
            self.stats["trigfail"] += 1
            return True
        return False

    def body(self, t: MTask, x: int) -> None:
        if t.fn == "failing":
            self.m_calls.append(t.tag)
            kind = {"value": "ValueError", "odd": "OddError", "exit": "SystemExit", "stop": "StopIteration", "assert": "AssertionError"}[t.act or "value"]
            self.ev(W.E_ERROR, t.id, t.store, times=[x], return_value=None, exc=kind)
            self.stats["failed"] += 1
            return
        if t.fn == "acting" and t.act is not None:
            op, tag = t.act, t.tag
            self.m_calls.append(tag)
            try:
                getattr(self, "model_" + op["op"])(op, None)
                kind = "ok"
            except Refused as r:
                kind = r.kind
            self.m_calls.append((tag, kind))
            self.stats["acted"] += 1
            self.stats["act:" + op["op"] + ":" + kind] += 1
            self.ev(W.E_EXECUTED, t.id, t.store, times=[x], return_value=tag, exc=None)
            return
        super().body(t, x)

    def submit(self, t: MTask, times: list, source: str, omitted: int, late: list) -> bool:
        if t.exec == "x" and self.xbroken and len(self._mi[(t.store, t.id)]) < t.maxi:
            self.stats["xfail"] += 1
            if source == "manual":
                raise Refused("RuntimeError")
            return False
        return super().submit(t, times, source, omitted, late)

    # ---- comparing

    def compare(self) -> None:
        if self.errors_due:
            raise self.errors_due[0]
        if self.taint:
            # nothing is said about the failing store while it fails
            a = self.flaky_alias
            self.flaky_tags.update(t.tag for t in self.held.get(a, {}).values())
            self.sent = [x for x in self.sent if x[1] != a]
            self.m_sent = [x for x in self.m_sent if x[1] != a]
            self.events = [e for e in self.events if e.get("store") != a]
            self.m_events = [e for e in self.m_events if e.get("store") != a]
            targets.CALLS[:] = [c for c in targets.CALLS if c not in self.flaky_tags]
            self.m_calls = [c for c in self.m_calls if c not in self.flaky_tags]
            self.events2.clear()
        else:
            key = lambda es: [(e["code"], e.get("task_id"), e.get("store"), e.get("times")) for e in es]  # noqa: E731
            # nested announcements reach later listeners first
            check(sorted(key(self.events2), key=repr) == sorted(key(self.events), key=repr), lambda: f"{self.what}: a listener after a failing one saw {W.nice(self.events2)}, the one before {W.nice(self.events)}")
            self.events2.clear()
        super().compare()
        if self.stats["round"] % 3 == 0:
            self.locks()

    def compare_tasks(self) -> None:
        if self.taint:
            held, self.held = self.held, {k: v for k, v in self.held.items() if k != self.flaky_alias}
            get = self.s.get_tasks
            try:
                self.s.get_tasks = lambda: [t for t in get() if t.store_alias != self.flaky_alias]
                super().compare_tasks()
            finally:
                del self.s.get_tasks
                self.held = held
            return
        super().compare_tasks()

    def locks(self) -> None:
        """Somebody else can still work with the scheduler."""
        out: list = []

        def other() -> None:
            try:
                for l in (self.s.store_lock, self.s.executor_lock, self.s.listeners_lock):
                    if not l.acquire(timeout=5):
                        out.append("a lock of the scheduler is still held")
                        return
                    l.release()
                with self.s.store_processing_lock.protected(blocking=False) as ok:
                    if not ok:
                        out.append("the processing lock is still held")
            except BaseException as exc:
                out.append(repr(exc))

        th = threading.Thread(target=other)
        th.start()
        th.join()
        check(not out, lambda: f"{self.what}: {out[0]}")

    def close(self) -> None:
        targets.WORLD = None
        targets.TRIGGERS_BROKEN = False
        super().close()


# ------------------------------------------------------------------ generators

PRE = {"default": "m", "disk": "d", "flaky": "f"}
PHASE = 1000  # every task has its own phase (in microseconds), so that due tasks are ordered


@st.composite
def fadd(draw, cfg, weights, i, stores):
    o: dict = {"op": "add", "via": draw(st.sampled_from(["fn", "alias", "fn"]))}
    o["store"] = draw(st.sampled_from(stores))
    o["id"] = f"{PRE[o['store']]}{draw(st.integers(0, 3))}"
    k = draw(st.sampled_from(["interval", "interval", "interval", "date"]))
    t: dict = {"k": k, "start": draw(st.integers(-3, 15)) * SEC + i * PHASE}
    if k == "interval":
        if weights.get("brk") and draw(st.integers(0, 2)) == 2:
            t["brk"] = True
            o["via"] = "fn"
        t["every"] = draw(st.sampled_from([1, 2, 3, 5, 10]))
        t["end"] = draw(st.sampled_from([None, None, None, 6 * SEC]))
    o["trig"] = t
    for f, vals in (("grace", [None, None, 1]), ("coalesce", [True, False]), ("maxi", [1, 2, 3])):
        o[f] = draw(st.sampled_from(vals))
    fn = draw(st.sampled_from(weights["bodies"]))
    o["exec"] = "inline" if fn != "tagged" else draw(st.sampled_from(["default", "x", "x", "inline", "ghost" if weights.get("ghost") and draw(st.integers(0, 3)) == 3 else "inline"]))
    if o["exec"] in ("default", "x"):
        o["maxi"] = 1_000_000
    if fn != "tagged":
        o["fn"] = fn
    if fn == "failing":
        o["act"] = draw(st.sampled_from(["value", "odd", "exit", "assert", "stop"]))
    elif fn == "acting":
        o["act"] = draw(act_op(stores, i))
        if "tag" in o["act"].get("ch", ()):
            o["coalesce"] = True  # whether a later run of the same batch sees new arguments is not specified
    if draw(st.integers(0, 4)) == 4:
        o["replace"] = True
    return o


@st.composite
def act_op(draw, stores, i):
    k = draw(st.sampled_from(["del", "del", "tpause", "resched", "upd", "tresume", "clear", "add", "run", "pause"]))
    o: dict = {"op": k}
    store = draw(st.sampled_from(stores))
    if k in ("del", "tpause", "resched", "upd", "tresume", "run"):
        o["id"] = f"{PRE[store]}{draw(st.integers(0, 3))}"
        o["store"] = draw(st.sampled_from([None, store]))
    trig = {"k": "interval", "start": draw(st.integers(-3, 15)) * SEC + 300 * PHASE + i * PHASE, "every": draw(st.sampled_from([2, 4])), "end": None}
    if k == "clear":
        o["store"] = store
    elif k == "upd":
        o["ch"] = draw(st.sampled_from([{"tag": 2000 + i}, {"next": None}, {"next": draw(st.integers(0, 20)) * SEC + 500 * PHASE + i * PHASE}]))
    elif k == "resched":
        o["trig"], o["alias"] = trig, False
    elif k == "add":
        o.update(id=f"{PRE[store]}{draw(st.integers(0, 3))}", via="fn", store=store, trig=trig, tag=3000 + i, replace=draw(st.booleans()), exec="inline")
    elif k == "run":
        o["force"] = draw(st.booleans())
    return o


@st.composite
def history(draw, weights, n=(6, 16), driver=("loop", "manual")):
    flaky = draw(st.sampled_from(weights["flaky"]))
    cfg: dict = {
        "driver": draw(st.sampled_from(driver)),
        "disk": draw(st.sampled_from(["file", "sql"])) if flaky == "disk" else draw(st.sampled_from([None, None, "file"])),
        "flaky": flaky,
        "noise": draw(st.lists(st.sampled_from(["os", "run", "base"]), max_size=2)) if weights.get("noise") else [],
        "retry": draw(st.sampled_from([1, 5, 10, 60])),
        "defaults": {},
    }
    stores = ["default"] + (["disk"] * 2 if cfg["disk"] else []) + (["flaky"] * 2 if flaky == "mem" else [])
    i = 0
    ops: list = []
    for _ in range(draw(st.integers(2, 5))):
        i += 1
        ops.append(draw(fadd(cfg, weights, i, stores)))
    ops.append({"op": "start", "paused": False})
    names = [k for k, m in weights["ops"].items() for _ in range(m)]
    for _ in range(draw(st.integers(*n))):
        k = draw(st.sampled_from(names))
        if k == "add":
            i += 1
            ops.append(draw(fadd(cfg, weights, i, stores)))
        elif k in ("adv", "jump"):
            ops.append({"op": k, "dt": draw(st.sampled_from([1, 2, 3, 5, 10, 20])) * SEC + draw(st.sampled_from([0, 0, 500_000, 10]))})
            if cfg["driver"] == "manual":
                ops.append({"op": "round"})
        elif k == "break" and flaky:
            what = draw(st.lists(st.sampled_from(["get_due_tasks", "get_due_tasks", "lock", "get_next_run_time"] + (["update_task", "delete_task"] if flaky == "disk" else [])), min_size=1, max_size=2, unique=True))
            ops.append({"op": "break", "what": {m: draw(st.sampled_from(["os", "run", "key"])) for m in what}})
            ops += [{"op": "adv", "dt": draw(st.sampled_from([2, 5, 11])) * SEC}, {"op": "round"}]
            if draw(st.booleans()):
                ops.append({"op": "mend"})
        elif k == "mend" and flaky:
            ops.append({"op": "mend"})
        elif k == "tbreak":
            ops.append({"op": "tbreak", "on": draw(st.sampled_from([True, True, False]))})
        elif k == "xbreak":
            ops.append({"op": "xbreak", "on": draw(st.sampled_from([True, True, False]))})
        elif k in ("upd", "resched", "tpause", "tresume", "run", "del"):
            known = [(o["id"], o["store"]) for o in ops if o["op"] == "add"]
            tid, store = draw(st.sampled_from(known))
            o = {"op": k, "id": tid, "store": store}
            i += 1
            if k == "upd":
                o["ch"] = draw(st.sampled_from([{"tag": 1000 + i}, {"next": draw(st.integers(0, 20)) * SEC + i * PHASE}]))
            elif k == "resched":
                o["trig"] = {"k": "interval", "start": draw(st.integers(-3, 15)) * SEC + i * PHASE, "every": draw(st.sampled_from([1, 3])), "end": None}
                o["alias"] = False
            elif k == "run":
                o["force"] = draw(st.booleans())
            ops.append(o)
        elif k in ("pause", "resume", "round"):
            ops.append({"op": k})
    if weights.get("brk"):
        ops.append({"op": "tbreak", "on": False})
    if flaky or weights.get("brk"):
        ops += [{"op": "mend"}, {"op": "adv", "dt": cfg["retry"] * SEC + 2 * SEC}, {"op": "round"}]
    return {"cfg": cfg, "ops": ops}


def play(case: dict) -> FaultWorld:
    import collections

    w = FaultWorld(case["cfg"])
    w._mi = collections.defaultdict(list)
    try:
        for op in case["ops"]:
            w.apply(op)
    except Stop:
        w.stats["stopped"] += 1
    finally:
        w.close()
    return w
