"""P15: the scheduler never sleeps past the next due run."""

from __future__ import annotations

from typing import ClassVar

from hypothesis import strategies as st

from vp import backends, clock, faults, sched, targets
from vp import tz as TZ
from vp import world as W
from vp.runner import Outcome, Part, check

PROPERTY = "P15"
RULE = (
    "faulty: histories of tasks, time and changes on a scheduler with memory, file or SQLite stores one of which fails at times "
    "(reading due tasks, reading the next run time, writing), driven by the real asyncio timer on a virtual loop or round by round; "
    "after every operation the planned wake-up (or the value process_tasks returns) is held against the earliest next run the model "
    "knows, or the retry delay of the failed store. Non-trivial: at least two runs and one fault of the store. "
    "slow: bodies run in the round, listeners and a store which take their time; after every step of the loop the planned wake-up is held against "
    "the earliest next run of the tasks held; non-trivial: something took time in a round and a wake-up lay ahead. "
    "changes: histories without faults in which changes bring runs forward; non-trivial: at least two timer wake-ups and two such changes."
)

OPS = {"add": 3, "adv": 8, "jump": 2, "break": 3, "mend": 2, "upd": 2, "resched": 2, "tpause": 1, "tresume": 1, "run": 1, "del": 1, "pause": 1, "resume": 1, "round": 1}
CHANGES = {"add": 8, "adv": 14, "jump": 2, "upd": 4, "resched": 4, "tpause": 1, "tresume": 3, "run": 4, "del": 1, "pause": 1, "resume": 2, "fin": 3}


def faulty():
    return faults.history({"flaky": ["mem", "disk", "mem"], "bodies": ["tagged"], "ops": OPS}, n=(6, 14))


def run_faulty(c):
    w = faults.play(c)
    s = w.stats
    return Outcome(s["sub"] >= 2 and s["storefail"] + s["taintround"] >= 1, [k for k in ("storefail", "taintround", "timer") if s[k]] + [c["cfg"]["driver"]])


def changes():
    return W.history(CHANGES, n=(8, 18), prelude=3, driver=("loop",))


def run_changes(c):
    w = W.play(c)
    s = w.stats
    n = sum(s["ok:" + k] for k in ("add", "upd", "resched", "tresume", "run", "resume"))
    return Outcome(s["timer"] >= 2 and n >= 2, [k for k in ("timer", "sub", "ok:run", "ok:tresume", "ok:resume", "ok:resched") if s[k]])


_took = st.sampled_from([0, 0, 0.4, 1, 2.5, 8])
SLOW = st.fixed_dictionaries(
    {
        "tasks": st.lists(
            st.fixed_dictionaries(
                {
                    "every": st.sampled_from([1, 2, 5, 10, 10, 30, 60]),
                    "first": st.integers(0, 40),
                    "takes": _took,
                    "store": st.sampled_from(["default", "default", "other"]),
                    "cron": st.booleans(),
                    "coalesce": st.sampled_from([True, True, False]),
                }
            ),
            min_size=1,
            max_size=4,
        ),
        "store": _took,  # how long the other store takes to tell its due tasks and to write
        "listener": _took,
        "native": st.booleans(),
        "steps": st.integers(4, 16),
    }
)


def run_slow(c):
    from asyncz.events.constants import TASK_SUBMITTED
    from asyncz.executors.debug import DebugExecutor
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.stores.memory import MemoryStore
    from asyncz.triggers import CronTrigger, IntervalTrigger

    class Slow(MemoryStore):
        takes: ClassVar[float] = 0

        def get_due_tasks(self, now):
            clock.advance(Slow.takes)
            return super().get_due_tasks(now)

        def update_task(self, task):
            clock.advance(Slow.takes)
            return super().update_task(task)

    del targets.CALLS[:]
    clock.install()
    lasted = ahead = 0
    with clock.virtual(TZ.at(W.T0)):
        if c["native"]:
            loop = None
            s = sched.manual(timezone="UTC", stores={"default": MemoryStore(), "other": Slow()}, executors={"default": DebugExecutor()})
        else:
            loop = W.FakeLoop()
            s = AsyncIOScheduler(timezone="UTC", event_loop=loop, stores={"default": MemoryStore(), "other": Slow()}, executors={"default": DebugExecutor()})
        s.add_listener(lambda e: clock.advance(c["listener"]), TASK_SUBMITTED)
        for i, t in enumerate(c["tasks"]):
            start = TZ.at(W.T0 + t["first"] * W.SEC)
            trigger = CronTrigger(second=f"*/{t['every']}", start_at=start, timezone="UTC") if t["cron"] and t["every"] < 60 else IntervalTrigger(seconds=t["every"], start_at=start, timezone="UTC")
            s.add_task(targets.dawdle, trigger, args=[i, t["takes"]], id=str(i), store=t["store"], coalesce=t["coalesce"] or t["takes"] > 0, mistrigger_grace_time=None)
        s.start()
        for n in range(c["steps"]):
            Slow.takes = c["store"]
            before = TZ.us(clock.now())
            if loop is None:
                wait = s.process_tasks()
                planned = None if wait is None else TZ.us(clock.now()) + round(wait * W.SEC)
            else:
                ready = loop.ready.popleft() if loop.ready else None
                if ready is None:
                    ready = min((h for h in loop.timers if not h.dead), key=lambda h: h.at)
                    loop.timers.remove(ready)
                if not ready.dead:
                    ready.dead = True
                    ready.fn(*ready.args)
                planned = TZ.us(clock.now()) if any(not h.dead for h in loop.ready) else loop.deadline()
            now = TZ.us(clock.now())
            Slow.takes = 0
            due = min(TZ.us(t.next_run_time) for t in s.get_tasks() if t.next_run_time)
            lasted += now > before
            ahead += due > now
            check(planned is not None, lambda: f"step {n} at +{(now - W.T0) / W.SEC}s: a run is due at +{(due - W.T0) / W.SEC}s but no wake-up is planned")  # noqa: B023
            check(
                planned <= max(due, now),
                lambda: f"step {n}, from +{(before - W.T0) / W.SEC}s to +{(now - W.T0) / W.SEC}s: next run at +{(due - W.T0) / W.SEC}s, wake-up only at +{(planned - W.T0) / W.SEC}s",  # noqa: B023
            )
            clock.set_now(TZ.at(max(planned, now)))
        s.shutdown(False)
    return Outcome(lasted > 0 and ahead > 0, ["loop" if loop else "rounds"] + (["lasted"] if lasted else []))


PARTS = [
    Part("slow", lambda: SLOW, run_slow, quick=500, thorough=20000),
    Part("faulty", faulty, run_faulty, quick=2000, thorough=60000, setup=backends.session),
    Part("changes", changes, run_changes, quick=2000, thorough=60000, setup=backends.session),
]
