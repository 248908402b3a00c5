"""P22: executors run each submitted run once, report it once, and keep count."""

from __future__ import annotations

import os
import shutil
import sys
import tempfile
import threading
import time
from collections import Counter
from contextlib import contextmanager
from datetime import datetime, timedelta, timezone
from typing import Any

from hypothesis import strategies as st

from vp import sched
from vp.runner import Outcome, Part, check

PROPERTY = "P22"
RULE = (
    "pool: up to three tasks (limits 1-3, grace times, functions that return, raise, call sys.exit or are coroutine functions) on a real "
    "thread pool of 1-10 workers, asyncio executor (own loop in a thread) or inline executor; a history of submissions of one or several run "
    "times (missed, due, future), one by one or from several threads at once, through the executor or Scheduler.run_task, with every call "
    "held at a gate that the history opens call by call. Whether a submission must be accepted, must be refused, or may be either follows "
    "from the gates and the outcome events seen. At the end calls, their arguments, outcome events per run time and their order, and the "
    "full availability of every limit are compared. process: the same on a real process pool, whose workers may also die or return what "
    "cannot be sent back. end: pools are shut down or removed, waiting or not, with queued runs cancelled or not, while runs are held and queued: who waits, what is cancelled, and that each "
    "run still ends in one true outcome. Non-trivial: two submissions, and one refused or one submitted while another run was held; end: runs were queued, or left behind."
)

WAIT = 30.0
UTC = timezone.utc
KINDS = {"missed": -5000, "due": -2, "future": 3600}


class Boom(Exception):
    pass


class Odd(BaseException):
    pass


class Unsent(Exception):
    """Cannot be rebuilt in the other process."""

    def __init__(self, a: int, b: int) -> None:
        super().__init__("x")


# ---- the functions run; gates are semaphores in this process, files for worker processes


class Lab:
    def __init__(self) -> None:
        self.lock = threading.Lock()
        self.gates: dict = {}
        self.calls: Counter = Counter()
        self.inside: Counter = Counter()
        self.peak: Counter = Counter()
        self.nth: Counter = Counter()


LAB = Lab()


def finish(body: str, tag: int, args: tuple, kw: dict) -> Any:
    if body == "exc":
        raise Boom(tag)
    if body == "exit":
        sys.exit(tag)
    if body == "odd":
        raise Odd(tag)
    if body == "die":
        os._exit(1)
    if body == "unsent":
        return lambda: tag
    if body == "unsentexc":
        raise Unsent(1, 2)
    return [tag, list(args), sorted(kw)]


def enter(tag: int, args: tuple, kw: dict) -> None:
    lab = LAB
    with lab.lock:
        lab.calls[(tag, args, tuple(sorted(kw.items())))] += 1
        lab.inside[tag] += 1
        lab.peak[tag] = max(lab.peak[tag], lab.inside[tag])


def leave(tag: int) -> None:
    with LAB.lock:
        LAB.inside[tag] -= 1


def plain(tag: int, body: str, *args: Any, **kw: Any) -> Any:
    enter(tag, args, kw)
    try:
        LAB.gates[tag].acquire(timeout=4 * WAIT)
        return finish(body, tag, args, kw)
    finally:
        leave(tag)


async def coro(tag: int, body: str, *args: Any, **kw: Any) -> Any:
    import asyncio

    enter(tag, args, kw)
    try:
        while not LAB.gates[tag].acquire(blocking=False):
            await asyncio.sleep(0.001)
        return finish(body, tag, args, kw)
    finally:
        leave(tag)


def remote(folder: str, tag: int, body: str, *args: Any, **kw: Any) -> Any:
    fd = os.open(os.path.join(folder, f"calls-{tag}"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, f"{list(args)!r} {sorted(kw.items())!r}\n".encode())
    os.close(fd)
    end = time.monotonic() + 4 * WAIT
    while time.monotonic() < end:
        for n in os.listdir(folder):
            if n.startswith(f"gate-{tag}-"):
                try:
                    os.rename(os.path.join(folder, n), os.path.join(folder, "used-" + n))
                except FileNotFoundError:
                    continue
                return finish(body, tag, args, kw)
        time.sleep(0.002)
    return None


# ---- one history


class Sub:
    def __init__(self, i: int, times: list, kinds: list) -> None:
        self.i, self.times, self.kinds = i, times, kinds
        self.ncalls = sum(k != "missed" for k in kinds)


class Bench:
    def __init__(self, c: dict) -> None:
        global LAB
        LAB = Lab()
        self.c = c
        self.kind = c["exec"]
        self.folder = tempfile.mkdtemp(prefix="p22.") if self.kind == "process" else None
        self.events: list = []
        self.cond = threading.Condition()
        self.subs: list[Sub] = []
        self.freed: Counter = Counter()  # gate openings per task
        self.held = self.refused = 0
        self.unique = 0
        self.ulock = threading.Lock()
        self.died = False
        self.start()

    def start(self) -> None:
        from asyncz.executors import AsyncIOExecutor, DebugExecutor, ThreadPoolExecutor
        from asyncz.executors.process_pool import ProcessPoolExecutor
        from asyncz.schedulers import AsyncIOScheduler

        c = self.c
        if self.kind == "asyncio":
            self.ex: Any = AsyncIOExecutor()
            self.s = AsyncIOScheduler(isolated_event_loop=True, timezone="UTC", executors={"default": self.ex})
        else:
            self.ex = {
                "thread": lambda: ThreadPoolExecutor(max_workers=c["workers"]),
                "inline": lambda: DebugExecutor(),
                "process": lambda: ProcessPoolExecutor(max_workers=c["workers"]),
            }[self.kind]()
            self.s = sched.manual(executors={"default": self.ex})
        from asyncz.events import constants as K

        self.s.add_listener(self.listen, K.TASK_EXECUTED | K.TASK_ERROR | K.TASK_MISSED)
        self.s.start(paused=c.get("paused", False))
        self.tasks = []
        for i, t in enumerate(c["tasks"]):
            LAB.gates[i] = threading.Semaphore(0)
            fn = coro if t.get("coro") and self.kind == "asyncio" else plain
            args = [i, t["body"], *t["args"]]
            if self.folder:
                fn, args = remote, [self.folder, *args]
            kw = {k: 1 for k in t["kw"]}
            far = datetime.now(UTC) + timedelta(days=300)
            self.tasks.append(
                self.s.add_task(fn, trigger="interval", days=1000, args=args, kwargs=kw, id=f"t{i}", max_instances=t["max"], mistrigger_grace_time=t["grace"], next_run_time=far)
            )

    def listen(self, event: Any) -> None:
        with self.cond:
            self.events.append(event)
            self.cond.notify_all()

    def stop(self) -> None:
        for i in range(len(self.c["tasks"])):
            self.free(i, 1000 if not self.folder else 20)
        try:
            loop_thread = getattr(self.s, "event_loop_thread", None)
            self.s.shutdown(wait=True)
            if loop_thread is not None:
                loop_thread.join(WAIT)
        finally:
            if self.folder:
                shutil.rmtree(self.folder)

    # gates

    def free(self, i: int, n: int) -> None:
        if self.folder:
            for _ in range(n):
                self.unique += 1
                open(os.path.join(self.folder, f"gate-{i}-{self.unique}"), "w").close()
        else:
            for _ in range(n):
                LAB.gates[i].release()
        self.freed[i] += n

    # knowledge about runs in flight

    def n_events(self, sub: Sub) -> int:
        times = set(sub.times)
        return sum(1 for e in list(self.events) if e.task_id == f"t{sub.i}" and e.scheduled_run_time in times)

    def bounds(self, i: int) -> tuple[int, int]:
        """How many submissions of task i are in flight: at least, at most."""
        mine = [x for x in self.subs if x.i == i]
        most = sum(self.n_events(x) < len(x.times) for x in mine)
        return self.least(i, mine), most

    def least(self, i: int, subs: list) -> int:
        if self.lossy:
            return 0  # a dying worker ends other runs as well
        budget, least = self.freed[i], 0
        for n in sorted(x.ncalls for x in subs):
            if n > budget:
                least += 1
            else:
                budget -= n
        return least

    # submissions

    def times(self, kinds: list, grace: Any) -> list:
        out = []
        for k in kinds:
            with self.ulock:
                self.unique += 1
                u = self.unique
            out.append(datetime.now(UTC) + timedelta(seconds=KINDS[k], microseconds=u))
        return out

    def send(self, i: int, kinds: list, how: str) -> tuple[str, Sub]:
        from asyncz.exceptions import MaximumInstancesError

        t = self.c["tasks"][i]
        kinds = ["due"] if t["body"] == "odd" else [k if k != "missed" or t["grace"] is not None else "due" for k in kinds]
        if how == "run":
            seen: list = []
            from asyncz.events import constants as K

            me = threading.get_ident()

            def note(e: Any) -> None:
                if threading.get_ident() == me and e.task_id == f"t{i}":
                    seen.append((e.code, list(e.scheduled_run_times)))

            self.s.add_listener(note, K.TASK_SUBMITTED | K.TASK_MAX_INSTANCES)
            try:
                self.s.run_task(f"t{i}")
                got = "ok"
            except MaximumInstancesError:
                got = "full"
            finally:
                self.s.remove_listener(note)
            check([x[0] for x in seen] == [K.TASK_SUBMITTED if got == "ok" else K.TASK_MAX_INSTANCES], lambda: f"run_task announced {seen} for {got}")
            return got, Sub(i, seen[0][1], ["due"])
        sub = Sub(i, self.times(kinds, t["grace"]), kinds)
        try:
            if self.kind == "asyncio":
                # submissions come from the loop, as the scheduler makes them
                done = threading.Event()
                res: list = []

                def go() -> None:
                    try:
                        res.append(self.ex.send_task(self.tasks[i], sub.times))
                    except BaseException as e:
                        res.append(e)
                    done.set()

                self.s.event_loop.call_soon_threadsafe(go)
                check(done.wait(WAIT), "the loop did not accept a submission")
                if isinstance(res[0], BaseException):
                    raise res[0]
            else:
                self.ex.send_task(self.tasks[i], sub.times)
            return "ok", sub
        except MaximumInstancesError:
            return "full", sub

    def submit(self, i: int, kinds: list, how: str) -> None:
        limit = self.c["tasks"][i]["max"]
        if self.kind == "inline":
            self.free(i, len(kinds))  # runs here and now
        least, most = self.bounds(i)
        got, sub = self.send(i, kinds, how)
        if got == "ok":
            check(least < limit, lambda: f"submission {len(self.subs) + 1} of task {i} accepted with {least} of {limit} runs in flight")
            self.held += any(self.bounds(j)[0] for j in range(len(self.tasks)))
            self.subs.append(sub)
        else:
            # nothing was accepted meanwhile, runs can only have ended
            check(most >= limit, lambda: f"submission {len(self.subs) + 1} of task {i} refused with at most {most} of {limit} runs in flight")
            self.refused += 1
            if how != "run":
                check(self.n_events(sub) == 0, "a refused submission has an outcome")

    def burst(self, items: list, how: str) -> None:
        """Submissions from several threads at once."""
        start = threading.Barrier(len(items))
        out: list = []
        errs: list = []

        def go(i: int, kinds: list) -> None:
            try:
                start.wait()
                out.append(self.send(i, kinds, how))
            except BaseException as e:  # noqa: BLE001
                errs.append(e)

        before = {i: self.bounds(i) for i, _ in items}
        ths = [threading.Thread(target=go, args=x, daemon=True) for x in items]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for t in ths:
                t.start()
            for t in ths:
                t.join(WAIT)
        finally:
            sys.setswitchinterval(old)
        check(not any(t.is_alive() for t in ths), "a submission did not return")
        if errs:
            raise errs[0]
        for i in {i for i, _ in items}:
            limit = self.c["tasks"][i]["max"]
            least, most = before[i]
            ok = [x for g, x in out if g == "ok" and x.i == i]
            n = sum(x[0] == i for x in items)
            # the last one accepted found fewer than the limit in flight
            mine = [x for x in self.subs if x.i == i]
            found = min((self.least(i, mine + [y for y in ok if y is not x]) for x in ok), default=0)
            check(found < limit, lambda: f"{len(ok)} submissions of task {i} at once accepted with {least} of {limit} in flight")
            check(len(ok) >= min(n, limit - most), lambda: f"only {len(ok)} of {n} submissions of task {i} at once accepted with at most {most} of {limit} in flight")
            self.subs += ok
            self.refused += n - len(ok)
            self.held += len(ok) >= 2

    def settle(self) -> None:
        """Open all gates, wait for all outcomes."""
        for i in range(len(self.tasks)):
            want = sum(x.ncalls for x in self.subs if x.i == i)
            if want > self.freed[i]:
                self.free(i, want - self.freed[i])
        end = time.monotonic() + WAIT
        with self.cond:
            while True:
                left = [x for x in self.subs if self.n_events(x) < len(x.times)]
                if not left:
                    break
                if not self.cond.wait(max(0.0, end - time.monotonic())) and time.monotonic() > end:
                    x = left[0]
                    check(False, lambda: f"no outcome for {len(x.times) - self.n_events(x)} of {len(x.times)} runs ({x.kinds}) of task {x.i} ({self.c['tasks'][x.i]}), calls so far {LAB.calls}")
        while self.s.instances and time.monotonic() < end:
            time.sleep(0.001)
        check(not self.s.instances, lambda: f"all runs are over, still counted as in flight: {dict(self.s.instances)}")

    def verify(self) -> None:
        from asyncz.events import constants as K

        names = {K.TASK_EXECUTED: "executed", K.TASK_ERROR: "error", K.TASK_MISSED: "missed"}
        events = list(self.events)
        used = 0
        for x in self.subs:
            t = self.c["tasks"][x.i]
            mine = [e for e in events if e.task_id == f"t{x.i}" and e.scheduled_run_time in set(x.times)]
            used += len(mine)
            what = lambda: f"{self.kind} task {x.i} {t} runs {x.kinds}: {[(names[e.code], str(e.scheduled_run_time), repr(e.exception), repr(e.return_value)) for e in mine]}"  # noqa: E731,B023
            check([e.scheduled_run_time for e in mine] == x.times, lambda: "outcomes not once each in order: " + what())  # noqa: B023
            lost = self.lossy and any(e.exception is not None and type(e.exception).__name__ == "BrokenProcessPool" for e in mine)
            for e, k in zip(mine, x.kinds):
                check(e.store == "default" and e.alias in (None, "default") if hasattr(e, "alias") else e.store == "default", lambda: "wrong store: " + what())  # noqa: B023
                if lost or t["body"] in ("unsent", "unsentexc", "die"):
                    check(e.code == K.TASK_ERROR and isinstance(e.exception, BaseException) or (k == "missed" and e.code == K.TASK_MISSED), lambda: "a lost run is not an error: " + what())  # noqa: B023
                elif k == "missed":
                    check(e.code == K.TASK_MISSED and e.exception is None and e.return_value is None, lambda: "late run not reported missed: " + what())  # noqa: B023
                elif t["body"] == "value":
                    args, kw = list(t["args"]), sorted(t["kw"])
                    check(e.code == K.TASK_EXECUTED and e.return_value == [x.i, args, kw] and e.exception is None, lambda: "wrong outcome: " + what())  # noqa: B023
                else:
                    kind = {"exc": Boom, "exit": SystemExit, "odd": Odd}[t["body"]]
                    check(
                        e.code == K.TASK_ERROR and type(e.exception) is kind and e.exception.args == (x.i,) and e.return_value is None and "finish" in (e.traceback or ""),
                        lambda: "wrong outcome: " + what(),  # noqa: B023
                    )
        check(used == len(events), lambda: f"{len(events) - used} outcome events without a submission")
        for i, t in enumerate(self.c["tasks"]):
            want = sum(x.ncalls for x in self.subs if x.i == i)
            key = (i, tuple(t["args"]), tuple((k, 1) for k in sorted(t["kw"])))
            if self.folder:
                p = os.path.join(self.folder, f"calls-{i}")
                lines = open(p).read().splitlines() if os.path.exists(p) else []
                line = f"{list(key[1])!r} {list(key[2])!r}"
                check(all(y == line for y in lines), lambda: f"task {i} called with {lines}, expected {line}")  # noqa: B023
                got = len(lines)
            else:
                got = sum(n for k, n in LAB.calls.items() if k[0] == i)
                check(LAB.calls[key] == got, lambda: f"task {i} called as {dict(LAB.calls)}, expected {key}")  # noqa: B023
            if self.lossy:
                check(got <= want, lambda: f"task {i} called {got} times for {want} runs")  # noqa: B023
            else:
                check(got == want, lambda: f"task {i} called {got} times for {want} runs")  # noqa: B023
            check(LAB.peak[i] <= t["max"], lambda: f"{LAB.peak[i]} runs of task {i} at once, allowed {t['max']}")  # noqa: B023

    @property
    def lossy(self) -> bool:
        return any(t["body"] in ("die", "unsent", "unsentexc") for t in self.c["tasks"])

    def refill(self) -> None:
        """The whole limit is available again, and no more."""
        for i, t in enumerate(self.c["tasks"]):
            if self.kind == "inline":
                continue
            spare = self.freed[i] - sum(x.ncalls for x in self.subs if x.i == i)
            if spare > 0 or (self.lossy and self.folder):
                continue  # these would run through
            for n in range(t["max"]):
                got, sub = self.send(i, ["due"], "send")
                check(got == "ok", lambda: f"run {n + 1} of {t['max']} of idle task {i} refused")  # noqa: B023
                self.subs.append(sub)
            got, sub = self.send(i, ["due"], "send")
            check(got == "full", lambda: f"run {t['max'] + 1} of task {i} accepted, limit {t['max']}")  # noqa: B023


def run(c: dict) -> Outcome:
    b = Bench(c)
    try:
        for op in c["ops"]:
            if op[0] == "sub":
                b.submit(op[1], op[2], op[3])
            elif op[0] == "free":
                if b.kind != "inline":
                    b.free(op[1], op[2])
            elif op[0] == "burst":
                if b.kind == "inline":
                    for i, kinds in op[1]:
                        b.free(i, len(kinds))
                b.burst([tuple(x) for x in op[1]], op[2])
            elif op[0] == "settle":
                b.settle()
        b.settle()
        b.refill()
        b.settle()
        b.verify()
    finally:
        b.stop()
    labels = [c["exec"], *{t["body"] for t in c["tasks"]}, *{o[0] for o in c["ops"]}] + (["refused"] if b.refused else []) + (["held"] if b.held else [])
    return Outcome(len(b.subs) >= 2 and bool(b.refused or b.held), labels)


@st.composite
def cases(draw, execs=("thread", "thread", "asyncio", "inline"), bodies=("value", "value", "exc", "exit")):
    kind = draw(st.sampled_from(execs))
    n = draw(st.integers(1, 3))
    tasks = [
        {
            "max": draw(st.integers(1, 3)),
            "body": draw(st.sampled_from(bodies)),
            "grace": draw(st.sampled_from([None, 100, 1000.5])),
            "args": draw(st.lists(st.integers(0, 3), max_size=2)),
            "kw": draw(st.lists(st.sampled_from(["k", "l"]), max_size=2, unique=True)),
            "coro": draw(st.booleans()),
        }
        for _ in range(n)
    ]
    if kind == "thread" and draw(st.integers(0, 7)) == 7:
        tasks[0]["body"] = "odd"
    which = st.integers(0, n - 1)
    times = st.lists(st.sampled_from(["due", "due", "missed", "future"]), min_size=1, max_size=3)
    ops: list = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["sub", "sub", "sub", "burst", "free", "free", "settle"]))
        if k == "sub":
            ops.append(["sub", draw(which), draw(times), draw(st.sampled_from(["send", "send", "run"]))])
        elif k == "burst":
            ops.append(["burst", draw(st.lists(st.tuples(which, times).map(list), min_size=2, max_size=5)), draw(st.sampled_from(["send", "send", "run"]))])
        elif k == "free":
            ops.append(["free", draw(which), draw(st.integers(1, 3))])
        else:
            ops.append(["settle"])
    return {"exec": kind, "workers": draw(st.sampled_from([1, 2, 10])), "tasks": tasks, "ops": ops, "paused": draw(st.booleans())}


def process():
    return cases(execs=("process",), bodies=("value", "value", "exc", "exit", "die", "unsent", "unsentexc"))


@contextmanager
def plain_process():
    import warnings

    warnings.simplefilter("ignore")
    yield


# ---- pools that end while runs are held or queued

ENDS = st.fixed_dictionaries(
    {
        "exec": st.sampled_from(["thread"] * 9 + ["process"]),
        "workers": st.integers(1, 3),
        "cancel": st.booleans(),
        "overwrite": st.sampled_from([None, None, True, False]),
        "wait": st.booleans(),
        "how": st.sampled_from(["shutdown", "shutdown", "remove"]),
        "runs": st.lists(st.sampled_from(["value", "value", "exc", "exit"]), min_size=1, max_size=7),
        "open": st.sampled_from([0, 0, 1, 2]),
    }
)  # fmt: skip


def run_end(c: dict) -> Outcome:
    global LAB
    from asyncz.events import constants as K
    from asyncz.executors import ThreadPoolExecutor
    from asyncz.executors.process_pool import ProcessPoolExecutor

    LAB = Lab()
    n = len(c["runs"])
    folder = tempfile.mkdtemp(prefix="p22.") if c["exec"] == "process" else None
    more = {} if c["overwrite"] is None else {"overwrite_wait": c["overwrite"]}
    ex: Any = (ProcessPoolExecutor if folder else ThreadPoolExecutor)(max_workers=c["workers"], cancel_futures=c["cancel"], **more)
    s = sched.manual(executors={"default": {"type": "debug"}, "pool": ex})
    events: list = []
    s.add_listener(events.append, K.TASK_EXECUTED | K.TASK_ERROR | K.TASK_MISSED)
    s.start(paused=True)
    opened: set = set()

    def go(i: int) -> None:
        if i in opened:
            return
        opened.add(i)
        if folder:
            open(os.path.join(folder, f"gate-{i}-0"), "w").close()
        else:
            LAB.gates[i].release()

    def calls(i: int) -> int:
        if not folder:
            with LAB.lock:
                return sum(k for x, k in LAB.calls.items() if x[0] == i)
        p = os.path.join(folder, f"calls-{i}")
        return len(open(p).read().splitlines()) if os.path.exists(p) else 0

    def until(what: Any, cond: Any) -> None:
        end = time.monotonic() + WAIT
        while not cond():
            check(time.monotonic() < end, what)
            time.sleep(0.0005)

    try:
        far = datetime.now(UTC) + timedelta(days=300)
        for i, body in enumerate(c["runs"]):
            LAB.gates[i] = threading.Semaphore(0)
            fn, args = (remote, [folder, i, body]) if folder else (plain, [i, body])
            t = s.add_task(fn, "interval", days=1000, args=args, id=f"t{i}", next_run_time=far, mistrigger_grace_time=None, executor="pool")
            ex.send_task(t, [datetime.now(UTC)])
        first = min(c["workers"], n)
        until(lambda: f"of {n} runs on {c['workers']} workers only {[calls(i) for i in range(n)]} start", lambda: sum(calls(i) for i in range(n)) >= first)
        for i in range(min(c["open"], n)):
            go(i)
        waits = (c["overwrite"] if c["overwrite"] is not None else c["wait"] if c["how"] == "shutdown" else True) is True
        after: list = []

        def down() -> None:
            if c["how"] == "shutdown":
                s.shutdown(wait=c["wait"])
            else:
                s.remove_executor("pool")
            after.append((sum(LAB.inside.values()), len(events)))

        th = threading.Thread(target=down, daemon=True)
        th.start()
        if not waits:
            th.join(WAIT)
            check(not th.is_alive(), f"ending a pool without waiting waits for its runs: {c}")
        queued = n - first
        if c["cancel"] and not folder and not c["open"]:
            until(lambda: f"{queued} queued runs were to be cancelled, reported are {events}", lambda: len(events) >= queued)
            check([calls(i) for i in range(n)] == [1] * first + [0] * queued, lambda: f"runs that were to be cancelled run: {LAB.calls}")
        for i in range(n):
            go(i)
        th.join(WAIT)
        check(not th.is_alive(), f"a pool does not end though its runs do: {c}")
        if waits:
            check(not after[0][0], lambda: f"the shutdown did not wait for {after[0][0]} runs")
        until(lambda: f"{n} runs, outcomes: {[(e.task_id, e.code, e.exception) for e in events]}", lambda: len(events) >= n)
        until(lambda: f"all runs are over, still counted as in flight: {dict(s.instances)}", lambda: not s.instances)
        dropped = 0
        for i, body in enumerate(c["runs"]):
            mine = [e for e in events if e.task_id == f"t{i}"]
            check(len(mine) == 1, lambda: f"run {i} has the outcomes {mine}")  # noqa: B023
            e = mine[0]
            got = calls(i)
            if not got and c["cancel"]:
                dropped += 1
                check(e.code == K.TASK_ERROR and isinstance(e.exception, BaseException), lambda: f"the cancelled run {i} is reported as {e}")  # noqa: B023
                continue
            check(got == 1, lambda: f"run {i} of {n} on {c['workers']} workers ran {got} times: {e.code} {e.exception!r}")  # noqa: B023
            if body == "value":
                check(e.code == K.TASK_EXECUTED and e.return_value == [i, [], []], lambda: f"run {i} is reported as {e.code} {e.return_value} {e.exception!r}")  # noqa: B023
            else:
                check(e.code == K.TASK_ERROR and type(e.exception) is {"exc": Boom, "exit": SystemExit}[body], lambda: f"run {i} ({body}) is reported as {e.code} {e.exception!r}")  # noqa: B023
        check(len(events) == n, lambda: f"{len(events)} outcomes of {n} runs")
        return Outcome(n > c["workers"] or not waits, [c["exec"], c["how"], "waits" if waits else "leaves", *(["cancelled"] if dropped else []), *(["queued"] if queued else [])])
    finally:
        for i in range(n):
            go(i)
        if s.running:
            s.shutdown(wait=True)
        if folder:
            ex.pool.shutdown(wait=True)
            shutil.rmtree(folder)


PARTS = [
    Part("end", lambda: ENDS, run_end, quick=400, thorough=12000, setup=plain_process),
    Part("pool", cases, run, quick=4000, thorough=100000, setup=plain_process),
    Part("process", process, run, quick=160, thorough=4000, setup=plain_process),
]
