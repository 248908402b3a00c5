"""P23: schedulers sharing a store under a lock run each occurrence once."""

from __future__ import annotations

import contextlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
from collections import Counter
from typing import Any

from hypothesis import strategies as st

from vp import backends, clock, sched
from vp.runner import Outcome, Part, check

PROPERTY = "P23"
RULE = (
    "lock: two to four users (threads, and forked processes some of which are killed at a generated execution step) enter and leave "
    "sections of one lock (FileLockProtected on one path; one LockProtected or RLockProtected), blocking and not, leaving normally or with an exception, while lock objects are shut down "
    "at any time; recorded sections must never overlap, an attempt that no other attempt or section overlapped must succeed, and the "
    "lock must be free afterwards. Non-trivial: attempts of two users overlapped. "
    "schedulers: two to four forked processes, each with a scheduler of its own on one file, SQLite or Redis store and one lock path, "
    "process the due tasks at generated (virtual) times all at once, with generated pauses, shutdowns, restarts and kills inside the code; "
    "the submissions of all of them are compared with the schedules. Non-trivial: at least two of them processed a round with due tasks at once."
)

T0 = 1_800_000_000


class Stepper:
    """Counts execution steps inside the code under test; pauses or kills at given ones."""

    FILES = ("/asyncz/locks.py", "/asyncz/file_locking.py", "/asyncz/stores/", "/asyncz/schedulers/base.py")

    def __init__(self, pauses: list, kill: Any) -> None:
        self.n = 0
        self.pauses = {k: ms for k, ms in pauses}
        self.kill = kill
        self.on = False

    def trace(self, frame: Any, event: str, arg: Any) -> Any:
        f = frame.f_code.co_filename
        return self.local if any(x in f for x in self.FILES) else None

    def local(self, frame: Any, event: str, arg: Any) -> Any:
        if self.on:
            self.n += 1
            if self.n == self.kill:
                os.kill(os.getpid(), signal.SIGKILL)
            ms = self.pauses.get(self.n)
            if ms:
                time.sleep(ms / 1000)
        return self.local


# ------------------------------------------------------------------ the lock alone


class Oops(Exception):
    pass


def file_lock(path: str) -> Any:
    from asyncz.locks import FileLockProtected

    return lambda: FileLockProtected(path)


def visit(make: Any, script: dict, emit: Any) -> None:
    steps = Stepper(script["pauses"], script.get("kill"))
    if script["pauses"] or script.get("kill"):
        sys.settrace(steps.trace)
    steps.on = True
    lock = make()
    try:
        for i, op in enumerate(script["ops"]):
            if op["op"] == "shutdown":
                lock.shutdown()
                lock = make()
                continue
            emit({"n": i, "try": time.monotonic_ns(), "blocking": op["blocking"]})
            with contextlib.suppress(Oops), lock.protected(blocking=op["blocking"]) as got:
                t = time.monotonic_ns()
                emit({"n": i, "got": bool(got), "in": t})
                if op["ms"]:
                    time.sleep(op["ms"] / 1000)
                emit({"n": i, "out": time.monotonic_ns()})
                if op["fail"]:
                    raise Oops
            emit({"n": i, "end": time.monotonic_ns()})
    except Exception as e:
        import traceback

        emit({"error": "".join(traceback.format_exception(e)[-5:])})
    finally:
        steps.on = False
        sys.settrace(None)


def fork_users(jobs: list, seconds: float = 40) -> list:
    """Runs each job(emit) in a process of its own, all starting at once; what they emitted and when they ended."""
    go_r, go_w = os.pipe()
    kids = []
    for job in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(r)
                os.close(go_w)
                os.read(go_r, 1)
                job(lambda d: os.write(w, json.dumps(d).encode() + b"\n"))  # noqa: B023
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    os.close(go_r)
    os.close(go_w)
    data = {r: b"" for _, r in kids}
    ended: dict = {}
    end = time.monotonic() + seconds
    while len(ended) < len(kids) and time.monotonic() < end:
        for r in select.select([r for r in data if r not in ended], [], [], 0.5)[0]:
            chunk = os.read(r, 65536)
            data[r] += chunk
            if not chunk:
                # the end of the pipe comes before the other files of a process are closed
                os.waitpid(next(p for p, x in kids if x == r), 0)
                ended[r] = time.monotonic_ns()
    hung = len(ended) < len(kids)
    for pid, r in kids:
        if r not in ended:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        os.close(r)
    check(not hung, "a user of the lock did not come to an end")
    return [([json.loads(x) for x in data[r].split(b"\n") if x], ended[r]) for _, r in kids]


def run_lock(c: dict) -> Outcome:
    folder = tempfile.mkdtemp(prefix="p23.")
    name = c.get("path", "x.lock")
    path = os.path.join(folder, name)
    try:
        make = file_lock(path)
        if c["kind"] != "file":
            from asyncz import locks

            one = {"plain": locks.LockProtected, "reentrant": locks.RLockProtected}[c["kind"]]()
            make = lambda: one  # noqa: E731
        if c["procs"]:
            logs = fork_users([lambda emit, u=u: visit(make, u, emit) for u in c["users"]])
        else:
            out: list = [[] for _ in c["users"]]
            ths = [threading.Thread(target=visit, args=(make, u, out[i].append), daemon=True) for i, u in enumerate(c["users"])]
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                for t in ths:
                    t.start()
                for t in ths:
                    t.join(40)
            finally:
                sys.setswitchinterval(old)
            check(not any(t.is_alive() for t in ths), "a user of the lock did not come to an end")
            logs = [(x, time.monotonic_ns()) for x in out]
        inside = []  # (start, end, who)
        tries = []  # (start, end, who, got, blocking)
        killed = False
        for who, (log, gone) in enumerate(logs):
            errs = [x["error"] for x in log if "error" in x]
            check(not errs, lambda: f"user {who}: {errs[0]}")  # noqa: B023
            by: dict = {}
            for x in log:
                by.setdefault(x["n"], {}).update(x)
            for x in by.values():
                killed |= "end" not in x
                tries.append((x["try"], x.get("end", gone), who, x.get("got"), x["blocking"]))
                if x.get("got"):
                    # a killed holder may still have been inside until it was gone; it surely was when it said so
                    inside.append((x["in"], x.get("out", x["in"]), who))
                if x["blocking"] and "in" in x:
                    check(x["got"], f"user {who}: a blocking attempt came back without the lock")
        inside.sort()
        for a, b in zip(inside, inside[1:]):
            check(b[0] >= a[1], lambda: f"users {a[2]} and {b[2]} were inside at once, for {(min(a[1], b[1]) - b[0]) / 1e6} ms")  # noqa: B023
        overlap = False
        for i, x in enumerate(tries):
            others = [y for j, y in enumerate(tries) if j != i and y[2] != x[2] and y[0] <= x[1] and x[0] <= y[1]]
            overlap |= bool(others)
            if not others and not c["downs"] and x[3] is False:
                check(False, f"user {x[2]} did not get the free lock")
        got: list = []
        visit(make, {"pauses": [], "ops": [{"op": "enter", "blocking": False, "ms": 0, "fail": False}]}, got.append)
        check(any(x.get("got") for x in got), "the lock is not free afterwards")
        if c["kind"] == "file":
            # which the users have in common: their parent process and the process group
            names = {name.replace("{ppid}", str(p)).replace("{pgrp}", str(os.getpgrp())) for p in (os.getpid() if c["procs"] else os.getppid(), os.getppid())}
            found = set(os.listdir(folder))
            check(found and found <= names, lambda: f"the lock {name} is in the files {found} instead of {names}")
        return Outcome(overlap, [c["kind"], "procs" if c["procs"] else "threads"] + (["killed"] if killed else []) + (["shutdown"] if c["downs"] else []))
    finally:
        shutil.rmtree(folder)


@st.composite
def lock_cases(draw):
    procs = draw(st.booleans())
    users = []
    downs = draw(st.booleans())
    for _ in range(draw(st.integers(2, 4))):
        ops: list = []
        for _ in range(draw(st.integers(1, 5))):
            if downs and draw(st.integers(0, 3)) == 3:
                ops.append({"op": "shutdown"})
            else:
                ops.append({"op": "enter", "blocking": draw(st.booleans()), "ms": draw(st.sampled_from([0, 0, 1, 3])), "fail": draw(st.integers(0, 4)) == 4})
        u: dict = {"ops": ops, "pauses": draw(st.lists(st.tuples(st.integers(1, 40), st.sampled_from([1, 2, 5])).map(list), max_size=3))}
        if procs and draw(st.integers(0, 3)) == 3:
            u["kill"] = draw(st.integers(1, 50))
        users.append(u)
    return {"kind": "file" if procs else draw(st.sampled_from(["file", "file", "plain", "reentrant"])), "procs": procs, "path": draw(st.sampled_from(["x.lock"] * 3 + ["{ppid}.lock", "{pgrp}", "x-{pgrp}-{ppid}.lock"])), "users": users, "downs": any(o["op"] == "shutdown" for u in users for o in u["ops"])}


# ------------------------------------------------------------------ schedulers


def when(t: float) -> Any:
    from datetime import datetime, timezone

    return datetime.fromtimestamp(T0 + t, timezone.utc)


class Site:
    """What a process does: it obeys orders from the parent, one per round."""

    def __init__(self, c: dict, i: int, backend: Any, lock_path: str, emit: Any) -> None:
        self.c, self.i, self.backend, self.lock_path, self.emit = c, i, backend, lock_path, emit
        self.steps = Stepper(c["sites"][i]["pauses"], c["sites"][i].get("kill"))
        self.s: Any = None
        self.fresh = True

    def build(self) -> None:
        from asyncz.triggers import DateTrigger, IntervalTrigger
        from vp.targets import tagged

        emit = self.emit
        ex = sched.recorder_executor(lambda task, times: emit({"sub": [task.id, [x.timestamp() - T0 for x in times]], "at": time.monotonic_ns()}))
        self.s = sched.manual(stores={"default": self.backend.make()}, executors={"default": ex}, lock_path=self.lock_path, startup_delay=0)
        # no run is ever finished here
        for k, t in enumerate(self.c["tasks"] if self.fresh else []):
            trig = (
                DateTrigger(run_at=when(t["first"]), timezone="UTC")
                if t["every"] is None
                else IntervalTrigger(seconds=t["every"], start_at=when(t["first"]), timezone="UTC")
            )
            self.s.add_task(tagged, trigger=trig, args=[str(k)], id=f"t{k}", coalesce=t["coalesce"], mistrigger_grace_time=None, max_instances=10**6, next_run_time=when(t["first"]))

    def obey(self, order: dict) -> Any:
        clock.STATE.now = when(order["at"])
        do = order["do"]
        if do == "up":
            self.build()
            self.fresh = False
            # started, but processing is left to the rounds
            self.s.start()
            return None
        self.steps.on = True
        try:
            if do == "down":
                self.s.shutdown()
                self.s = None
                return None
            return self.s.process_tasks()
        finally:
            self.steps.on = False

    def live(self, orders_fd: int) -> None:
        if self.steps.pauses or self.steps.kill:
            sys.settrace(self.steps.trace)
        buf = b""
        while True:
            chunk = os.read(orders_fd, 65536)
            if not chunk:
                return
            buf += chunk
            while b"\n" in buf:
                line, _, buf = buf.partition(b"\n")
                order = json.loads(line)
                try:
                    self.emit({"done": self.obey(order)})
                except Exception as e:
                    import traceback

                    sys.settrace(None)
                    self.emit({"error": "".join(traceback.format_exception(e)[-6:])})
                    return


class Fleet:
    def __init__(self, c: dict) -> None:
        self.c = c
        self.folder = tempfile.mkdtemp(prefix="p23.")
        self.backend = backends.CURRENT(c["kind"])
        self.kids: list = []
        lock_path = os.path.join(self.folder, c.get("path", "{store}.lock"))
        for i in range(len(c["sites"])):
            r, w = os.pipe()
            or_, ow = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    for k in self.kids:
                        os.close(k["r"])
                        os.close(k["w"])
                    os.close(r)
                    os.close(ow)
                    with clock.virtual(when(0)):
                        Site(c, i, self.backend, lock_path, lambda d: os.write(w, json.dumps(d).encode() + b"\n")).live(or_)  # noqa: B023
                finally:
                    os._exit(0)
            os.close(w)
            os.close(or_)
            self.kids.append({"pid": pid, "r": r, "w": ow, "buf": b"", "alive": True, "up": False})
        self.subs: list = []  # (site, round, task, time, dying)

    def round(self, n: int, orders: dict) -> dict:
        """orders: site -> order; their answers, or 'dead'."""
        waiting = {}
        for i, o in orders.items():
            k = self.kids[i]
            with contextlib.suppress(BrokenPipeError):
                os.write(k["w"], json.dumps(o).encode() + b"\n")
            waiting[k["r"]] = i
        out: dict = {}
        mine: dict = {i: [] for i in orders}
        end = time.monotonic() + 40
        while waiting:
            ready = select.select(list(waiting), [], [], max(0, end - time.monotonic()))[0]
            check(bool(ready), lambda: f"round {n}: schedulers {sorted(waiting.values())} did not come to an end")
            for r in ready:
                i = waiting[r]
                k = self.kids[i]
                chunk = os.read(r, 65536)
                k["buf"] += chunk
                while b"\n" in k["buf"]:
                    line, _, k["buf"] = k["buf"].partition(b"\n")
                    d = json.loads(line)
                    check("error" not in d, lambda: f"round {n}, scheduler {i}: {d.get('error')}")  # noqa: B023
                    if "sub" in d:
                        mine[i] += [(d["sub"][0], t) for t in d["sub"][1]]
                    elif "done" in d:
                        out[i] = d["done"]
                        waiting.pop(r, None)
                if not chunk and r in waiting:
                    os.waitpid(k["pid"], 0)
                    k["alive"] = False
                    out[i] = "dead"
                    waiting.pop(r)
        for i, subs in mine.items():
            self.subs += [(i, n, task, t, out[i] == "dead") for task, t in subs]
        return out

    def close(self) -> None:
        for k in self.kids:
            if k["alive"]:
                os.kill(k["pid"], signal.SIGKILL)
                os.waitpid(k["pid"], 0)
            os.close(k["r"])
            os.close(k["w"])
        self.backend.dispose()
        shutil.rmtree(self.folder)

    # oracle

    def occurrences(self, t: dict, at: float) -> list:
        if t["first"] > at:
            return []
        if t["every"] is None:
            return [t["first"]]
        return [t["first"] + k * t["every"] for k in range(int((at - t["first"]) // t["every"]) + 1)]

    def once(self, n: int) -> None:
        sure = Counter((task, t) for _, _, task, t, dying in self.subs if not dying)
        for (task, t), k in sure.items():
            check(k == 1, lambda: f"round {n}: the run of {task} at {t} was submitted {k} times: {[x for x in self.subs if x[2:4] == (task, t)]}")  # noqa: B023

    def all_due(self, n: int, at: float) -> None:
        have = {(task, t) for _, _, task, t, _ in self.subs}
        for k, task in enumerate(self.c["tasks"]):
            occ = self.occurrences(task, at)
            want = occ[-1:] if task["coalesce"] else occ
            missing = [t for t in want if (f"t{k}", t) not in have]
            check(not missing, lambda: f"round {n}: runs of task {k} at {missing} are due at {at} and were submitted by nobody")  # noqa: B023
            extra = sorted(t for name, t in have if name == f"t{k}" and t not in occ)
            check(not extra, lambda: f"round {n}: runs of task {k} at {extra} do not belong to its schedule")  # noqa: B023


def run_fleet(c: dict) -> Outcome:
    f = Fleet(c)
    busy = 0
    labels = {c["kind"]}
    try:
        first = c["rounds"][0]["at"] if c["rounds"] else 0
        for i in range(len(c["sites"])):
            f.kids[i]["up"] = f.round(-1, {i: {"do": "up", "at": -1000}})[i] != "dead"
        check(not f.subs, lambda: f"submitted at the start: {f.subs}")
        del first
        for n, rnd in enumerate(c["rounds"]):
            orders = {}
            for i, do in enumerate(rnd["do"]):
                k = f.kids[i]
                if not k["alive"] or do == "idle":
                    continue
                if do == "flip":
                    do = "down" if k["up"] else "up"
                if do == "process" and not k["up"]:
                    continue
                if do == "up":
                    # SQL and Redis make their tables as they start: not while others do
                    if f.round(n, {i: {"do": "up", "at": rnd["at"] - 0.001}})[i] != "dead":
                        k["up"] = True
                    continue
                orders[i] = {"do": do, "at": rnd["at"]}
            before = len(f.subs)
            out = f.round(n, orders)
            for i, o in orders.items():
                if o["do"] == "down":
                    f.kids[i]["up"] = False
                    labels.add("down")
                if out[i] == "dead":
                    labels.add("killed")
                elif o["do"] == "process":
                    check(out[i] is not None and 0 <= out[i] <= 10**7, lambda: f"round {n}: scheduler {i} sleeps for {out[i]} s")  # noqa: B023
            f.once(n)
            busy += len(f.subs) > before and sum(o["do"] == "process" for o in orders.values()) >= 2
            # whoever is left comes by once more: now everything due has been submitted
            left = [i for i, k in enumerate(f.kids) if k["alive"] and k["up"]]
            swept = False
            for i in left:
                wait = f.round(n, {i: {"do": "process", "at": rnd["at"]}})[i]
                if wait == "dead":
                    continue
                swept = True
                nxt = min((x for x in (nxt_after(t, rnd["at"]) for t in c["tasks"]) if x is not None), default=None)
                limit = 10 if nxt is None else nxt - rnd["at"]
                check(wait is not None and 0 <= wait <= limit + 0.001, lambda: f"round {n}: scheduler {i} sleeps for {wait} s, next run in {limit} s")  # noqa: B023
            f.once(n)
            if swept:
                f.all_due(n, rnd["at"])
    finally:
        f.close()
    return Outcome(busy >= 1, sorted(labels))


def nxt_after(t: dict, at: float) -> Any:
    if t["first"] > at:
        return t["first"]
    if t["every"] is None:
        return None
    return t["first"] + (int((at - t["first"]) // t["every"]) + 1) * t["every"]


@st.composite
def fleets(draw):
    n = draw(st.integers(2, 4))
    tasks = [{"every": draw(st.sampled_from([None, 1, 5, 30])), "first": draw(st.integers(1, 20)), "coalesce": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]
    rounds = []
    at = 0
    for _ in range(draw(st.integers(1, 5))):
        at += draw(st.sampled_from([0, 1, 3, 7, 20]))
        rounds.append({"at": at, "do": [draw(st.sampled_from(["process", "process", "process", "process", "idle", "flip"])) for _ in range(n)]})
    sites = []
    for _ in range(n):
        s: dict = {"pauses": draw(st.lists(st.tuples(st.integers(1, 400), st.sampled_from([1, 2, 5])).map(list), max_size=3))}
        if draw(st.integers(0, 3)) == 3:
            s["kill"] = draw(st.integers(1, 500))
        sites.append(s)
    return {"kind": draw(st.sampled_from(["file", "file", "sql", "redis"])), "path": draw(st.sampled_from(["{store}.lock"] * 2 + ["{store}-{ppid}", "x-{pgrp}.{store}"])), "tasks": tasks, "rounds": rounds, "sites": sites}


PARTS = [
    Part("lock", lock_cases, run_lock, quick=2400, thorough=60000),
    Part("schedulers", fleets, run_fleet, quick=400, thorough=15000, setup=backends.session),
]
