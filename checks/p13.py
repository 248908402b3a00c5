"""P13: a shared durable store loses nothing under concurrent use or a killed writer."""

from __future__ import annotations

import contextlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
from collections import defaultdict
from typing import Any

from hypothesis import strategies as st

from vp import linear
from vp.runner import Outcome, Part, check

PROPERTY = "P13"
RULE = (
    "Up to four users (threads with stores of their own, or forked processes) work on one directory, one redis database or one SQL database: adds, updates, deletes, lookups, "
    "listings, due and next-run queries and clears over up to three ids, each written version being unique. The interleaving is varied by "
    "start barriers, pauses at generated execution steps inside the store code, tiny thread switch intervals; processes may be killed at a generated step, "
    "or find the disk full half-way through a write. Per id, the recorded intervals and results (and the final content) must be explained "
    "by some order of the operations on a simple register, operations of killed users optional; listings count as reads of every id; "
    "unreadable files may lie there from the beginning; every task read must be exactly one written version. Non-trivial: operations of two users on one id overlapped in time and at least one wrote."
)

IDS = ["a", "b", "ä c"]
T0 = 1_800_000_000


class Killed(Exception):
    pass


# -------- one user


def make_task(s: Any, id: str, v: int, big: int) -> Any:
    from datetime import datetime, timezone

    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger
    from vp.targets import padded

    return Task(
        padded, id=id, name=f"v{v}", args=[v], kwargs={"pad": "x" * big}, trigger=IntervalTrigger(seconds=60, timezone="UTC"), executor="default", coalesce=True, max_instances=v + 1,
        mistrigger_grace_time=v + 1, scheduler=s, store_alias="default", next_run_time=datetime.fromtimestamp(T0 + v, timezone.utc),
    )  # fmt: skip


def version(t: Any) -> int:
    """The version a task shows, in all its parts."""
    v = t.args[0]
    whole = t.name == f"v{v}" and t.max_instances == v + 1 and t.mistrigger_grace_time == v + 1 and t.next_run_time.timestamp() == T0 + v
    check(whole and set(t.kwargs) == {"pad"} and set(t.kwargs["pad"]) <= {"x"}, lambda: f"a mixed version was read: {t!r} {t.name} {t.args}")
    return v


class Stepper:
    """Counts execution steps inside the code under test; pauses or kills at given ones."""

    def __init__(self, pauses: list, kill: Any) -> None:
        self.n = self.m = 0
        self.pauses = {k: ms for k, ms in pauses}
        self.kill = kill
        self.on = False

    def trace(self, frame: Any, event: str, arg: Any) -> Any:
        f = frame.f_code.co_filename
        if "/asyncz/stores/" in f or f.endswith(("file_locking.py", "pathlib.py", "/redis/client.py", "/sqlalchemy/engine/base.py")):
            return self.local
        return None

    def local(self, frame: Any, event: str, arg: Any) -> Any:
        if self.on:
            self.n += 1
            if self.n == self.kill:
                os.kill(os.getpid(), signal.SIGKILL)
            if frame.f_code.co_filename.endswith("base.py"):  # many steps of SQLAlchemy
                return self.local
            self.m += 1
            ms = self.pauses.get(self.m)
            if ms:
                time.sleep(ms / 1000)
        return self.local


class Place:
    """Where the users meet."""

    session: Any = None

    def __init__(self, kind: str, junk: list) -> None:
        self.kind = kind
        self.folder = tempfile.mkdtemp(prefix="p13.")
        self.backend: Any = None
        if kind != "file":
            self.backend = Place.session(kind)
        if kind == "sql" and junk:
            self.make()[1].shutdown()
        for i in junk:
            if kind == "file":
                with open(os.path.join(self.folder, IDS[i] + ".task"), "wb") as f:
                    f.write(b"no task")
            else:
                self.backend.put_raw(IDS[i], b"no task")

    def make(self) -> Any:
        from asyncz.stores.file import FileStore
        from vp import sched

        s = sched.manual()
        store = FileStore(self.folder) if self.kind == "file" else self.backend.make()
        store.start(s, "default")
        store.logger_name = "x"
        return s, store

    def close(self) -> None:
        shutil.rmtree(self.folder)
        if self.backend is not None:
            self.backend.cleanup()


@contextlib.contextmanager
def session():
    from vp import backends

    Place.session = backends.Session()
    try:
        Place.session.redis_start()
        yield
    finally:
        Place.session.close()


def user(place: Place, script: dict, ready: Any, emit: Any) -> None:
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    steps = Stepper(script["pauses"], script.get("kill"))
    store: Any = None
    try:
        if script.get("late"):
            ready()
        s, store = place.make()
        if script["pauses"] or script.get("kill"):
            sys.settrace(steps.trace)
        if not script.get("late"):
            ready()
        steps.on = True
        for i, op in enumerate(script["ops"]):
            k, id = op["op"], IDS[op.get("id", 0)]
            rec = {"op": k, "id": id, "v": op.get("v"), "t0": time.monotonic_ns(), "n": i}
            emit({**rec, "begin": True})
            res: Any
            full = op.get("full")
            if full:
                old = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (full, old[1]))
            try:
                if k == "add":
                    store.add_task(make_task(s, id, op["v"], op["big"]))
                    res = "ok"
                elif k == "update":
                    store.update_task(make_task(s, id, op["v"], op["big"]))
                    res = "ok"
                elif k == "delete":
                    store.delete_task(id)
                    res = "ok"
                elif k == "clear":
                    store.remove_all_tasks()
                    res = "ok"
                elif k == "read":
                    try:
                        t = store.lookup_task(id)
                    except pickle.UnpicklingError:
                        if place.kind != "redis":
                            raise
                        t = None  # the redis store leaves it to the listings to remove it
                    res = ["is", None if t is None else version(t)]
                elif k in ("list", "due"):
                    from datetime import datetime, timezone

                    ts = store.get_all_tasks() if k == "list" else store.get_due_tasks(datetime.fromtimestamp(T0 + 10**6, timezone.utc))
                    res = {t.id: version(t) for t in ts}
                    if len(res) != len(ts):
                        res = {"twice": [t.id for t in ts]}
                else:
                    d = store.get_next_run_time()
                    res = ["next", None if d is None else int(d.timestamp()) - T0]
            except ConflictIdError:
                res = "conflict"
            except TaskLookupError:
                res = "missing"
            except OSError as e:
                if not full:
                    raise
                res = f"full {e.errno}"
            finally:
                if full:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            rec["t1"] = time.monotonic_ns()
            rec["res"] = res
            emit(rec)
    except Exception as e:
        import traceback

        emit({"error": "".join(traceback.format_exception(e)[-6:])})
    finally:
        steps.on = False
        sys.settrace(None)
        if store is not None and place.kind != "file":
            with contextlib.suppress(Exception):
                store.shutdown()


# -------- all users


def with_threads(place: Place, c: dict) -> list:
    out: list = [[] for _ in c["users"]]
    barrier = threading.Barrier(len(c["users"]))
    ths = [threading.Thread(target=user, args=(place, u, barrier.wait, out[i].append), daemon=True) for i, u in enumerate(c["users"])]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join(40)
    finally:
        sys.setswitchinterval(old)
    check(not any(t.is_alive() for t in ths), "an operation did not return")
    return out


def with_processes(place: Place, c: dict) -> list:
    go_r, go_w = os.pipe()
    kids = []
    for u in c["users"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                os.close(r)
                os.close(go_w)
                user(place, u, lambda: os.read(go_r, 1), lambda d: os.write(w, json.dumps(d).encode() + b"\n"))  # noqa: B023
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    os.close(go_r)
    os.close(go_w)  # all start now
    out = []
    end = time.monotonic() + 40
    import select

    for _pid, r in kids:
        data = b""
        while True:
            if not select.select([r], [], [], max(0, end - time.monotonic()))[0]:
                break
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        out.append([json.loads(x) for x in data.split(b"\n") if x])
    hung = time.monotonic() >= end
    for pid, _ in kids:
        if hung:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    check(not hung, "an operation did not return")
    return out


def run(c: dict) -> Outcome:
    place = Place(c["kind"], c["junk"])
    try:
        return judge(place, c, (with_processes if c["procs"] else with_threads)(place, c))
    finally:
        place.close()


def judge(place: Place, c: dict, logs: list) -> Outcome:
    ops: dict = defaultdict(list)  # per id
    killed = fulls = 0
    for i, log in enumerate(logs):
        errs = [x["error"] for x in log if "error" in x]
        check(not errs, lambda: f"user {i} failed: {errs[0]}")  # noqa: B023
        ended = {x["n"]: x for x in log if not x.get("begin")}
        for b in log:
            if not b.get("begin"):
                continue
            rec = ended.get(b["n"]) or {**b, "t1": None, "res": None}
            killed += rec["res"] is None
            note(ops, rec, i, place.kind)
            fulls += str(rec["res"]).startswith("full")
        gone = len(ended) < len(c["users"][i]["ops"]) and not any(b.get("begin") and b["n"] not in ended for b in log)
        killed += gone
        check(not gone or "kill" in c["users"][i], f"user {i} ended early")
    # what is there afterwards, for a new user
    after: list = []
    ids = [IDS.index(i) for i in IDS]
    user(place, {"pauses": [], "ops": [{"op": "read", "id": i} for i in ids] + [{"op": "list"}, {"op": "due"}]}, lambda: None, after.append)
    check(not [x for x in after if "error" in x], lambda: f"final read failed: {after[-1]}")
    final = [x for x in after if not x.get("begin")]
    for rec in final:
        note(ops, rec, "afterwards", place.kind)
    written = defaultdict(set)
    for u in c["users"]:
        for o in u["ops"]:
            if o["op"] in ("add", "update"):
                written[IDS[o["id"]]].add(o["v"])
    for rec in final[-1:]:
        check(set(rec["res"]) <= set(IDS), lambda: f"afterwards the store holds {rec['res']}")  # noqa: B023
    overlap = False
    for id in IDS:
        h = ops[id]
        for o in h:
            if o["op"] == "read" and o["res"] is not None:
                check(o["res"][1] is None or o["res"][1] in written[id], lambda: f"{id!r}: a version nobody wrote: {o}")  # noqa: B023
        h = [o for o in h if not str(o["res"]).startswith("full")]
        if not linear.explain(h, linear.JUNK if IDS.index(id) in c["junk"] else None):
            t = min((o["t0"] for o in h), default=0)
            lines = [f"{o['who']}: {o['op']} {o.get('v', '')} -> {o['res']}  [{(o['t0'] - t) / 1e6:.3f} .. {'killed' if o['t1'] is None else round((o['t1'] - t) / 1e6, 3)} ms]" for o in sorted(h, key=lambda o: o["t0"])]
            check(False, lambda: f"no order of the operations on {id!r} explains the results:\n" + "\n".join(lines))  # noqa: B023
        for x in h:
            for y in h:
                if x["who"] != y["who"] and x["op"] in ("add", "update", "delete", "clear") and "afterwards" not in (x["who"], y["who"]):
                    overlap |= x["t0"] < (y["t1"] or x["t0"] + 1) and y["t0"] < (x["t1"] or y["t0"] + 1)
    # still usable
    more: list = []
    free = [i for i, id in enumerate(IDS) if final[i]["res"] == ["is", None]]
    script = [{"op": "update", "id": i, "v": 900 + i, "big": 0} for i in ids if i not in free] + [{"op": "add", "id": i, "v": 800 + i, "big": 0} for i in free] + [{"op": "list"}]
    user(place, {"pauses": [], "ops": script}, lambda: None, more.append)
    got = [x.get("res", x) for x in more if not x.get("begin")]
    want = {id: (800 if i in free else 900) + i for i, id in enumerate(IDS)}
    check(got == ["ok"] * len(IDS) + [want], lambda: f"afterwards {script} gives {got}")
    return Outcome(overlap, ["procs" if c["procs"] else "threads", c["kind"]] + (["killed"] if killed else []) + (["full"] if fulls else []))


def note(ops: dict, rec: dict, who: Any, kind: str) -> None:
    rec = {**rec, "who": who, "kind": kind}
    k, res = rec["op"], rec["res"]
    if k in ("list", "due"):
        for id in IDS:
            if res is None:
                ops[id].append({**rec, "op": "purge"})
                continue
            check("twice" not in res, lambda: f"listed twice: {res}")
            ops[id].append({**rec, "op": "read", "res": ["is", res.get(id)]})
            ops[id].append({**rec, "op": "purge"})
    elif k == "next":
        if rec["kind"] == "file":
            for id in IDS:
                ops[id].append({**rec, "op": "purge"})
        if res is not None and res[1] is None:
            for id in IDS:
                ops[id].append({**rec, "op": "read", "res": ["is", None]})
        elif res is not None:
            rec["next"] = res[1]
    elif k == "clear":
        for id in IDS:
            ops[id].append(rec)
    else:
        ops[rec["id"]].append(rec)
        if k == "read" and rec["kind"] != "redis":
            ops[rec["id"]].append({**rec, "op": "purge"})


@st.composite
def cases(draw, procs: bool, kinds_of: tuple):
    kind = draw(st.sampled_from(kinds_of))
    n = draw(st.integers(2, 4))
    v = 0
    users = []
    kinds = draw(st.sampled_from([["add", "add", "read"], ["add", "update", "read", "list"], ["add", "update", "delete", "read", "list", "due", "next"], ["add", "update", "update", "clear", "list"], ["update", "list"]]))
    few = draw(st.integers(0, 2))
    for _ in range(n):
        ops = []
        for _ in range(draw(st.integers(1, 5))):
            o: dict = {"op": draw(st.sampled_from(kinds)), "id": draw(st.integers(0, few))}
            if o["op"] in ("add", "update"):
                v += 1
                o["v"] = v
                o["big"] = draw(st.sampled_from([0, 0, 5000, 100000]))
                if procs and kind == "file" and draw(st.integers(0, 7)) == 7:
                    o["full"] = draw(st.sampled_from([1, 100, 4096]))
            ops.append(o)
        u: dict = {"ops": ops, "pauses": draw(st.lists(st.tuples(st.integers(1, 150), st.sampled_from([1, 1, 2, 5])).map(list), max_size=3))}
        if procs and draw(st.integers(0, 2)) == 2:
            u["kill"] = draw(st.integers(1, 200))
        if kind == "sql" and draw(st.booleans()):
            u["late"] = True
        users.append(u)
    return {"kind": kind, "procs": procs, "users": users, "junk": draw(st.lists(st.integers(0, 2), max_size=2, unique=True)) if draw(st.integers(0, 2)) == 2 else [0] if kinds == ["update", "list"] else []}


def threads():
    return cases(False, ("file",))


def processes():
    return cases(True, ("file",))


def served():
    return st.booleans().flatmap(lambda procs: cases(procs, ("redis", "redis", "sql")))


PARTS = [
    Part("threads", threads, run, quick=1600, thorough=60000),
    Part("processes", processes, run, quick=1600, thorough=60000),
    Part("served", served, run, quick=800, thorough=40000, setup=session),
]
