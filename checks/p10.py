"""P10: every store behaves as the same ordered set of tasks."""

from __future__ import annotations

from hypothesis import strategies as st

from vp import backends
from vp import tasks as T
from vp import tz as TZ
from vp.runner import Outcome, Part, Violation, check

PROPERTY = "P10"
RULE = (
    "A case is a store kind (memory, file, SQLite, redis, MongoDB through an in-memory client) and up to 14 operations "
    "(add, update with a fresh or the stored object, delete, clear, reopen) on ids that collide, with next run times that "
    "tie or differ by a microsecond; after every operation the store's full contents, due tasks and next run time are "
    "compared with a dictionary model. Non-trivial: at least two tasks are held at once and one is changed or deleted. "
    "names: two or three durable stores of one kind that share a directory, database, server or client and differ in suffix, "
    "directory, table, database number, keys or collection, with every pickle protocol, each against its own model after "
    "every operation on any of them. Non-trivial: an id was held by two of them at once."
)
ASSUMPTIONS = [
    "MongoDB itself is represented by an in-memory stand-in whose documents pass through real BSON; redis is a real private server; SQL is SQLite.",
    "MemoryStore.update_task documents that it inserts an unknown task; both that and refusing are accepted there.",
]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["add"] * 5 + ["update"] * 4 + ["touch"] * 2 + ["delete"] * 2 + ["lookup", "due", "reopen", "clear"]))
    o = {"op": k, "id": draw(st.sampled_from(T.IDS[:6] if draw(st.booleans()) else T.IDS))}
    if k in ("add", "update"):
        o["def"] = draw(T.definition())
    if k == "touch":
        o["next"] = draw(st.none() | T.instant)
        o["name"] = draw(st.none() | st.text(min_size=1, max_size=5))
    o["at"] = draw(T.instant)
    return o


def case():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(backends.KINDS),
            "fill": st.lists(T.definition(), max_size=5),
            "ops": st.lists(op(), min_size=3, max_size=12),
        }
    )


def view(store, sched, alias="default"):
    out = []
    for t in store.get_all_tasks():
        check(t.store_alias == alias and t.scheduler is sched, f"task {t.id} does not point to its store and scheduler")
        out.append(T.public(t))
    return out


def compare(store, sched, model, at, what, alias="default"):
    got = view(store, sched, alias)
    check({g["id"]: g for g in got} == model and len(got) == len(model), lambda: f"{what}: store holds {got}, expected {sorted(model.values(), key=repr)}")
    nexts = [g["next"] for g in got]
    want = sorted(nexts, key=lambda n: (n is None, n or 0))
    check(nexts == want, lambda: f"{what}: tasks are listed in order {nexts}")
    for t in sorted({at, at - 1, *[n for n in nexts if n is not None][:3]}):
        due = [T.public(x) for x in store.get_due_tasks(TZ.at(t))]
        wanted = [g for g in got if g["next"] is not None and g["next"] <= t]
        check(
            sorted(d["id"] for d in due) == sorted(w["id"] for w in wanted),
            lambda: f"{what}: due at {t}: {[(d['id'], d['next']) for d in due]}, expected {[(w['id'], w['next']) for w in wanted]}",
        )
        check([d["next"] for d in due] == sorted(d["next"] for d in due), lambda: f"{what}: due tasks out of order: {due}")
        check(all(d == model[d["id"]] for d in due), lambda: f"{what}: due tasks differ from the stored ones: {due}")
    nxt = store.get_next_run_time()
    nxt = None if nxt is None else TZ.us(nxt)
    first = min((n for n in nexts if n is not None), default=None)
    check(nxt == first, lambda: f"{what}: next run time {nxt}, earliest is {first}")


def run(c):
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    ses = backends.CURRENT
    b = ses(c["kind"])
    sched = b.sched
    model: dict = {}
    peak = changed = 0
    try:
        s = b.open()
        fill = [{"op": "add", "id": T.IDS[i], "def": d, "at": 0} for i, d in enumerate(c["fill"])]
        for i, o in enumerate(fill + c["ops"]):
            k, tid = o["op"], o["id"]
            what = f"{c['kind']} after op {i} ({k} {tid!r})"
            refused = None
            try:
                if k == "add":
                    t = T.make(tid, o["def"], sched)
                    s.add_task(t)
                elif k == "update":
                    t = T.make(tid, o["def"], sched)
                    s.update_task(t)
                elif k == "touch":
                    t = s.lookup_task(tid)
                    if t is None:
                        check(tid not in model, f"{what}: stored task not found")
                        continue
                    check(tid in model, f"{what}: found a task that is not stored")
                    ch = {"next_run_time": None if o["next"] is None else TZ.at(o["next"])}
                    if o["name"]:
                        ch["name"] = o["name"]
                    t.update_task(**ch)
                    s.update_task(t)
                elif k == "delete":
                    s.delete_task(tid)
                elif k == "clear":
                    s.remove_all_tasks()
                elif k == "lookup":
                    t = s.lookup_task(tid)
                    check((None if t is None else T.public(t)) == model.get(tid), lambda: f"{what}: lookup gives {t!r}, expected {model.get(tid)}")
                    check(t is None or (t.store_alias == "default" and t.scheduler is sched), f"{what}: lookup is detached")
                    continue
                elif k == "due":
                    compare(s, sched, model, o["at"], what)
                    continue
                elif k == "reopen":
                    if c["kind"] != "memory":
                        if o["at"] % 2:
                            b.close_store(s)
                        s = b.open()
            except ConflictIdError:
                refused = "conflict"
            except TaskLookupError:
                refused = "lookup"
            if k == "add":
                check((refused == "conflict") == (tid in model) and refused != "lookup", f"{what}: refused={refused}, id stored: {tid in model}")
                if not refused:
                    model[tid] = T.public(t)
            elif k in ("update", "touch"):
                if tid in model:
                    check(refused is None, f"{what}: refused ({refused})")
                    model[tid] = T.public(t)
                    changed += 1
                elif c["kind"] == "memory" and refused is None:
                    model[tid] = T.public(t)
                else:
                    check(refused == "lookup", f"{what}: changing an unknown task was not refused ({refused})")
            elif k == "delete":
                check((refused == "lookup") == (tid not in model) and refused != "conflict", f"{what}: refused={refused}")
                changed += model.pop(tid, None) is not None
            elif k == "clear":
                check(refused is None, f"{what}: refused")
                model.clear()
            peak = max(peak, len(model))
            compare(s, sched, model, o["at"], what)
    finally:
        b.dispose()
    return Outcome(peak >= 2 and changed > 0, [c["kind"], f"peak{min(peak, 5)}"])


# Stores of one kind that share a backend and differ in one option: each is a set of its own.
PLACES = {
    "file": [("tasks", ".task"), ("tasks", ".job"), ("tasks", "[a]*?.t"), ("a/b c/tasks", ".task"), ("other", ""), ("gone", ".task"), ("tasks", ".task.b")],
    "sql": [("asyncz_store", "url"), ("asyncz_store2", "engine"), ("Select", "url"), ("a.b c%s", "engine")],
    "redis": [(0, "t", "r"), (1, "t", "r"), (0, "t2", "r2"), ("1", "t:*", "r:[t]")],
    "mongo": [("asyncz", "tasks"), ("asyncz", "other"), ("second", "tasks"), ("second", "tasks.x")],
}
PROTOCOLS = [None, 0, 1, 2, 3, 4, 5]


@st.composite
def names_case(draw):
    kind = draw(st.sampled_from(backends.DURABLE))
    n = len(PLACES[kind])
    used = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=3, unique=True))
    slot = st.integers(0, len(used) - 1)
    fill = [
        {"op": "add", "slot": draw(slot), "id": draw(st.sampled_from(T.IDS[:4])), "def": draw(T.definition()), "at": 0} for _ in range(draw(st.integers(2, 5)))
    ]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        o = draw(op())
        o["slot"] = draw(slot)
        o["protocol"] = draw(st.sampled_from(PROTOCOLS))
        if o["id"] not in T.IDS[:5]:
            o["id"] = T.IDS[len(o["id"]) % 4]
        ops.append(o)
    return {
        "kind": kind,
        "places": used,
        "protocols": [draw(st.sampled_from(PROTOCOLS)) for _ in used],
        "mode": draw(st.sampled_from([0o700, 0o750, 0o755])),
        "asstr": draw(st.booleans()),
        "ops": fill + ops,
    }


class Places:
    def __init__(self, c):
        import os
        import tempfile

        self.c, self.kind = c, c["kind"]
        self.ses = backends.CURRENT
        self.dir = tempfile.mkdtemp(prefix="names", dir=self.ses.dir)
        self.data: dict = {}
        self.mongo = backends.FakeMongo(self.data)
        self.engines: list = []
        self.os = os
        if self.kind == "redis":
            self.ses.redis_start()

    def make(self, place, protocol):
        import pathlib

        where = PLACES[self.kind][place]
        kw = {} if protocol == 5 else {"pickle_protocol": protocol}
        if self.kind == "file":
            from asyncz.stores.file import FileStore

            d = self.os.path.join(self.dir, where[0])
            fresh = not self.os.path.exists(d)
            s = FileStore(d if self.c["asstr"] else pathlib.Path(d), suffix=where[1], mode=self.c["mode"], cleanup_directory=where[0] == "gone", **kw)
            return s, (d if fresh else None)
        if self.kind == "sql":
            import sqlalchemy
            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            url = f"sqlite:///{self.dir}/names.db"
            return SQLAlchemyStore(sqlalchemy.create_engine(url) if where[1] == "engine" else url, where[0], **kw), None
        if self.kind == "redis":
            from asyncz.stores.redis import RedisStore

            return RedisStore(where[0], where[1], where[2], unix_socket_path=self.ses.redis_socket, **kw), None
        from asyncz.stores.mongo import MongoDBStore

        return MongoDBStore(where[0], where[1], client=self.mongo, **kw), None

    def open(self, slot, place, protocol, what):
        s, fresh = self.make(place, protocol)
        s.start(self.ses.scheduler, f"s{slot}")
        if fresh is not None:
            mode = self.os.stat(fresh).st_mode & 0o777
            check(mode & ~self.c["mode"] == 0 and mode & 0o700 == 0o700, f"{what}: directory made with mode {mode:o}, asked for {self.c['mode']:o}")
        return s

    def dispose(self):
        import shutil

        if self.kind == "redis":
            from redis import Redis

            for n in (0, 1):
                with Redis(unix_socket_path=self.ses.redis_socket, db=n) as r:
                    r.delete(*[k for p in PLACES["redis"] if int(p[0]) == n for k in p[1:]])
        shutil.rmtree(self.dir, ignore_errors=True)


def run_names(c):
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    p = Places(c)
    sched = p.ses.scheduler
    models: list = [{} for _ in c["places"]]
    stores: list = []
    shared = 0
    try:
        for i, place in enumerate(c["places"]):
            stores.append(p.open(i, place, c["protocols"][i], "start"))
        for i, o in enumerate(c["ops"]):
            k, tid, n = o["op"], o["id"], o["slot"]
            place = PLACES[c["kind"]][c["places"][n]]
            what = f"{c['kind']} {place} of {[PLACES[c['kind']][x] for x in c['places']]} after op {i} ({k} {tid!r})"
            model, s, refused, t = models[n], stores[n], None, None
            try:
                if k in ("add", "update"):
                    t = T.make(tid, o["def"], sched, f"s{n}")
                    s.add_task(t) if k == "add" else s.update_task(t)
                elif k == "delete":
                    s.delete_task(tid)
                elif k == "clear":
                    s.remove_all_tasks()
                elif k in ("reopen", "due"):
                    if k == "reopen" and o["at"] % 2:
                        s.shutdown()
                        if place[0] == "gone":
                            check(not p.os.path.exists(p.os.path.join(p.dir, "gone")), f"{what}: the directory is to be removed with the store")
                            model.clear()
                    stores[n] = p.open(n, c["places"][n], o["protocol"], what)
                else:
                    t = s.lookup_task(tid)
                    check((None if t is None else T.public(t)) == model.get(tid), lambda: f"{what}: lookup gives {t!r}, expected {model.get(tid)}")
                    t = None
            except ConflictIdError:
                refused = "conflict"
            except TaskLookupError:
                refused = "lookup"
            want = "conflict" if k == "add" and tid in model else "lookup" if k in ("update", "delete") and tid not in model else None
            check(refused == want, f"{what}: refused={refused}, expected {want}")
            if refused is None:
                if t is not None:
                    model[tid] = T.public(t)
                elif k == "delete":
                    del model[tid]
                elif k == "clear":
                    model.clear()
            shared += sum(tid in m for m in models) > 1
            for j, (other, m) in enumerate(zip(stores, models)):
                compare(other, sched, m, o["at"], f"{what}, looking at {PLACES[c['kind']][c['places'][j]]}", f"s{j}")
    finally:
        for s in stores:
            s.shutdown()
        p.dispose()
    return Outcome(shared > 0, [c["kind"], f"stores{len(stores)}"])


PARTS = [
    Part("history", case, run, quick=2400, thorough=60000, setup=backends.session),
    Part("names", names_case, run_names, quick=1600, thorough=40000, setup=backends.session),
]
