"""The stores under test, each over a private scratch backend that can be reopened, inspected and damaged.

    with backends.session() as make:        # once per worker process
        b = make("sql")                      # a fresh, empty backend
        s = b.open()                         # a store object on it, started
        b.raw() -> {id: bytes}, b.put_raw(id, bytes)
        b.dispose()
"""

from __future__ import annotations

import contextlib
import copy
import itertools
import os
import shutil
import subprocess
import tempfile
import time
from typing import Any, Optional

KINDS = ["memory", "file", "sql", "redis", "mongo"]
DURABLE = ["file", "sql", "redis", "mongo"]
KEY_ENV = "ASYNCZ_STORE_ENCRYPTION_KEY"


class HarnessGap(BaseException):
    """The stand-in lacks something the code asks for: not a verdict about the code."""


def scratch_root() -> str:
    return os.environ.get("VP_SCRATCH") or tempfile.gettempdir()


def scheduler() -> Any:
    from asyncz.schedulers import AsyncIOScheduler

    return AsyncIOScheduler(timezone="UTC", logger_name="store-check")


# ------------------------------------------------------------------ Mongo stand-in


def _match(doc: dict, cond: Any) -> bool:
    if not isinstance(cond, dict):
        cond = {"_id": cond}
    for key, want in cond.items():
        if key == "$and":
            if not all(_match(doc, c) for c in want):
                return False
            continue
        if key == "$or":
            if not any(_match(doc, c) for c in want):
                return False
            continue
        have = doc.get(key)
        ops = want if isinstance(want, dict) and any(str(k).startswith("$") for k in want) else {"$eq": want}
        for op, v in ops.items():
            num = isinstance(have, (int, float)) and isinstance(v, (int, float))
            ok = {
                "$eq": lambda: have == v,
                "$ne": lambda: have != v,
                "$lte": lambda: num and have <= v,
                "$lt": lambda: num and have < v,
                "$gte": lambda: num and have >= v,
                "$gt": lambda: num and have > v,
                "$in": lambda: have in v,
                "$nin": lambda: have not in v,
                "$exists": lambda: (key in doc) == bool(v),
                "$type": lambda: (have is None) if v in (10, "null") else (isinstance(have, (int, float))),
            }.get(op)
            if ok is None:
                raise HarnessGap(f"mongo operator {op}")
            if not ok():
                return False
    return True


class _Result:
    def __init__(self, **kw: Any) -> None:
        self.__dict__.update(kw)


class _Cursor:
    def __init__(self, docs: list) -> None:
        self.docs = docs

    def sort(self, key: Any, direction: int = 1) -> "_Cursor":
        self.docs = _sorted(self.docs, key if isinstance(key, list) else [(key, direction)])
        return self

    def limit(self, n: int) -> "_Cursor":
        self.docs = self.docs[:n] if n else self.docs
        return self

    def __iter__(self) -> Any:
        return iter(self.docs)


def _sorted(docs: list, sort: Any) -> list:
    for key, direction in reversed(list(sort or [])):
        # the BSON order: null first, then numbers, then strings
        docs = sorted(
            docs,
            key=lambda d: (
                0 if d.get(key) is None else 1 if isinstance(d.get(key), (int, float)) else 2,
                0 if d.get(key) is None else d.get(key),
            ),
            reverse=direction < 0,
        )
    return docs


class FakeCollection:
    def __init__(self, docs: dict) -> None:
        self.docs = docs

    def _roundtrip(self, doc: dict) -> dict:
        import bson

        return bson.decode(bson.encode(doc))

    def _project(self, doc: dict, projection: Any) -> dict:
        doc = copy.deepcopy(doc)
        if projection is None:
            return doc
        if isinstance(projection, dict):
            drop = [k for k, v in projection.items() if not v]
            keep = [k for k, v in projection.items() if v]
            if not keep:
                return {k: v for k, v in doc.items() if k not in drop}
            projection = [k for k in keep] + ([] if "_id" in drop else ["_id"])
        return {k: v for k, v in doc.items() if k in projection or k == "_id"}

    def create_index(self, *a: Any, **k: Any) -> str:
        return "idx"

    def find(self, filter: Any = None, projection: Any = None, sort: Any = None, limit: int = 0, **k: Any) -> _Cursor:
        docs = [d for d in self.docs.values() if _match(d, filter if filter is not None else {})]
        docs = _sorted(docs, sort)
        return _Cursor([self._project(d, projection) for d in (docs[:limit] if limit else docs)])

    def find_one(self, filter: Any = None, projection: Any = None, sort: Any = None, **k: Any) -> Optional[dict]:
        for d in self.find(filter, projection, sort):
            return d
        return None

    def insert_one(self, doc: dict) -> Any:
        from pymongo.errors import DuplicateKeyError

        doc = self._roundtrip(doc)
        if doc["_id"] in self.docs:
            raise DuplicateKeyError("E11000 duplicate key error")
        self.docs[doc["_id"]] = doc
        return _Result(inserted_id=doc["_id"])

    def update_one(self, filter: Any, update: dict, upsert: bool = False) -> Any:
        if set(update) - {"$set", "$unset"} or upsert:
            raise HarnessGap("mongo update")
        for d in self.docs.values():
            if _match(d, filter):
                d.update(self._roundtrip(update.get("$set", {})))
                for k in update.get("$unset", {}):
                    d.pop(k, None)
                return _Result(matched_count=1, modified_count=1)
        return _Result(matched_count=0, modified_count=0)

    def replace_one(self, filter: Any, doc: dict, upsert: bool = False) -> Any:
        for d in list(self.docs.values()):
            if _match(d, filter):
                self.docs[d["_id"]] = {"_id": d["_id"], **self._roundtrip(doc)}
                return _Result(matched_count=1, modified_count=1)
        if upsert:
            self.insert_one(doc)
        return _Result(matched_count=0, modified_count=0)

    def delete_one(self, filter: Any) -> Any:
        for k, d in list(self.docs.items()):
            if _match(d, filter):
                del self.docs[k]
                return _Result(deleted_count=1)
        return _Result(deleted_count=0)

    def delete_many(self, filter: Any) -> Any:
        ks = [k for k, d in self.docs.items() if _match(d, filter)]
        for k in ks:
            del self.docs[k]
        return _Result(deleted_count=len(ks))

    def count_documents(self, filter: Any) -> int:
        return len(list(self.find(filter)))

    def drop(self) -> None:
        self.docs.clear()

    def __getattr__(self, name: str) -> Any:
        raise HarnessGap(f"mongo collection.{name}")


class _Database:
    def __init__(self, data: dict, name: str) -> None:
        self.data, self.name = data, name

    def __getitem__(self, collection: str) -> FakeCollection:
        return FakeCollection(self.data.setdefault((self.name, collection), {}))

    def __getattr__(self, name: str) -> Any:
        raise HarnessGap(f"mongo database.{name}")


class FakeMongo:
    """What MongoDBStore uses of a MongoClient, kept in memory (documents pass through real BSON)."""

    def __init__(self, data: dict) -> None:
        self.data = data

    def __getitem__(self, db: str) -> Any:
        return _Database(self.data, db)

    def close(self) -> None:
        pass

    def __getattr__(self, name: str) -> Any:
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessGap(f"mongo client.{name}")


# ------------------------------------------------------------------ backends


class Backend:
    kind = ""

    def __init__(self, ctx: "Session") -> None:
        self.ctx = ctx
        self.stores: list = []
        self.sched = ctx.scheduler
        self.setup()

    def setup(self) -> None: ...

    def make(self) -> Any:
        raise NotImplementedError

    def open(self, alias: str = "default", sched: Any = None) -> Any:
        s = self.make()
        s.start(sched or self.sched, alias)
        self.stores.append(s)
        return s

    def close_store(self, s: Any) -> None:
        s.shutdown()
        if s in self.stores:
            self.stores.remove(s)

    def raw(self) -> dict:
        raise NotImplementedError

    def put_raw(self, task_id: str, data: bytes) -> None:
        raise NotImplementedError

    def dispose(self) -> None:
        for s in list(self.stores):
            self.close_store(s)
        self.cleanup()

    def cleanup(self) -> None: ...


class MemoryBackend(Backend):
    kind = "memory"

    def make(self) -> Any:
        from asyncz.stores.memory import MemoryStore

        return MemoryStore()


class FileBackend(Backend):
    kind = "file"

    def setup(self) -> None:
        self.dir = os.path.join(self.ctx.dir, f"f{next(self.ctx.seq)}")
        os.mkdir(self.dir)
        self.tasks = os.path.join(self.dir, "tasks")

    def make(self) -> Any:
        from asyncz.stores.file import FileStore

        return FileStore(self.tasks)

    def raw(self) -> dict:
        out = {}
        for n in os.listdir(self.tasks):
            if n.endswith(".task") and not n.startswith("."):
                with open(os.path.join(self.tasks, n), "rb") as f:
                    out[n[:-5]] = f.read()
        return out

    def put_raw(self, task_id: str, data: bytes) -> None:
        with open(os.path.join(self.tasks, task_id + ".task"), "wb") as f:
            f.write(data)

    def cleanup(self) -> None:
        shutil.rmtree(self.dir, ignore_errors=True)


class SQLBackend(Backend):
    kind = "sql"

    def setup(self) -> None:
        self.path = os.path.join(self.ctx.dir, f"s{next(self.ctx.seq)}.db")

    def make(self) -> Any:
        from asyncz.stores.sqlalchemy import SQLAlchemyStore

        return SQLAlchemyStore(database=f"sqlite:///{self.path}")

    def _sql(self, q: str, *a: Any) -> list:
        import sqlite3

        c = sqlite3.connect(self.path)
        try:
            r = c.execute(q, a).fetchall()
            c.commit()
            return r
        finally:
            c.close()

    def raw(self) -> dict:
        return dict(self._sql("select id, state from asyncz_store"))

    def put_raw(self, task_id: str, data: bytes) -> None:
        if not self._sql("select 1 from asyncz_store where id=?", task_id):
            self._sql("insert into asyncz_store(id, next_run_time, state) values (?,?,?)", task_id, 1.0, data)
        else:
            self._sql("update asyncz_store set state=? where id=?", data, task_id)

    def cleanup(self) -> None:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(self.path)


class RedisBackend(Backend):
    kind = "redis"

    def setup(self) -> None:
        self.ctx.redis_start()
        self.n = next(self.ctx.seq)

    def make(self) -> Any:
        from asyncz.stores.redis import RedisStore

        return RedisStore(
            tasks_key=f"t{self.n}", run_times_key=f"r{self.n}", unix_socket_path=self.ctx.redis_socket
        )

    def raw(self) -> dict:
        return {k.decode(): v for k, v in self.ctx.redis_client().hgetall(f"t{self.n}").items()}

    def put_raw(self, task_id: str, data: bytes) -> None:
        c = self.ctx.redis_client()
        if not c.hexists(f"t{self.n}", task_id):
            c.zadd(f"r{self.n}", {task_id: 1.0})
        c.hset(f"t{self.n}", task_id, data)

    def cleanup(self) -> None:
        self.ctx.redis_client().delete(f"t{self.n}", f"r{self.n}")


class MongoBackend(Backend):
    kind = "mongo"

    def setup(self) -> None:
        self.data: dict = {}

    def make(self) -> Any:
        from asyncz.stores.mongo import MongoDBStore

        return MongoDBStore(client=FakeMongo(self.data))

    def _docs(self) -> dict:
        return self.data.setdefault(("asyncz", "tasks"), {})

    def raw(self) -> dict:
        return {k: bytes(d["state"]) for k, d in self._docs().items()}

    def put_raw(self, task_id: str, data: bytes) -> None:
        from bson.binary import Binary

        d = self._docs().setdefault(task_id, {"_id": task_id, "next_run_time": 1.0})
        d["state"] = Binary(data)


CLASSES = {c.kind: c for c in (MemoryBackend, FileBackend, SQLBackend, RedisBackend, MongoBackend)}


class Session:
    def __init__(self) -> None:
        self.dir = tempfile.mkdtemp(prefix="vpb", dir=scratch_root())
        self.seq = itertools.count()
        self.redis_proc: Any = None
        self._client: Any = None
        self.scheduler = scheduler()

    @property
    def redis_socket(self) -> str:
        return os.path.join(self.dir, "redis.sock")

    def redis_start(self) -> None:
        if self.redis_proc is not None:
            return
        self.redis_proc = subprocess.Popen(
            ["redis-server", "--port", "0", "--unixsocket", self.redis_socket, "--save", "", "--appendonly", "no", "--dir", self.dir],
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
        )
        for _ in range(500):
            with contextlib.suppress(Exception):
                if self.redis_client().ping():
                    return
            time.sleep(0.02)
        raise HarnessGap("redis-server does not start")

    def redis_client(self) -> Any:
        if self._client is None:
            from redis import Redis

            self._client = Redis(unix_socket_path=self.redis_socket)
        return self._client

    def __call__(self, kind: str) -> Backend:
        return CLASSES[kind](self)

    def close(self) -> None:
        if self.redis_proc is not None:
            self.redis_proc.kill()
            self.redis_proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


CURRENT: Optional[Session] = None


@contextlib.contextmanager
def session():
    global CURRENT
    os.environ.pop(KEY_ENV, None)
    CURRENT = Session()
    try:
        yield CURRENT
    finally:
        CURRENT.close()
        CURRENT = None


@contextlib.contextmanager
def key(value: Optional[str]):
    old = os.environ.pop(KEY_ENV, None)
    if value is not None:
        os.environ[KEY_ENV] = value
    try:
        yield
    finally:
        os.environ.pop(KEY_ENV, None)
        if old is not None:
            os.environ[KEY_ENV] = old
