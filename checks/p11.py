"""P11: what a durable store accepted is still there after a restart, and only that."""

from __future__ import annotations

import contextlib
import os
import pickle
import resource
import shutil
import tempfile
from typing import Optional

from hypothesis import strategies as st

from vp import backends
from vp import clock
from vp import sched as S
from vp import taskgen as G
from vp import tasks as T
from vp import tz as TZ
from vp.runner import Outcome, Part, check

PROPERTY = "P11"
RULE = (
    "restart: a history of scheduler operations on a durable store, with the scheduler shut down or abandoned and a new one "
    "opened at random points; damage: records of a filled store are damaged (truncated, garbage, other pickles, unknown "
    "callable/version) or reads fail for lack of file descriptors or are interrupted (Ctrl+C), then the store is read; paths: arbitrary ids on a file "
    "store in a nested scratch directory surrounded by sentinel files, as an unprivileged user. Non-trivial: a restart with "
    "at least one task / a damaged record among readable ones / an interrupted restore / an id that is not a plain name."
)

# ------------------------------------------------------------------ restart


@st.composite
def restart_case(draw):
    op = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["add", "add", "add", "replace", "pause", "resume", "delete", "reschedule", "clear", "restart", "abandon", "restart"]),
            "id": st.sampled_from(T.IDS[:5]),
            "def": T.definition(),
            "step": st.integers(0, 5000),
        }
    )
    return {"kind": draw(st.sampled_from(backends.DURABLE)), "ops": draw(st.lists(op, min_size=4, max_size=10))}


def run_restart(c):
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    b = backends.CURRENT(c["kind"])
    model: dict = {}
    restarts = 0

    def fresh():
        s = S.manual(stores={"default": b.make()}, executors={"default": S.recorder_executor(), "other": S.recorder_executor()})
        s.start(paused=True)
        return s

    try:
        with clock.virtual(TZ.at(G.T0)):
            s = fresh()
            for i, o in enumerate(c["ops"]):
                clock.advance(o["step"])
                k, tid = o["op"], o["id"]
                what = f"{c['kind']}: op {i} ({k} {tid!r})"
                try:
                    if k in ("add", "replace"):
                        a = o["def"]["attrs"]
                        t = s.add_task(
                            f"vp.targets:{_name(a['fn'])}",
                            trigger=G.build(o["def"]["tree"]),
                            args=a["args"],
                            kwargs=a["kwargs"],
                            id=tid,
                            name=a["name"],
                            mistrigger_grace_time=a["grace"],
                            coalesce=a["coalesce"],
                            max_instances=a["max_instances"],
                            executor="other" if a["executor"] == "other" else "default",
                            replace_existing=k == "replace",
                            **({} if o["def"]["next"] is None else {"next_run_time": TZ.at(o["def"]["next"])}),
                        )
                        check(k == "replace" or tid not in model, f"{what}: an existing id was added again")
                        model[tid] = T.public(t)
                    elif k == "pause":
                        model[tid] = T.public(s.pause_task(tid))
                    elif k == "resume":
                        t = s.resume_task(tid)
                        if t is None:
                            del model[tid]
                        else:
                            model[tid] = T.public(t)
                    elif k == "reschedule":
                        model[tid] = T.public(s.reschedule_task(tid, trigger=G.build(o["def"]["tree"])))
                    elif k == "delete":
                        s.delete_task(tid)
                        del model[tid]
                    elif k == "clear":
                        s.remove_all_tasks(None)
                        model.clear()
                    else:
                        if k == "restart":
                            s.shutdown()
                            # shutdown tasks run at shutdown and are gone then (P24)
                            for x in [x for x, m in model.items() if "Shutdown" in m["trigger"]]:
                                del model[x]
                        restarts += bool(model)
                        s = fresh()
                except ConflictIdError:
                    check(k == "add" and tid in model, f"{what}: refused although the id was free")
                except TaskLookupError:
                    check(tid not in model, f"{what}: stored task not found")
                got = {t.id: T.public(t) for t in s.get_tasks()}
                check(got == model, lambda: f"{what}: the store shows {got}, accepted were {model}")
            for x in (b.raw().keys(), {t.id for t in b.open().get_all_tasks()}):
                check(set(x) == set(model), f"{c['kind']}: after the history the backend holds {set(x)}, accepted were {set(model)}")
    finally:
        b.dispose()
    return Outcome(restarts > 0, [c["kind"], f"restarts{min(restarts, 3)}"])


def _name(fn):
    from vp.targets import FNS

    return FNS[fn][0].__qualname__


# ------------------------------------------------------------------ damage

DAMAGE = ["truncate", "garbage", "empty", "append", "other_pickle", "bad_class", "bad_callable", "bad_version", "bad_entity", "bad_shape", "raises"]


class Exploding:
    def __reduce__(self):
        return (_boom, ())


def _boom():
    raise RuntimeError("boom while unpickling")


@st.composite
def damage_case(draw):
    n = draw(st.integers(2, 5))
    hurt = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    return {
        "kind": draw(st.sampled_from(backends.DURABLE)),
        "defs": draw(st.lists(T.definition(), min_size=n, max_size=n)),
        "hurt": [[h, draw(st.sampled_from(DAMAGE)), draw(st.integers(0, 200)), draw(st.lists(st.integers(0, 255), max_size=6))] for h in hurt],
        "reads": draw(st.lists(st.sampled_from(["all", "due", "lookup", "next", "lookup_ok"]), min_size=1, max_size=4)),
        "at": draw(T.instant),
    }


def hurt_bytes(how, raw, n, junk, store, task):
    from asyncz.stores.persistence import TaskStateEnvelope

    if how == "truncate":
        return raw[: n % max(1, len(raw) - 1)]
    if how == "garbage":
        return b"\x00" + bytes(junk) + raw[1 + n :]
    if how == "empty":
        return b""
    if how == "append":
        return b"\xff" + raw
    if how == "other_pickle":
        return pickle.dumps({"id": task.id, "n": n})
    if how == "bad_class":
        return raw.replace(b"TaskStateEnvelope", b"TaskStateEnvelopX").replace(b"TaskState", b"TaskStatX")
    if how == "raises":
        return pickle.dumps(Exploding())
    env = store.serialize_task_state(task)
    kw = dict(entity=env.entity, version=env.version, shape=env.shape, payload=env.payload)
    if how == "bad_version":
        kw["version"] = 2 + n
    elif how == "bad_entity":
        kw["entity"] = "task"
    elif how == "bad_shape":
        kw["shape"] = f"no-shape-{n}"
    elif how == "bad_callable":
        st_ = kw["payload"].model_copy()
        st_.fn = st_.fn_reference = "vp.targets:gone_callable"
        kw["payload"] = st_
    return pickle.dumps(TaskStateEnvelope(**kw))


def observe_due(s, tasks, at, what):
    nxt = s.get_next_run_time()
    nxt = None if nxt is None else TZ.us(nxt)
    first = min((t["next"] for t in tasks if t["next"] is not None), default=None)
    check(nxt == first, lambda: f"{what}: next run time {nxt}, earliest is {first}")
    due = sorted(t.id for t in s.get_due_tasks(TZ.at(at)))
    want = sorted(t["id"] for t in tasks if t["next"] is not None and t["next"] <= at)
    check(due == want, lambda: f"{what}: due at {at} are {due}, expected {want}")


def run_damage(c):
    b = backends.CURRENT(c["kind"])
    try:
        s = b.open()
        tasks = [T.make(T.IDS[i], d, b.sched) for i, d in enumerate(c["defs"])]
        for t in tasks:
            s.add_task(t)
        raw = b.raw()
        check(set(raw) == {t.id for t in tasks}, "harness: records are not where they are expected")
        for i, how, n, junk in c["hurt"]:
            b.put_raw(tasks[i].id, hurt_bytes(how, raw[tasks[i].id], n, junk, s, tasks[i]))
        bad = {tasks[i].id: how for i, how, _, _ in c["hurt"]}
        good = {t.id: T.public(t) for t in tasks if t.id not in bad}
        b.close_store(s)
        s = b.open()
        for r in c["reads"] + ["all", "all"]:
            what = f"{c['kind']}, {r} with damaged {bad}"
            if r == "all":
                got = {t.id: T.public(t) for t in s.get_all_tasks()}
                check(got == good, lambda: f"{what}: {got}, readable are {good}")
            elif r == "due":
                got = {t.id: T.public(t) for t in s.get_due_tasks(TZ.at(c["at"]))}
                want = {k: v for k, v in good.items() if v["next"] is not None and v["next"] <= c["at"]}
                check(got == want, lambda: f"{what}: {got}, readable due tasks are {want}")
            elif r == "lookup_ok":
                for k, v in good.items():
                    t = s.lookup_task(k)
                    check(t is not None and T.public(t) == v, lambda: f"{what}: {k} reads {t!r}")
            elif r == "lookup":
                for k in bad:
                    try:
                        t = s.lookup_task(k)
                    except Exception:
                        t = None
                    check(t is None, lambda: f"{what}: the damaged record of {k} was restored as {t!r}")
            else:
                s.get_next_run_time()
            left = b.raw()
            check(all(left.get(k) == raw[k] for k in good), lambda: f"{what}: readable records {sorted(set(good) - set(left))} were removed or changed")
        observe_due(s, list(good.values()), c["at"], f"{c['kind']}, after the damaged {bad} were removed")
        # the damaged ids are usable again
        for i, _, n, _ in c["hurt"]:
            if n % 3 == 0:
                tasks[i].next_run_time = None
            s.add_task(tasks[i])
        want = {t.id: T.public(t) for t in tasks}
        got = {t.id: T.public(t) for t in s.get_all_tasks()}
        check(got == want, lambda: f"{c['kind']}: ids of removed damaged records cannot be used again: {got}")
        observe_due(s, list(want.values()), c["at"], f"{c['kind']}, after the damaged {bad} were added again")
    finally:
        b.dispose()
    return Outcome(bool(good), [c["kind"], *sorted(set(bad.values()))])


# ------------------------------------------------------------------ reads that fail


@st.composite
def starve_case(draw):
    n = draw(st.integers(1, 4))
    return {
        "kind": draw(st.sampled_from(["file", "file", "sql"])),
        "defs": draw(st.lists(T.definition(), min_size=n, max_size=n)),
        "free": draw(st.integers(0, 4)),
        "reads": draw(st.lists(st.sampled_from(["all", "due", "lookup", "next"]), min_size=1, max_size=3)),
        "fresh": draw(st.booleans()),
    }


@contextlib.contextmanager
def few_descriptors(free):
    """Leaves `free` file descriptors to the code under test."""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    fillers = []
    fd = os.open(os.devnull, os.O_RDONLY)
    top = fd
    # plug holes below the top so that the limit is exact
    while True:
        x = os.open(os.devnull, os.O_RDONLY)
        fillers.append(x)
        if x > top:
            break
    used = max(int(f) for f in os.listdir("/proc/self/fd"))
    while max(fillers) < used - 1 and len(fillers) < 200:
        fillers.append(os.open(os.devnull, os.O_RDONLY))
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(fillers + [fd]) + 1 + free, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        os.close(fd)
        for x in fillers:
            os.close(x)


def run_starve(c):
    b = backends.CURRENT(c["kind"])
    failed = 0
    try:
        s = b.open()
        tasks = [T.make(T.IDS[i], d, b.sched) for i, d in enumerate(c["defs"])]
        for t in tasks:
            s.add_task(t)
        raw = b.raw()
        if c["fresh"]:
            b.close_store(s)
            s = b.open()
        with few_descriptors(c["free"]):
            for r in c["reads"]:
                try:
                    if r == "all":
                        s.get_all_tasks()
                    elif r == "due":
                        s.get_due_tasks(TZ.at(G.T0))
                    elif r == "next":
                        s.get_next_run_time()
                    else:
                        for t in tasks:
                            s.lookup_task(t.id)
                except Exception:
                    failed += 1
        left = b.raw()
        check(left == raw, lambda: f"{c['kind']}: reading with {c['free']} free file descriptors removed the readable records {sorted(set(raw) - set(left))}")
        got = {t.id: T.public(t) for t in s.get_all_tasks()}
        check(got == {t.id: T.public(t) for t in tasks}, lambda: f"{c['kind']}: after failed reads the store shows {got}")
    finally:
        b.dispose()
    return Outcome(failed > 0, [c["kind"], f"free{c['free']}", "failed" if failed else "enough"])


# ------------------------------------------------------------------ reads that are interrupted


class Guarded:
    """Restoring it is interrupted when its turn has come."""

    left: object = None  # restores until the interruption
    how: type = KeyboardInterrupt

    def __init__(self, n):
        self.n = n

    def __setstate__(self, state):
        self.__dict__.update(state)
        if Guarded.left is not None:
            Guarded.left -= 1
            if Guarded.left < 0:
                Guarded.left = None
                raise Guarded.how("stop")


INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}


@st.composite
def interrupt_case(draw):
    n = draw(st.integers(1, 4))
    return {
        "kind": draw(st.sampled_from(backends.DURABLE)),
        "defs": draw(st.lists(T.definition(), min_size=n, max_size=n)),
        "reads": draw(st.lists(st.tuples(st.sampled_from(["all", "due", "lookup", "next"]), st.integers(0, 4), st.sampled_from(sorted(INTERRUPTS))).map(list), min_size=1, max_size=3)),
        "at": draw(T.instant),
    }


def run_interrupt(c):
    b = backends.CURRENT(c["kind"])
    hit = 0
    Guarded.left = None
    try:
        s = b.open()
        tasks = [T.make(T.IDS[i], d, b.sched) for i, d in enumerate(c["defs"])]
        for i, t in enumerate(tasks):
            t.kwargs = {"guard": Guarded(i)}
            s.add_task(t)
        raw = b.raw()
        for r, after, how in c["reads"]:
            Guarded.left, Guarded.how = after, INTERRUPTS[how]
            what = f"{c['kind']}: {r} interrupted by {how} at restore {after}"
            try:
                if r == "all":
                    s.get_all_tasks()
                elif r == "due":
                    s.get_due_tasks(TZ.at(c["at"]))
                elif r == "next":
                    s.get_next_run_time()
                else:
                    for t in tasks:
                        s.lookup_task(t.id)
            except (KeyboardInterrupt, SystemExit):
                hit += 1
            finally:
                Guarded.left = None
            left = b.raw()
            check(left == raw, lambda: f"{what}: the readable records {sorted(set(raw) - set(left))} were removed")
            got = sorted(t.id for t in s.get_all_tasks())
            check(got == sorted(raw), lambda: f"{what}: afterwards the store shows {got}")
    finally:
        Guarded.left = None
        b.dispose()
    return Outcome(hit > 0, [c["kind"], "interrupted" if hit else "not reached"])


# ------------------------------------------------------------------ paths

NOBODY = 65534
piece = st.sampled_from(["..", ".", "a", "b", "sentinel", "~", "x.task", "", "%2e", "..%2f", "ä", "*", "[ab]", "$HOME", "-rf", "a\n", "con"])


@st.composite
def path_id(draw):
    k = draw(st.integers(0, 6))
    if k == 6:
        return {"own": draw(st.integers(0, 5)), "cut": draw(st.sampled_from([0, 0, 5, 32])), "rel": draw(st.sampled_from(["", "x", "0"]))}
    if k <= 2:
        parts = draw(st.lists(piece, min_size=1, max_size=5))
        return {"rel": draw(st.sampled_from(["/", "/", "\\", ":", "\0", ""])).join(parts)}
    if k == 3:
        return {"abs": draw(st.sampled_from(["sentinel", "up/sentinel", "new"]))}
    if k == 4:
        return {"rel": draw(st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="/"), max_size=8))}
    return {"rel": draw(st.sampled_from(["a", "b", "sentinel", "../sentinel", "../../sentinel", "x/../../sentinel", "..", ".", "a" * 260]))}


@st.composite
def path_case(draw):
    return {
        "ids": draw(st.lists(path_id(), min_size=1, max_size=4)),
        "ops": draw(st.lists(st.tuples(st.sampled_from(["add", "update", "lookup", "delete", "all", "clear"]), st.integers(0, 3)), min_size=1, max_size=8)),
        "cleanup": draw(st.booleans()),
        "suffix": draw(st.sampled_from([".task", ".task", "", ".t*sk", "[a]", ".x"])),
    }


def tree_state(root, skip):
    out = {}
    for d, dirs, files in os.walk(root):
        if os.path.abspath(d) == skip:
            dirs[:] = []
            continue
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
        out[d] = "dir"
    return out


def safe_rel(text):
    """Relative ids climb at most five levels (the scratch directory is deeper), and never start at the root."""
    return not text.startswith("/") and text.count("..") <= 5


OWN: Optional[list] = None
LISTEN: Optional[set] = None


def listener(event, args):
    if LISTEN is not None and event in ("open", "os.rename", "os.remove"):
        LISTEN.update(os.path.basename(os.fsdecode(a)) for a in args[:2] if isinstance(a, (str, bytes, os.PathLike)))


def own_names(sched):
    """The names of the files a store works with in its directory, without a task of that name."""
    global OWN, LISTEN
    if OWN is None:
        import sys

        from asyncz.stores.file import FileStore
        from asyncz.tasks import Task

        sys.addaudithook(listener)
        LISTEN = set()
        with tempfile.TemporaryDirectory(dir=backends.CURRENT.dir) as d:
            s = FileStore(d, suffix=".tsk")
            s.start(sched, "default")
            s.add_task(Task("vp.targets:plain", id="probe", trigger=G.build({"k": "shutdown"}), scheduler=sched, executor="default", store_alias="default"))
            s.get_all_tasks()
            s.delete_task("probe")
            s.shutdown()
            OWN = sorted({n for n in LISTEN if n.startswith(".") or "asyncz" in n} - {os.path.basename(d)}) or ["a"]
        LISTEN = None
    return OWN


def run_paths(c):
    from asyncz.exceptions import ConflictIdError, TaskLookupError
    from asyncz.stores.file import FileStore
    from asyncz.tasks import Task

    base = backends.CURRENT.dir
    root = tempfile.mkdtemp(prefix="paths", dir=base)
    deep = os.path.join(root, "1", "2", "3", "4", "5", "up")
    os.makedirs(deep)
    tasks_dir = os.path.join(deep, "tasks")
    d = deep
    while d.startswith(root):
        for n in ("sentinel", "sentinel" + c["suffix"], "a" + c["suffix"], "x.task"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"precious")
        d = os.path.dirname(d)
    ids = []
    for i in c["ids"]:
        if "abs" in i:
            ids.append(os.path.join(deep, "..", i["abs"]) if i["abs"].startswith("up") else os.path.join(deep, i["abs"]))
        elif "own" in i:
            name = own_names(backends.CURRENT.scheduler)[i["own"] % len(OWN)]
            ids.append(name[: len(name) - i["cut"]] + i["rel"])
        else:
            ids.append(i["rel"] if safe_rel(i["rel"]) else "a")
    for d, dirs, files in os.walk(root):
        os.chown(d, NOBODY, NOBODY)
        for f in files:
            os.chown(os.path.join(d, f), NOBODY, NOBODY)
    for d in (base, os.path.dirname(base), os.path.dirname(os.path.dirname(base))):
        if d.startswith(("/dev/shm/", "/tmp/")):
            with contextlib.suppress(OSError):
                os.chmod(d, 0o755)
    before = tree_state(root, tasks_dir)
    held: dict = {}
    odd = False
    sched = backends.CURRENT.scheduler
    cwd = os.getcwd()
    os.chdir(deep)
    os.setegid(NOBODY)
    os.seteuid(NOBODY)
    try:
        s = FileStore(tasks_dir, suffix=c["suffix"], cleanup_directory=c["cleanup"])
        s.start(sched, "default")
        for k, n in c["ops"]:
            tid = ids[n % len(ids)]
            what = f"{k} {tid!r} (suffix {c['suffix']!r})"
            plain = tid in ("a", "b")
            odd = odd or (k in ("add", "update", "lookup", "delete") and not plain)
            task = Task("vp.targets:plain", id=tid, trigger=G.build({"k": "shutdown"}), scheduler=sched, executor="default", mistrigger_grace_time=n + 1, coalesce=True, max_instances=1, store_alias="default")
            try:
                if k == "add":
                    s.add_task(task)
                    check(tid not in held, f"{what}: added twice")
                    held[tid] = n + 1
                elif k == "update":
                    s.update_task(task)
                    check(tid in held, f"{what}: an unknown id was changed")
                    held[tid] = n + 1
                elif k == "lookup":
                    t = s.lookup_task(tid)
                    check((None if t is None else (t.id, t.mistrigger_grace_time)) == ((tid, held[tid]) if tid in held else None), lambda: f"{what}: found {t!r}, held {held}")
                elif k == "delete":
                    s.delete_task(tid)
                    check(held.pop(tid, None) is not None, f"{what}: an unknown id was deleted")
                elif k == "clear":
                    s.remove_all_tasks()
                    held.clear()
                else:
                    got = {t.id: t.mistrigger_grace_time for t in s.get_all_tasks()}
                    check(got == held, lambda: f"{what}: shows {got}, held {held}")
            except ConflictIdError:
                check(tid in held or not plain, f"{what}: refused as existing")
            except TaskLookupError:
                check(tid not in held or not plain, f"{what}: refused as unknown")
            except (RuntimeError, OSError, ValueError, AssertionError) as exc:
                check(not plain, f"{what}: refused: {exc!r}")
        if "" != c["suffix"] or set(held) <= {"a", "b"}:
            got = {t.id: t.mistrigger_grace_time for t in s.get_all_tasks()}
            check(got == held, lambda: f"ids {ids}, operations {c['ops']} (suffix {c['suffix']!r}): at last shows {got}, held {held}")
        s.shutdown()
    finally:
        os.seteuid(0)
        os.setegid(0)
        os.chdir(cwd)
    try:
        after = tree_state(root, tasks_dir)
        diff = {p: (before.get(p), after.get(p)) for p in set(before) | set(after) if before.get(p) != after.get(p)}
        check(not diff, lambda: f"ids {ids}, operations {c['ops']}: changed outside the store directory: { {os.path.relpath(p, deep): v for p, v in diff.items()} }")
        check(c["cleanup"] == (not os.path.exists(tasks_dir)), "clean-up of the directory at shutdown")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Outcome(odd, ["odd" if odd else "plain", f"suffix{c['suffix']}"])


PARTS = [
    Part("restart", restart_case, run_restart, quick=1200, thorough=40000, setup=backends.session),
    Part("damage", damage_case, run_damage, quick=1200, thorough=40000, setup=backends.session),
    Part("starve", starve_case, run_starve, quick=500, thorough=10000, setup=backends.session),
    Part("interrupted", interrupt_case, run_interrupt, quick=800, thorough=20000, setup=backends.session),
    Part("paths", path_case, run_paths, quick=1200, thorough=40000, setup=backends.session),
]
