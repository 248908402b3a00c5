"""P20: inspection, filters and previews tell the truth and change nothing."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from vp import backends
from vp import tz as TZ
from vp import world as W
from vp.runner import Outcome, Part, check
from vp.world import SEC, T0

PROPERTY = "P20"
RULE = (
    "A case is a scheduler (stopped, running or paused; memory plus optionally a file or SQLite store) with a history of management "
    "calls, rounds and passing time, mixed with inspection: listings with any combination of store, state, executor, trigger and text "
    "filters (values taken from and near the held tasks, in other letter case, with blanks, and unknown ones) in every sort order, "
    "single snapshots, previews with counts inside and outside the bounds and other instants, and scheduler summaries. Every answer is "
    "compared with one computed from the reference model and the held tasks; after it all tasks, submissions, events and earlier "
    "snapshots must be unchanged. Non-trivial: some listing selected some but not all tasks, or a preview had at least two runs."
)

SORTS = ["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"]
IDMAP = {"a": "Alpha", "b": "beta", "c": "Ätna", "d": "d.x", "a2": "alpha 2", "b2": "Zeta", "c2": "c_2", "d2": "scheduled"}


NAMES = {"store": {"disk": "Disk Ä"}, "exec": {"x": "Xtra", "inline": "In Line"}}


class LookWorld(W.World):
    DISK, OTHER, INLINE = "Disk Ä", "Xtra", "In Line"

    def _build(self) -> None:
        super()._build()
        self.kept: list = []
        self.good = 0
        self.started: Any = None

    def model_start(self, op: dict, real: Any) -> Any:
        first = self.refs == 0
        out = super().model_start(op, real)
        if first:
            self.started = self.now
        return out

    # what a snapshot must say, from the model and the held task

    def facts(self) -> list:
        from asyncz.utils import get_callable_name

        out = []
        pend = self.state == "stopped"
        real = {(t.store_alias, t.id, i if pend else 0): t for i, t in enumerate(self.s.get_tasks())}
        for i, m in enumerate(self.model_tasks()):
            t = real[(m.store, m.id, i if pend else 0)]
            v = m.view()
            v["state"] = "pending" if pend else "paused" if m.next is None else "scheduled"
            v["cname"] = m.fn
            v["ref"] = f"vp.targets:{m.fn}"
            v["tclass"] = {"interval": "IntervalTrigger", "date": "DateTrigger", "cron": "CronTrigger", "shutdown": "ShutdownTrigger"}[m.trig.k]
            v["tdesc"] = str(t.trigger)
            v["m"] = m
            v["args"] = tuple(t.args)
            check(get_callable_name(t.fn) == m.fn, "harness: callable name")
            out.append(v)
        return out

    def same(self, info: Any, f: dict) -> None:
        got = {
            "id": info.id, "store": info.store_alias, "next": None if info.next_run_time is None else TZ.us(info.next_run_time),
            "grace": info.mistrigger_grace_time, "coalesce": info.coalesce, "maxi": info.max_instances, "exec": info.executor, "name": info.name,
            "tag": info.args[0] if info.args else None, "trig": info.trigger_alias, "state": info.schedule_state.value, "cname": info.callable_name,
            "ref": info.callable_reference, "tclass": info.trigger_name, "tdesc": info.trigger_description, "args": info.args,
        }  # fmt: skip
        want = {k: v for k, v in f.items() if k != "m"}
        check(got == want, lambda: f"{self.what}: snapshot says {W.diff(got, want)}")
        check(info.pending == (f["state"] == "pending") and info.paused == (f["state"] == "paused"), lambda: f"{self.what}: flags of {info} do not agree with {f['state']}")
        check(info.kwargs == {}, f"{self.what}: kwargs")

    def fixed(self, info: Any, **changes: Any) -> None:
        for k, v in changes.items():
            try:
                setattr(info, k, v)
            except Exception:
                continue
            check(False, f"{self.what}: a snapshot could be changed")
        del self.kept[8:]
        self.kept.insert(0, (info, info.model_dump()))

    def freeze(self, info: Any) -> None:
        info.kwargs["intruder"] = 1  # must not reach the task
        self.fixed(info, name="changed", next_run_time=None, id="zz")

    def compare(self) -> None:
        super().compare()
        for t in self.s.get_tasks():
            check("intruder" not in (t.kwargs or {}), f"{self.what}: changing a snapshot changed the task")
        for info, dump in self.kept:
            check(info.model_dump() == dump, f"{self.what}: an earlier snapshot changed")

    # listings

    def do_infos(self, op: dict) -> Any:
        kw = {k: op[k] for k in ("schedule_state", "executor", "trigger", "q", "sort_by", "descending") if k in op}
        if kw.get("schedule_state") in ("pending", "paused", "scheduled") and op.get("enum"):
            from asyncz.enums import TaskScheduleState

            kw["schedule_state"] = TaskScheduleState(kw["schedule_state"])
        return self.s.get_task_infos(op.get("store"), **kw)

    def model_infos(self, op: dict, real: Any) -> Any:
        state = op.get("schedule_state")
        if state is not None:
            state = state.strip().lower()
            if state not in ("pending", "paused", "scheduled"):
                raise W.Refused("invalid")
        if op.get("sort_by", "next_run_time") not in SORTS:
            raise W.Refused("invalid")
        if real[0] == "err":
            return None
        facts = [f for f in self.facts() if op.get("store") in (None, f["store"])]
        n = len(facts)
        if state is not None:
            facts = [f for f in facts if f["state"] == state]
        if op.get("executor"):
            facts = [f for f in facts if f["exec"] == op["executor"]]
        if op.get("trigger"):
            want = op["trigger"].strip().lower()
            facts = [f for f in facts if want in (f["trig"], f["tclass"].lower())]
        if op.get("q"):
            want = op["q"].strip().lower()
            facts = [f for f in facts if any(want in str(f[k]).lower() for k in ("id", "name", "cname", "ref", "trig", "tclass", "tdesc", "exec", "store", "state"))]
        self.good += 0 < len(facts) < n
        infos = list(real[1])
        check(len(infos) == len(facts), lambda: f"{self.what}: lists {[(i.store_alias, i.id) for i in infos]}, matching are {[(f['store'], f['id']) for f in facts]}")
        left = list(facts)
        order = []
        for i in infos:
            cand = [f for f in left if (f["store"], f["id"], f["tag"]) == (i.store_alias, i.id, i.args[0])]
            check(bool(cand), lambda: f"{self.what}: lists {i.id!r} of {i.store_alias!r}, matching are {[(f['store'], f['id']) for f in facts]}")
            self.same(i, cand[0])
            left.remove(cand[0])
            order.append(cand[0])
        by = op.get("sort_by", "next_run_time")
        key = {
            "next_run_time": lambda f: (f["next"] is None, f["next"] or 0),
            "schedule_state": lambda f: f["state"],
            "executor": lambda f: f["exec"].lower(),
            "id": lambda f: f["id"].lower(),
            "name": lambda f: f["name"].lower(),
            "store": lambda f: f["store"].lower(),
            "trigger": lambda f: f["trig"],
        }[by]
        keys = [key(f) for f in order]
        check(keys == sorted(keys, reverse=bool(op.get("descending"))), lambda: f"{self.what}: listed in order {keys}")
        for i in infos:
            self.freeze(i)
        return real[1]

    # one task

    def do_info(self, op: dict) -> Any:
        return self.s.get_task_info(op["id"], op.get("store"))

    def seek(self, op: dict) -> Any:
        for f in self.facts():
            if f["id"] == op["id"] and op.get("store") in (None, f["store"]):
                return f
        return None

    def model_info(self, op: dict, real: Any) -> Any:
        f = self.seek(op)
        if f is None or real[0] == "err":
            return None
        check(real[1] is not None, lambda: f"{self.what}: no snapshot of a held task")
        self.same(real[1], f)
        self.freeze(real[1])
        return real[1]

    def do_preview(self, op: dict) -> Any:
        kw = {} if op.get("count") is None else {"count": op["count"]}
        if op.get("now") is not None:
            kw["now"] = TZ.at(T0 + op["now"], TZ.get(op.get("zone", "UTC")))
        return self.s.preview_task_runs(op["id"], op.get("store"), **kw)

    def model_preview(self, op: dict, real: Any) -> Any:
        count = 5 if op.get("count") is None else op["count"]
        if not 1 <= count <= 50:
            raise W.Refused("invalid")
        f = self.seek(op)
        if f is None or real[0] == "err":
            return None
        p = real[1]
        check(p is not None, lambda: f"{self.what}: no preview of a held task")
        now = self.now if op.get("now") is None else T0 + op["now"]
        trig = f["m"].trig
        t = f["next"] if f["next"] is not None else trig.first(now)
        want = []
        while t is not None and len(want) < count:
            want.append(t)
            t = trig.after(t, t)
        got = [TZ.us(x) for x in p.run_times]
        check(got == want, lambda: f"{self.what}: previews {[(x - T0) / SEC for x in got]}, would run at {[(x - T0) / SEC for x in want]}")
        check(p.exhausted == (t is None), lambda: f"{self.what}: exhausted is {p.exhausted} after {len(got)} of {count} runs, next would be {t}")
        check(p.requested_count == count and TZ.us(p.generated_at) == now, lambda: f"{self.what}: preview of {p.requested_count} made for {p.generated_at}")
        self.same(p.task, f)
        self.freeze(p.task)
        self.fixed(p, run_times=(), exhausted=None)
        self.good += len(want) >= 2
        return p

    # the whole

    def do_summary(self, op: dict) -> Any:
        return self.s.get_scheduler_info(), self.s.get_scheduler_instance_infos()

    def model_summary(self, op: dict, real: Any) -> Any:
        if real[0] == "err":
            return None
        info, (inst,) = real[1]
        facts = self.facts()
        n = {k: sum(f["state"] == k for f in facts) for k in ("pending", "paused", "scheduled")}
        up = None if self.state == "stopped" else (self.now - self.started) / SEC
        for i in (info, inst):
            got = (i.state_label, int(i.state), i.task_count, i.scheduled_task_count, i.paused_task_count, i.pending_task_count, list(i.executor_aliases), list(i.store_aliases), i.identity, i.uptime_seconds)
            want = (self.state, {"stopped": 0, "running": 1, "paused": 2}[self.state], len(facts), n["scheduled"], n["paused"], n["pending"], sorted(self.execs), sorted(self.stores), self.s.identity, up)
            check(got == want, lambda: f"{self.what}: summary is {got}, expected {want}")
            check((i.started_at is None) == (self.state == "stopped") and (i.started_at is None or TZ.us(i.started_at) == self.started), lambda: f"{self.what}: started at {i.started_at}")
        check(info.running == inst.active == (self.state != "stopped"), lambda: f"{self.what}: running {info.running}, active {inst.active}")
        self.fixed(info, state_label="changed", task_count=-1)
        self.fixed(inst, active=None, task_count=-1)
        return real[1]


OPS = {"infos": 8, "info": 2, "preview": 5, "summary": 2, "add": 5, "adv": 2, "round": 2, "jump": 1, "tpause": 2, "tresume": 1, "upd": 2, "resched": 1, "run": 1, "del": 1, "fin": 1, "start": 1, "shutdown": 1, "pause": 1, "resume": 1}

texts = st.sampled_from(["a", "AL", "alp", " beta ", "ä", "Ä", "zz", "tagged", "TAGGED", "vp.targets", "interval", "Trigger", "cron[", "default", "disk", "Disk", "dISK ä", "Line", "in L", "xtra", "XT", "x", "schedul", "paus", "pending", "0:00:0", "n1", "OTHER", "ü", ".", "%", "_", "*", "1", " "])


@st.composite
def histories(draw):
    cfg = draw(W.config(driver=("manual", "manual", "loop"), disks=(None, "file", "sql"), no_ghosts=True))
    names = [k for k, n in OPS.items() for _ in range(n)]
    ops: list = [draw(W.add_op(cfg)) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 3)):
        ops.append({"op": "start", "paused": draw(st.integers(0, 5)) == 5})
    for _ in range(draw(st.integers(6, 16))):
        k = draw(st.sampled_from(names))
        known = [(o["id"], o["store"] or "default") for o in ops if o["op"] == "add"]
        if k == "infos":
            o: dict = {"op": k}
            maybe = lambda s: draw(st.none() | s)  # noqa: E731
            for f, s in (
                ("store", st.sampled_from(["default", "disk", "nowhere"])),
                ("schedule_state", st.sampled_from(["paused", "scheduled", "pending", " Paused ", "SCHEDULED", "running", ""])),
                ("executor", st.sampled_from(["default", "x", "inline", "inline", "xtra", "nobody", ""])),
                ("trigger", st.sampled_from(["interval", "date", "cron", "DateTrigger", " CRON ", "intervaltrigger", "inter", ""])),
                ("q", texts),
            ):
                v = maybe(s) if draw(st.booleans()) else None
                if v is not None:
                    o[f] = v
            if draw(st.booleans()):
                o["sort_by"] = draw(st.sampled_from([*SORTS, *SORTS, "tag"]))
            if draw(st.booleans()):
                o["descending"] = draw(st.booleans())
            o["enum"] = draw(st.booleans())
            ops.append(o)
        elif k in ("info", "preview"):
            o = draw(W.an_op(cfg, {"get": 1}, known))
            o["op"] = k
            o.pop("obj", None)
            if k == "preview":
                o["count"] = draw(st.sampled_from([None, 1, 2, 3, 10, 50, 0, 51, -1]))
                o["now"] = draw(st.none() | W.offset)
                o["zone"] = draw(st.sampled_from(["UTC", "zi:America/New_York"]))
            ops.append(o)
        elif k == "summary":
            ops.append({"op": k})
        else:
            ops.append(draw(W.an_op(cfg, {k: 1}, known)))
    for o in ops:
        if "id" in o:
            o["id"] = IDMAP.get(o["id"], o["id"])
        for k, names in NAMES.items():
            for d in (o, o.get("ch")):
                if isinstance(d, dict) and isinstance(d.get(k), str):
                    d[k] = names.get(d[k], d[k])
        if o.get("executor") in NAMES["exec"] and o["op"] == "infos":
            o["executor"] = NAMES["exec"][o["executor"]]
    return {"cfg": cfg, "ops": ops}


def run(c):
    w = W.play(c, LookWorld)
    s = w.stats
    return Outcome(w.good >= 1, [k for k in ("infos", "info", "preview", "summary") if s["ok:" + k]] + [c["cfg"]["driver"], str(c["cfg"]["disk"])])


PARTS = [Part("history", histories, run, quick=4000, thorough=100000, setup=backends.session)]
