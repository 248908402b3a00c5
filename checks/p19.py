"""P19: events report exactly the changes that happened, to exactly who asked."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from checks.p17 import LifeWorld
from vp import backends
from vp import world as W
from vp.runner import Outcome, Part, check

PROPERTY = "P19"
RULE = (
    "A case is a scheduler and a history of up to 24 operations - everything that changes tasks, stores, executors and the scheduler's "
    "state, valid and refused, with rounds and runs - in which listeners with any combination of event kinds are added (also twice, "
    "also raising, removing themselves or adding another listener when called) and removed. The full event stream is compared with a "
    "reference model (kinds, ids, stores, run times, sources, order per task), every event is checked to come after its change is "
    "visible, and every listener must have got exactly the events of its kinds while it was registered. Non-trivial: at least three "
    "different kinds of event, and a listener that saw some of the events but not all."
)

BITS = [getattr(W, n) for n in dir(W) if n.startswith("E_")]


class Ear:
    def __init__(self, world: Any, name: str, kind: str) -> None:
        self.world, self.name, self.kind, self.got = world, name, kind, []

    def hear(self, e: Any) -> None:
        self.got.append(e)
        if self.kind == "once":
            self.world.s.remove_listener(self.hear)
        elif self.kind == "adds" and self.name + "+" not in self.world.ears:
            x = self.world.ears[self.name + "+"] = Ear(self.world, self.name + "+", "plain")
            self.world.s.add_listener(x.hear, W.E_MODIFIED | W.E_SUBMITTED | W.E_ADDED | W.E_PAUSED)
        elif self.kind == "raises":
            raise KeyError("listener")


class EventWorld(LifeWorld):
    def _build(self) -> None:
        self.ears: dict = {}
        self.reg: list = []  # (name, mask) as registered
        self.want: dict = {}
        self.stream: list = []
        self.seen_mod: list = []
        super()._build()
        self.seen_codes: set = set()
        self.total = 0
        del self.stream[:]

    def on_event(self, e: Any) -> None:
        self.stream.append(e)
        super().on_event(e)

    def visible(self, e: Any) -> None:
        super().visible(e)
        s = self.s
        if e.code == W.E_EXADD:
            check(e.alias in s.executors, f"'executor added' announced before {e.alias!r} is there")
        elif e.code == W.E_EXREM:
            check(e.alias not in s.executors, f"'executor removed' announced while {e.alias!r} is there")
        elif e.code == W.E_STADD:
            check(e.alias in s.stores, f"'store added' announced before {e.alias!r} is there")
        elif e.code == W.E_STREM:
            check(e.alias not in s.stores, f"'store removed' announced while {e.alias!r} is there")
        elif e.code == W.E_MODIFIED and self.state != "stopped":
            t = s.get_task(e.task_id, e.store)
            check(t is not None, f"'modified' announced of {e.task_id!r} which is not there")
            self.seen_mod.append((e.store, e.task_id, W.real_view(t)))

    # listeners

    def do_lon(self, op: dict) -> Any:
        name = op["slot"]
        ear = self.ears.get(name)
        if ear is None:
            ear = self.ears[name] = Ear(self, name, op["kind"])
            self.want[name] = []
        if op["mask"] is None:
            return self.s.add_listener(ear.hear)
        return self.s.add_listener(ear.hear, op["mask"])

    def model_lon(self, op: dict, real: Any) -> Any:
        self.reg.append((op["slot"], (1 << 17) - 1 if op["mask"] is None else op["mask"]))

    def do_loff(self, op: dict) -> Any:
        ear = self.ears.get(op["slot"])
        return self.s.remove_listener(ear.hear if ear else print)

    def model_loff(self, op: dict, real: Any) -> Any:
        for i, (n, _) in enumerate(self.reg):
            if n == op["slot"]:
                del self.reg[i]
                return True
        return False

    def apply(self, op: dict) -> Any:
        del self.stream[:], self.seen_mod[:]
        self.op = op["op"]
        return super().apply(op)

    def compare(self) -> None:
        super().compare()
        self.total += len(self.stream)
        for e in self.stream:
            self.seen_codes.add(e.code)
            check(getattr(e, "scheduler_identity", None) in (None, self.s.identity), lambda: f"{self.what}: an event names the scheduler {e.scheduler_identity!r}")
            for n, mask in list(self.reg):
                # an event whose dispatch removed one registration of a listener still reaches the others
                if not mask & e.code:
                    continue
                self.want[n].append(e)
                ear = self.ears[n]
                if ear.kind == "once":
                    for i, (m, _) in enumerate(self.reg):
                        if m == n:
                            del self.reg[i]
                            break
                elif ear.kind == "adds" and n + "+" not in self.want:
                    self.want[n + "+"] = []
                    self.reg.append((n + "+", W.E_MODIFIED | W.E_SUBMITTED | W.E_ADDED | W.E_PAUSED))
        for n, want in self.want.items():
            got = self.ears[n].got if n in self.ears else None
            check(got is not None and [id(e) for e in got] == [id(e) for e in want],
                  lambda: f"{self.what}: listener {n} ({self.ears[n].kind}, registered as {[m for k, m in self.reg if k == n]}) got {W.nice([self.event_view(e) for e in got or []][-6:])}, expected {W.nice([self.event_view(e) for e in want][-6:])}")  # fmt: skip
        # with no round in between the announced state is the final one
        if self.loop is None and self.seen_mod and self.op in ("upd", "tpause", "tresume", "resched"):
            store, tid, view = self.seen_mod[-1]
            t = self.s.get_task(tid, store)
            if t is not None:
                now = W.real_view(t)
                check(view == now, lambda: f"{self.what}: 'modified' of {tid!r} was announced before the change was there: {W.diff(view, now)}")


OPS = {"lon": 4, "loff": 2, "start": 1, "shutdown": 1, "pause": 1, "resume": 1, "exadd": 1, "exrem": 1, "stadd": 1, "strem": 1, "add": 4, "adv": 4, "round": 4, "tpause": 1, "tresume": 1, "upd": 2, "resched": 1, "run": 2, "del": 1, "clear": 1, "fin": 1}

masks = st.one_of(st.none(), st.sampled_from(BITS), st.lists(st.sampled_from(BITS), max_size=6).map(lambda b: sum(set(b))), st.integers(0, (1 << 17) - 1))


@st.composite
def histories(draw):
    cfg = draw(W.config(driver=("manual", "manual", "loop"), disks=(None, "file", "sql")))
    cfg["bare"] = []
    names = [k for k, n in OPS.items() for _ in range(n)]
    ops: list = [{"op": "lon", "slot": "A", "mask": draw(masks), "kind": "plain"}, draw(W.add_op(cfg))]
    if draw(st.integers(0, 3)):
        ops.append({"op": "start", "paused": False})
    for _ in range(draw(st.integers(7, 22))):
        k = draw(st.sampled_from(names))
        known = [(o["id"], o["store"] or "default") for o in ops if o["op"] == "add"]
        if k == "lon":
            ops.append({"op": k, "slot": draw(st.sampled_from("ABC")), "mask": draw(masks), "kind": draw(st.sampled_from(["plain", "plain", "once", "adds", "raises"]))})
        elif k == "loff":
            ops.append({"op": k, "slot": draw(st.sampled_from("ABCAZ"))})
        elif k in ("exadd", "stadd"):
            kind = draw(st.sampled_from(["new", "new", "new", "name", "unknown", "wrong"]))
            alias = "n" if kind == "name" and k == "exadd" else draw(st.sampled_from(["p", "q", "default"]))
            ops.append({"op": k, "alias": alias, "kind": kind})
        elif k in ("exrem", "strem"):
            ops.append({"op": k, "alias": draw(st.sampled_from(["p", "q", "nowhere", "n"])), "stop": draw(st.booleans())})
        elif k == "add":
            o = draw(W.add_op(cfg))
            if draw(st.integers(0, 4)) == 4:
                o["store"] = "p"
                o["id"] = o["id"][0] + "p"
            ops.append(o)
        else:
            ops.append(draw(W.an_op(cfg, {k: 1}, known)))
    return {"cfg": cfg, "ops": ops}


def run(c):
    w = W.play(c, EventWorld)
    some = any(0 < len(v) < w.total for v in w.want.values())
    return Outcome(len(w.seen_codes) >= 3 and some, [W.NAMES[k] for k in sorted(w.seen_codes)])


PARTS = [Part("history", histories, run, quick=4000, thorough=100000, setup=backends.session)]
