"""P18: managing tasks has exactly the documented effect, in every scheduler state."""

from __future__ import annotations

from vp import backends
from vp import world as W
from vp.runner import Outcome, Part

PROPERTY = "P18"
RULE = (
    "A case is a scheduler (stopped, running or paused; memory plus optionally a file or SQLite store; task defaults) and a history of "
    "up to 16 management calls - add with and without replacement in every form (callable, trigger alias, Task object, refused object "
    "given again, unknown stores, made-up ids), update (valid and invalid), reschedule, pause, resume, run now, delete, clear - on few "
    "ids by id or object, with starts, shutdowns and passing time in between; the outcome of every call and the collection of tasks "
    "per store afterwards are compared with a model. Non-trivial: at least two calls changed a task that was there."
)

WEIGHTS = {"add": 5, "upd": 4, "resched": 3, "tpause": 2, "tresume": 2, "run": 3, "del": 2, "clear": 1, "get": 1, "retry": 1, "redeco": 1, "start": 1, "shutdown": 1, "pause": 1, "resume": 1, "adv": 2, "round": 2, "fin": 1}


def history():
    return W.history(WEIGHTS, n=(6, 16), prelude=4, start=False, driver=("manual", "manual", "loop"), same_ids=False, decos=True)


def started():
    return W.history(WEIGHTS, n=(6, 16), prelude=4, start=True, driver=("manual",), same_ids=False, decos=True)


def run(c):
    w = W.play(c)
    s = w.stats
    n = sum(s["ok:" + k] for k in ("upd", "resched", "tpause", "tresume", "run", "del")) + s["replaced"]
    return Outcome(n >= 2, [k for k in ("replaced", "retried", "deco", "redeco", "own", "runnow", "ok:start", "ok:shutdown") if s[k]])


PARTS = [
    Part("history", history, run, quick=2500, thorough=80000, setup=backends.session),
    Part("started", started, run, quick=2500, thorough=80000, setup=backends.session),
]
