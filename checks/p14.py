"""P14: every due run is submitted exactly once, under the task's own rules."""

from __future__ import annotations

from vp import backends
from vp import world as W
from vp.runner import Outcome, Part

PROPERTY = "P14"
RULE = (
    "A case is a scheduler configuration (memory plus optionally a file or SQLite store, task defaults) and a history of up to 18 "
    "operations: tasks of every kind (interval, date, cron, coalescing or not, with limits and grace times, executors that keep runs "
    "in flight until told or run inline, or are missing) are added, time passes or jumps, processing rounds happen, runs end, tasks "
    "are changed. After every operation the submissions, calls, events and held tasks are compared with a reference model. "
    "Non-trivial: at least two runs were submitted."
)

WEIGHTS = {"add": 4, "round": 8, "adv": 6, "jump": 3, "fin": 3, "upd": 2, "run": 2, "tpause": 1, "tresume": 1, "del": 1, "pause": 1, "resume": 1, "resched": 1}


def history():
    return W.history(WEIGHTS, n=(8, 18), prelude=4, driver=("manual", "manual", "loop"))


def run(c):
    w = W.play(c)
    s = w.stats
    labels = [k for k in ("limit", "many", "omitted", "missed", "replaced", "atshutdown") if s[k]]
    return Outcome(s["sub"] >= 2, [*labels, c["cfg"]["driver"], str(c["cfg"]["disk"])])


PARTS = [Part("history", history, run, quick=4000, thorough=120000, setup=backends.session)]
