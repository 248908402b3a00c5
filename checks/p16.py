"""P16: one failing task, listener, store or executor never disturbs the others."""

from __future__ import annotations

from vp import backends, faults
from vp.runner import Outcome, Part

PROPERTY = "P16"
RULE = (
    "A case is a scheduler with memory, file or SQLite stores and a history in which tasks raise (also SystemExit and unprintable "
    "exceptions), run inline and delete, pause, reschedule, replace, run or add tasks (themselves included), listeners raise, an "
    "a trigger fails for a while, an executor refuses every submission for a while or is missing, and a store fails to read or write for a while. After every "
    "operation all submissions, calls, events (to a listener before and one after the failing ones), tasks and the planned wake-up "
    "are compared with a reference model in which only what failed is affected; locks must be free for another thread. "
    "Non-trivial: at least one fault happened and at least two other runs were submitted."
)

OPS = {"add": 3, "adv": 7, "jump": 3, "break": 2, "mend": 2, "xbreak": 2, "tbreak": 2, "upd": 1, "run": 1, "del": 1, "pause": 1, "resume": 1, "round": 3}


def meddling():
    return faults.history({"flaky": [None], "bodies": ["acting", "acting", "acting", "tagged", "failing"], "ops": OPS, "noise": True}, n=(4, 10))


def failing():
    return faults.history({"flaky": ["mem", "disk", None], "bodies": ["tagged", "tagged", "failing"], "ops": OPS, "noise": True, "ghost": True, "brk": True}, n=(6, 14))


def run(c):
    w = faults.play(c)
    s = w.stats
    fault = s["acted"] + s["failed"] + s["xfail"] + s["trigfail"] + s["storefail"] + s["taintround"]
    labels = [k for k in ("acted", "failed", "xfail", "trigfail", "storefail", "taintround", "stopped") if s[k]]
    labels += [k for k in s if k.startswith("act:")] + [c["cfg"]["driver"]]
    return Outcome(fault >= 1 and s["sub"] >= 2, labels)


PARTS = [
    Part("meddling", meddling, run, quick=2500, thorough=80000, setup=backends.session),
    Part("failing", failing, run, quick=2500, thorough=80000, setup=backends.session),
]
