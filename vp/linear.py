"""Is a history of operations on one key, with real-time intervals, explained by some order of them?"""

from __future__ import annotations

from typing import Any, Optional

ABSENT = None
JUNK = "junk"  # a record that cannot be read: there for writers, not for readers, who remove it


def apply(state: Any, op: dict) -> Optional[tuple]:
    """(new state,) when the operation may have had this result in this state."""
    k, r, v = op["op"], op["res"], op.get("v")
    unknown = r is None  # was killed: anything may have happened
    if k == "add":
        if unknown:
            return (v,) if state is ABSENT else (state,)
        if r == "ok":
            return (v,) if state is ABSENT else None
        if r == "conflict":
            return (state,) if state is not ABSENT else None
    elif k == "update":
        if unknown:
            return (v,) if state is not ABSENT else (state,)
        if r == "ok":
            return (v,) if state is not ABSENT else None
        if r == "missing":
            return (state,) if state is ABSENT else None
    elif k == "delete":
        if unknown:
            return (ABSENT,)
        if r == "ok":
            return (ABSENT,) if state is not ABSENT else None
        if r == "missing":
            return (state,) if state is ABSENT else None
    elif k == "clear":
        return (ABSENT,)
    elif k == "purge":
        return (ABSENT if state == JUNK else state,)
    elif k == "read":
        return (state,) if unknown or r == ["is", None if state == JUNK else state] else None
    raise ValueError(op)


def explain(ops: list[dict], initial: Any = ABSENT) -> bool:
    """ops: {op, res, v, t0, t1}; a failed operation (no effect) is left out by the caller; t1 None = never returned."""
    n = len(ops)
    inf = float("inf")
    t0 = [o["t0"] for o in ops]
    t1 = [inf if o["t1"] is None else o["t1"] for o in ops]
    must = 0
    for i in range(n):
        if t1[i] != inf:
            must |= 1 << i
    seen = set()
    stack = [(0, initial)]
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        bound = min((t1[i] for i in range(n) if not done >> i & 1), default=inf)
        for i in range(n):
            if done >> i & 1 or t0[i] > bound:
                continue
            new = apply(state, ops[i])
            if new is not None:
                stack.append((done | 1 << i, new[0]))
    return False
