"""Runs one call and lets another one in at a chosen point of it: a schedule as data.

    n = preempt(a, b, k)          # k = 0: b() after a()

a() runs in a thread of its own; when it has executed k lines of asyncz code (below `where`), b() runs in another thread,
to its end or until it blocks (on a lock a() holds, say), then a() goes on. Returns the number of lines a() executed.
Exceptions of a() and b() are returned by the thunks' callers, not here: wrap them.
"""

from __future__ import annotations

import sys
import threading
from typing import Any, Callable

from vp.runner import PKG


def preempt(a: Callable[[], Any], b: Callable[[], Any], k: int, where: str = "", grace: float = 0.03) -> int:
    seen = 0
    other: list = []

    def run_b() -> None:
        t = threading.Thread(target=b, daemon=True)
        other.append(t)
        t.start()
        t.join(grace)

    def local(frame: Any, event: str, arg: Any) -> Any:
        nonlocal seen
        if event == "line":
            seen += 1
            if seen == k:
                run_b()
        return local

    def tracer(frame: Any, event: str, arg: Any) -> Any:
        return local if frame.f_code.co_filename.startswith(PKG + where) else None

    def run_a() -> None:
        sys.settrace(tracer)
        try:
            a()
        finally:
            sys.settrace(None)

    t = threading.Thread(target=run_a, daemon=True)
    t.start()
    t.join(20)
    if t.is_alive():
        raise TimeoutError("the first call does not return")
    if not other:
        run_b()
    other[0].join(20)
    if other[0].is_alive():
        raise TimeoutError("the second call does not return")
    return seen
