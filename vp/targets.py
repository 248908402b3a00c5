"""Importable callables for tasks. CALLS records what ran (in this process)."""

from __future__ import annotations

from typing import Any

CALLS: list = []


def plain() -> None:
    CALLS.append(("plain",))


def one(a: Any) -> Any:
    CALLS.append(("one", a))
    return a


def two(a: Any, b: Any = 7, *, key: Any = None) -> Any:
    CALLS.append(("two", a, b, key))
    return (a, b, key)


def anyargs(*args: Any, **kwargs: Any) -> Any:
    CALLS.append(("anyargs", args, tuple(sorted(kwargs.items(), key=lambda x: x[0]))))
    return args, kwargs


class Holder:
    def __init__(self, n: int = 0) -> None:
        self.n = n

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Holder) and other.n == self.n

    def __hash__(self) -> int:
        return hash(self.n)

    def method(self, x: Any = 1) -> Any:
        CALLS.append(("method", self.n, x))
        return (self.n, x)

    @classmethod
    def klass(cls, x: Any = 1) -> Any:
        CALLS.append(("klass", cls.__name__, x))
        return ("klass", x)

    @staticmethod
    def static(x: Any = 1) -> Any:
        CALLS.append(("static", x))
        return ("static", x)

    def __call__(self, x: Any = 1) -> Any:
        CALLS.append(("call", self.n, x))
        return ("call", self.n, x)


class SubHolder(Holder):
    pass


def padded(v: int, pad: str = "") -> int:
    return v


def tagged(tag: str) -> str:
    """Task body of the scheduler checks: records its tag."""
    CALLS.append(tag)
    return tag


def tagged_too(tag: str) -> str:
    """Task body of the scheduler checks: records its tag."""
    CALLS.append(tag)
    return tag


def dawdle(tag: str, seconds: float) -> str:
    """A body that takes its time, on the virtual clock."""
    from vp import clock

    CALLS.append(tag)
    clock.advance(seconds)
    return tag


class OddError(Exception):
    """Cannot be printed or pickled."""

    def __init__(self, a: Any, b: Any) -> None:
        super().__init__(lambda: 0)

    def __str__(self) -> str:
        raise RuntimeError("unprintable")


FAILURES = {
    "value": lambda: ValueError("no"),
    "odd": lambda: OddError(1, 2),
    "exit": lambda: SystemExit(3),
    "stop": lambda: StopIteration(1),
    "assert": lambda: AssertionError(),
}


def failing(tag: str, kind: str = "value") -> None:
    CALLS.append(tag)
    raise FAILURES[kind]()


def boom(text: str) -> None:
    raise ValueError(text)


EVENTS: dict = {}


def mark(key: str, i: Any = None) -> Any:
    """Body for real loops and threads: tells that it ran."""
    CALLS.append((key, i))
    return i


async def amark(key: str, i: Any = None) -> Any:
    CALLS.append((key, i))
    return i


async def ahang(key: str, i: Any = None) -> Any:
    import asyncio

    CALLS.append((key, i))
    await asyncio.sleep(1000)


def late(tag: Any = None) -> None:
    import time

    time.sleep(0.004)
    CALLS.append(("late", tag))


async def alate(tag: Any = None) -> None:
    import asyncio

    await asyncio.sleep(0.004)
    CALLS.append(("alate", tag))


WORLD: Any = None


def acting(tag: str, op: Any = None) -> str:
    """Task body that manages tasks of the scheduler that runs it."""
    CALLS.append(tag)
    if op is not None and WORLD is not None:
        CALLS.append((tag, WORLD.act(op)))
    return tag


FNS = {
    "plain": (plain, 0, 0),
    "one": (one, 1, 1),
    "two": (two, 1, 2),
    "anyargs": (anyargs, 0, 4),
    "static": (Holder.static, 0, 1),
    "klass": (Holder.klass, 0, 1),
}

TRIGGERS_BROKEN = False
_BREAKABLE: Any = None


def __getattr__(name: str) -> Any:
    # made on demand: this module must not import asyncz before the check decides to
    if name != "BreakableTrigger":
        raise AttributeError(name)
    global _BREAKABLE
    if _BREAKABLE is None:
        from asyncz.triggers import IntervalTrigger

        class BreakableTrigger(IntervalTrigger):
            def get_next_trigger_time(self, *a: Any, **kw: Any) -> Any:
                if TRIGGERS_BROKEN:
                    raise ZeroDivisionError("trigger")
                return super().get_next_trigger_time(*a, **kw)

        BreakableTrigger.__qualname__ = "BreakableTrigger"
        BreakableTrigger.__module__ = __name__
        _BREAKABLE = BreakableTrigger
    return _BREAKABLE
