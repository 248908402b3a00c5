"""A virtual wall clock for the code under test.

Every ``datetime`` (and ``time.time``) that asyncz modules look up as a module global is replaced by a
stand-in whose ``now()`` answers the virtual time. All values produced stay genuine
``datetime.datetime`` objects.
"""

from __future__ import annotations

import contextlib
import datetime as _dt
import sys
import types
from typing import Any, Optional

real = _dt.datetime
UTC = _dt.timezone.utc


class _State:
    now: Optional[_dt.datetime] = None  # aware, UTC


STATE = _State()


class _Meta(type):
    def __instancecheck__(cls, obj: Any) -> bool:
        return isinstance(obj, real)

    def __subclasscheck__(cls, sub: Any) -> bool:
        return issubclass(sub, real)


class FakeDatetime(real, metaclass=_Meta):
    def __new__(cls, *a: Any, **k: Any) -> Any:
        return real(*a, **k)

    @classmethod
    def now(cls, tz: Any = None) -> Any:
        if STATE.now is None:
            return real.now(tz)
        if tz is None:
            return STATE.now.astimezone(UTC).replace(tzinfo=None)
        return STATE.now.astimezone(tz)

    @classmethod
    def utcnow(cls) -> Any:
        return cls.now(UTC).replace(tzinfo=None)

    @classmethod
    def today(cls) -> Any:
        return cls.now()

    @classmethod
    def fromtimestamp(cls, *a: Any, **k: Any) -> Any:
        return real.fromtimestamp(*a, **k)

    @classmethod
    def utcfromtimestamp(cls, *a: Any, **k: Any) -> Any:
        return real.utcfromtimestamp(*a, **k)

    @classmethod
    def combine(cls, *a: Any, **k: Any) -> Any:
        return real.combine(*a, **k)

    @classmethod
    def fromisoformat(cls, *a: Any, **k: Any) -> Any:
        return real.fromisoformat(*a, **k)

    @classmethod
    def strptime(cls, *a: Any, **k: Any) -> Any:
        return real.strptime(*a, **k)

    @classmethod
    def fromordinal(cls, *a: Any, **k: Any) -> Any:
        return real.fromordinal(*a, **k)


def _fake_dt_module() -> types.ModuleType:
    m = types.ModuleType("datetime")
    m.__dict__.update(_dt.__dict__)
    m.datetime = FakeDatetime  # type: ignore[attr-defined]
    return m


_FAKE_DT_MODULE = _fake_dt_module()


def _fake_time_module() -> types.ModuleType:
    import time as _t

    m = types.ModuleType("time")
    m.__dict__.update(_t.__dict__)
    m.time = lambda: STATE.now.timestamp() if STATE.now is not None else _t.time()  # type: ignore[attr-defined]
    return m


_FAKE_TIME_MODULE = _fake_time_module()


def install() -> None:
    """Patch every asyncz module loaded so far (idempotent)."""
    import time as _t

    for name, mod in list(sys.modules.items()):
        if not (name == "asyncz" or name.startswith("asyncz.")) or mod is None:
            continue
        d = vars(mod)
        for key, val in list(d.items()):
            if val is real:
                d[key] = FakeDatetime
            elif val is _dt:
                d[key] = _FAKE_DT_MODULE
            elif val is _t:
                d[key] = _FAKE_TIME_MODULE


def set_now(value: _dt.datetime) -> None:
    assert value.tzinfo is not None
    STATE.now = value.astimezone(UTC)


def advance(seconds: float) -> None:
    assert STATE.now is not None
    STATE.now = STATE.now + _dt.timedelta(seconds=seconds)


def now() -> _dt.datetime:
    assert STATE.now is not None
    return STATE.now


@contextlib.contextmanager
def virtual(start: _dt.datetime):
    install()
    set_now(start)
    try:
        yield sys.modules[__name__]
    finally:
        STATE.now = None
