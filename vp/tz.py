"""Time zones by name, so that cases stay plain data."""

from __future__ import annotations

from datetime import datetime, timedelta, timezone, tzinfo
from functools import lru_cache
from zoneinfo import ZoneInfo

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
US = timedelta(microseconds=1)


@lru_cache(None)
def get(spec: str) -> tzinfo:
    if spec == "UTC":
        return UTC
    kind, _, name = spec.partition(":")
    if kind == "fixed":
        return timezone(timedelta(minutes=int(name)))
    if kind == "zi":
        return ZoneInfo(name)
    if kind == "pytz":
        import pytz

        return pytz.timezone(name)
    if kind == "pytzfixed":
        import pytz

        return pytz.FixedOffset(int(name))
    raise ValueError(spec)


def at(us: int, tz: tzinfo = UTC) -> datetime:
    """The instant `us` microseconds after the epoch, shown in tz."""
    return (EPOCH + timedelta(microseconds=us)).astimezone(tz)


def us(d: datetime) -> int:
    return (d.astimezone(UTC) - EPOCH) // US


def wall(d: datetime) -> datetime:
    return d.replace(tzinfo=None, fold=0)


@lru_cache(None)
def zone(name: str) -> ZoneInfo:
    return ZoneInfo(name)


def ref_zone(spec: str) -> tzinfo:
    """The same zone as a zoneinfo/fixed object: what the oracles calculate with."""
    kind, _, name = spec.partition(":")
    if kind == "pytz":
        return ZoneInfo(name)
    if kind == "pytzfixed":
        return timezone(timedelta(minutes=int(name)))
    return get(spec)


def instants(naive: datetime, tz: tzinfo) -> list[datetime]:
    """The UTC instants whose local time in tz reads `naive`: none (gap), one, or two (repeated)."""
    out = []
    for fold in (0, 1):
        u = naive.replace(tzinfo=tz, fold=fold).astimezone(UTC)
        back = u.astimezone(tz).replace(tzinfo=None, fold=0)
        if back == naive and u not in out:
            out.append(u)
    return sorted(out)


def gap_shifted(naive: datetime, tz: tzinfo) -> list[datetime]:
    """Both readings of a wall time that does not exist."""
    return sorted({naive.replace(tzinfo=tz, fold=f).astimezone(UTC) for f in (0, 1)})
