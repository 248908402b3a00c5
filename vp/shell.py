"""The command line of the code under test, in this process; and what its commands load."""

from __future__ import annotations

import asyncio
import contextlib
import importlib
import pkgutil
from typing import Any

LOG: list = []  # what hooks tell
SEEN: list = []  # schedulers handed to the registry
JOBS: list = []  # what the registry answers
ON_START: Any = None
BOOT: Any = None


def load() -> None:
    """import everything first, so that the clock reaches it"""
    import asyncz.cli
    import asyncz.cli.app
    import asyncz.stores.file
    import asyncz.stores.memory
    import asyncz.stores.mongo
    import asyncz.stores.redis
    import asyncz.stores.sqlalchemy

    for m in pkgutil.walk_packages(asyncz.cli.__path__, "asyncz.cli."):
        importlib.import_module(m.name)


class Said:
    def __init__(self, args: list, r: Any) -> None:
        self.args = args
        self.code = r.exit_code
        self.out = r.stdout or ""
        self.err = r.stderr or ""
        self.exc = r.exception
        self.text = (self.out + self.err + (str(self.exc) if self.exc is not None and not isinstance(self.exc, SystemExit) else "")).strip()

    @property
    def ok(self) -> bool:
        return self.code == 0

    def __repr__(self) -> str:
        return f"`asyncz {' '.join(map(repr, self.args))}` -> {self.code} {self.text[:300]!r}" + (f" ({self.exc!r:.200})" if self.exc is not None else "")


def run(*args: str, answer: str | None = None) -> Said:
    from asyncz.cli.app import asyncz_cli
    from sayer.testing import SayerTestClient

    r = SayerTestClient(asyncz_cli).invoke(list(args), **({"input": answer} if answer is not None else {}))
    return Said(list(args), r)


# ------------------------------------------------------------------ loaded by commands


def registry(scheduler: Any) -> list:
    SEEN.append(scheduler)
    return JOBS


def up() -> None:
    LOG.append("up")
    if ON_START is not None:
        ON_START()


async def aup() -> None:
    await asyncio.sleep(0)
    up()


def down() -> None:
    LOG.append("down")


async def adown() -> None:
    await asyncio.sleep(0.005)
    LOG.append("down")


def boot() -> Any:
    return BOOT


class Boot:
    def get_scheduler(self) -> Any:
        return BOOT


instance = Boot()


# ------------------------------------------------------------------ the API on the same stores


@contextlib.contextmanager
def api(stores: dict, **more: Any) -> Any:
    """A started scheduler of the stores that runs nothing by itself, and its loop"""
    from asyncz.schedulers import AsyncIOScheduler

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    s = AsyncIOScheduler(stores={k: dict(v) for k, v in stores.items()}, **more)

    async def begin() -> None:
        s.start(paused=True)

    async def end() -> None:
        with contextlib.suppress(Exception):
            s.shutdown(wait=False)
        await asyncio.sleep(0)

    loop.run_until_complete(begin())
    try:
        yield s, loop
    finally:
        loop.run_until_complete(end())
        loop.close()
