"""A scheduler driven by hand (virtual clock), with an inline executor, for histories."""

from __future__ import annotations

import asyncio
from typing import Any


def manual_class() -> Any:
    from asyncz.schedulers.base import BaseScheduler

    class ManualScheduler(BaseScheduler):
        """BaseScheduler without a loop: `wakeup` is recorded, rounds are run with process_tasks()."""

        woken = 0

        def wakeup(self) -> None:
            self.woken += 1

        def handle_shutdown_coros(self, coros: Any) -> None:
            async def all_() -> None:
                for c in coros:
                    await c

            if coros:
                asyncio.run(all_())

    return ManualScheduler


_CLS: Any = None


def manual(**config: Any) -> Any:
    global _CLS
    if _CLS is None:
        _CLS = manual_class()
    config.setdefault("timezone", "UTC")
    return _CLS(**config)


def recorder_executor(on_send: Any = None) -> Any:
    """An executor that records what was submitted and runs nothing by itself."""
    from asyncz.executors.base import BaseExecutor

    class Recorder(BaseExecutor):
        def __init__(self) -> None:
            super().__init__()
            self.sent: list = []
            self.started = 0
            self.stopped = 0

        def start(self, scheduler: Any, alias: str) -> None:
            super().start(scheduler, alias)
            self.started += 1

        def shutdown(self, wait: bool = True) -> None:
            self.stopped += 1

        def do_send_task(self, task: Any, run_times: Any) -> None:
            self.sent.append((task.id, list(run_times), task))
            if on_send is not None:
                on_send(task, list(run_times))

    return Recorder()
