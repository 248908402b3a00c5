"""Makes `hypothesis` importable in the repository's own interpreter, offline."""

from __future__ import annotations

import glob
import os
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
FALLBACK = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _unpack(target: str) -> None:
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    wanted = sorted(glob.glob(f"{WHEELS}/hypothesis-[0-9]*-{tag}-*.whl"))[-1:]
    wanted += sorted(glob.glob(f"{WHEELS}/sortedcontainers-*.whl"))[-1:]
    if not wanted:
        raise FileNotFoundError(f"no hypothesis wheel under {WHEELS}")
    parent = os.path.dirname(target)
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=parent)
    for wheel in wanted:
        with zipfile.ZipFile(wheel) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, target)
    except OSError:  # somebody else was faster
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def ensure() -> None:
    try:
        if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
            _unpack(DEPS)
        sys.path.insert(0, DEPS)
        import hypothesis  # noqa: F401
    except Exception:
        if DEPS in sys.path:
            sys.path.remove(DEPS)
        sys.path.append(FALLBACK)
        import hypothesis  # noqa: F401
