"""Runs one property's generated-input search, sharded over processes.

A check module (checks/<id>.py) defines

    PROPERTY = "P01"
    RULE     = "how cases are made, and what makes one non-trivial"
    PARTS    = [Part(...), ...]
    ASSUMPTIONS = [...]            (optional)

Every part draws a *JSON case* from a Hypothesis strategy and hands it to ``run``,
which drives the real code in /repo and compares it with an oracle. ``run`` raises
``Violation`` when the property is broken and otherwise returns an ``Outcome``.
A case is plain data, so the shrunk case *is* the replay file.
"""

from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Iterable, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PKG = os.path.join(REPO, "asyncz") + os.sep
FINDINGS = os.path.join(ROOT, "known-findings.txt")
NSHARDS = int(os.environ.get("VP_SHARDS", "8"))


class Violation(AssertionError):
    def __init__(self, msg: str, signature: Optional[str] = None) -> None:
        super().__init__(msg)
        self.signature = signature or ""


class Truncated(Exception):
    pass


def check(cond: Any, msg: Any, signature: Optional[str] = None) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg), signature)


@dataclass
class Outcome:
    nontrivial: bool
    labels: Iterable[str] = ()
    evaluations: int = 1


@dataclass
class Part:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any], Any]
    quick: int = 400  # examples over all shards
    thorough: int = 20000
    examples: list = field(default_factory=list)  # always run (regressions), shard 0
    setup: Optional[Callable[[], Any]] = None  # context manager per worker
    max_shards: int = 64
    quick_s: float = 60.0  # safety cap per worker, in seconds
    thorough_s: float = 600.0
    case_s: float = 60.0  # a case that takes longer hangs


def canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, default=repr)


def digest(s: str) -> str:
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def blame(exc: BaseException) -> str:
    """'sut' when the exception was raised by (or beneath) the code under test."""
    frames = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(frames):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(PKG):
            return "sut"
        if fn.startswith(ROOT + os.sep) and not fn.startswith(os.path.join(ROOT, ".deps")):
            return "harness"
    return "harness"


def sut_site(exc: BaseException) -> str:
    frames = traceback.extract_tb(exc.__traceback__)
    for fr in reversed(frames):
        if os.path.abspath(fr.filename).startswith(PKG):
            return f"{type(exc).__name__}@{os.path.relpath(fr.filename, REPO)}:{fr.name}"
    return type(exc).__name__


def load_findings(prop: str) -> list[dict]:
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: ") :])
                if d["property"] == prop:
                    out.append(d)
    return out


# --------------------------------------------------------------------------- worker


def quiet_logging() -> None:
    import logging
    import warnings

    logging.lastResort = None  # type: ignore[assignment]
    logging.getLogger().addHandler(logging.NullHandler())
    warnings.simplefilter("ignore")


class Hang(BaseException):
    pass


def on_alarm(signum: int, frame: Any) -> None:
    raise Hang


def run_one(part: Part, case: Any) -> Outcome:
    """Execute one case; SUT crashes become violations, harness bugs stay errors, cases that never end violations."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, part.case_s)
    try:
        return run_now(part, case)
    except Hang as exc:
        tb = "".join(traceback.format_exception(exc)[-8:])
        raise Violation(f"did not end within {part.case_s} s:\n{tb}", "hang:" + sut_site(exc)) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_now(part: Part, case: Any) -> Outcome:
    try:
        res = part.run(case)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, Truncated, Hang):
        raise
    except BaseException as exc:
        import hypothesis.errors as he

        if isinstance(exc, (he.StopTest, he.UnsatisfiedAssumption)):
            raise
        if blame(exc) == "sut":
            tb = "".join(traceback.format_exception(exc)[-8:])
            raise Violation(f"unexpected exception: {exc!r}\n{tb}", "crash:" + sut_site(exc)) from exc
        raise
    if isinstance(res, Outcome):
        return res
    return Outcome(bool(res))


def worker(modname: str, only: Optional[str], shard: int, nshards: int, seed: int, tier: str, outfile: str) -> int:
    quiet_logging()
    sys.path.insert(0, REPO)
    from vp import deps

    deps.ensure()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = importlib.import_module(modname)
    known = {f["signature"] for f in load_findings(mod.PROPERTY)}
    result: dict[str, Any] = {"parts": {}, "failure": None, "error": None}

    def flush() -> None:
        tmp = outfile + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(result, fh, default=repr)
        os.replace(tmp, outfile)

    for idx, part in enumerate(mod.PARTS):
        if only and part.name != only:
            continue
        n_sh = min(part.max_shards, nshards)
        if shard >= n_sh:
            continue
        total = part.quick if tier == "quick" else part.thorough
        n = max(1, -(-total // n_sh))
        cap = part.quick_s if tier == "quick" else part.thorough_s
        st: dict[str, Any] = {
            "evaluations": 0,
            "cases": 0,
            "keys": set(),
            "labels": {},
            "samples": [],
            "known_hits": {},
            "truncated": False,
        }
        best: dict[str, Any] = {}
        t_end = time.monotonic() + cap
        fail_deadline: list[float] = []

        def execute(case: Any, st=st, part=part, best=best, fail_deadline=fail_deadline, t_end=t_end) -> None:
            now = time.monotonic()
            if fail_deadline:
                if now > fail_deadline[0]:
                    raise Truncated
            elif now > t_end:
                st["truncated"] = True
                raise Truncated
            text = canon(case)
            case = json.loads(text) if isinstance(case, (dict, list)) else case
            try:
                out = run_one(part, case)
            except Violation as v:
                if v.signature and v.signature in known:
                    st["known_hits"][v.signature] = st["known_hits"].get(v.signature, 0) + 1
                    return
                if not best or len(text) <= best["size"]:
                    best.update(size=len(text), case=case, msg=str(v), signature=v.signature)
                    result["failure"] = {"part": part.name, **best}
                    flush()
                if not fail_deadline:
                    fail_deadline.append(time.monotonic() + (25 if tier == "quick" else 120))
                raise
            st["evaluations"] += out.evaluations
            st["cases"] += 1
            for lab in out.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if out.nontrivial:
                k = digest(part.name + text)
                if k not in st["keys"]:
                    st["keys"].add(k)
                    m = len(st["keys"])
                    if m in (2, 20, 100) and len(text) < 3000:
                        st["samples"].append({"part": part.name, "case": case})

        def body(case: Any) -> None:
            execute(case)

        cm = part.setup() if part.setup else contextlib.nullcontext()
        try:
            with cm:
                try:
                    if shard == 0:
                        for ex in part.examples:
                            execute(ex)
                    test = given(part.strategy())(body)
                    test = settings(
                        max_examples=n,
                        database=None,
                        deadline=None,
                        print_blob=False,
                        report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink],
                    )(test)
                    hypothesis.seed(seed * 1000003 + shard * 1009 + idx)(test)()
                except Truncated:
                    pass
                except Violation:
                    pass
                except BaseException as exc:  # flaky, harness error, ...
                    if isinstance(exc, KeyboardInterrupt):
                        raise
                    if result["failure"] is None:
                        result["error"] = f"{part.name}: {exc!r}\n" + "".join(traceback.format_exception(exc)[-12:])
        except BaseException as exc:
            if isinstance(exc, KeyboardInterrupt):
                raise
            if result["failure"] is None and result["error"] is None:
                result["error"] = f"{part.name} (setup): {exc!r}\n" + traceback.format_exc()
        st["keys"] = sorted(st["keys"])
        result["parts"][part.name] = st
        flush()
        if result["failure"] or result["error"]:
            break
    flush()
    return 0


# --------------------------------------------------------------------------- parent


def child_env(scratch: str) -> dict[str, str]:
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=ROOT,
        TMPDIR=scratch,
        VP_SCRATCH=scratch,
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        TZ="UTC",
        LANG="C.UTF-8",
        NO_COLOR="1",
    )
    for k in ("ASYNCZ_SETTINGS_MODULE", "ASYNCZ_STORE_ENCRYPTION_KEY", "CI"):
        env.pop(k, None)
    return env


PY = "/opt/venv/bin/python"


def run_check(prop: str, tier: str, seed: int, only: Optional[str] = None, nshards: int = NSHARDS) -> int:
    t0 = time.monotonic()
    modname = "checks." + prop.lower()
    scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    procs: list[tuple[int, subprocess.Popen, str]] = []
    try:
        mod = importlib.import_module(modname)
        for s in range(nshards):
            d = os.path.join(scratch, f"s{s}")
            os.mkdir(d)
            out = os.path.join(scratch, f"out{s}.json")
            cmd = [PY, "-B", "-m", "vp.runner", "--worker", modname, str(s), str(nshards), str(seed), tier, out]
            if only:
                cmd.append(only)
            log = open(os.path.join(scratch, f"log{s}.txt"), "wb")
            procs.append(
                (s, subprocess.Popen(cmd, cwd=d, env=child_env(d), stdout=log, stderr=log, start_new_session=True), out)
            )
        budget = 780.0 if tier == "quick" else 4 * 3600.0
        limit = time.monotonic() + budget
        first_fail: Optional[float] = None
        while any(p.poll() is None for _, p, _ in procs):
            time.sleep(0.1)
            if first_fail is None:
                for _, p, out in procs:
                    if p.poll() is not None and os.path.exists(out):
                        with contextlib.suppress(Exception):
                            if json.load(open(out)).get("failure"):
                                first_fail = time.monotonic()
            if time.monotonic() > limit or (first_fail and time.monotonic() > first_fail + 20):
                break
        for _, p, _ in procs:
            if p.poll() is None:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        results, errors = [], []
        for s, p, out in procs:
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r.get("error"):
                    errors.append(r["error"])
            if p.returncode != 0 and not first_fail:
                tail = open(os.path.join(scratch, f"log{s}.txt"), errors="replace").read()[-3000:]
                errors.append(f"worker {s} ended with {p.returncode}\n{tail}")
        failures = [r["failure"] for r in results if r.get("failure")]
        return report(mod, prop, tier, seed, results, failures, errors, t0)
    finally:
        for _, p, _ in procs:
            if p.poll() is None:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(scratch, ignore_errors=True)


def report(mod, prop, tier, seed, results, failures, errors, t0) -> int:
    parts: dict[str, dict] = {}
    keys: set[str] = set()
    evaluations = 0
    samples: list = []
    per_part_samples: dict[str, int] = {}
    for r in results:
        for name, st in r["parts"].items():
            agg = parts.setdefault(
                name, {"evaluations": 0, "cases": 0, "distinct_nontrivial": 0, "labels": {}, "truncated_workers": 0, "_k": set()}
            )
            agg["evaluations"] += st["evaluations"]
            agg["cases"] += st["cases"]
            agg["_k"] |= set(st["keys"])
            agg["truncated_workers"] += bool(st["truncated"])
            for k, v in st["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for smp in st["samples"]:
                if per_part_samples.get(name, 0) < 2:
                    per_part_samples[name] = per_part_samples.get(name, 0) + 1
                    samples.append(smp)
    for name, agg in parts.items():
        ks = agg.pop("_k")
        agg["distinct_nontrivial"] = len(ks)
        keys |= ks
        evaluations += agg["evaluations"]
        agg["labels"] = dict(sorted(agg["labels"].items()))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "parts": parts,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evpath = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(evpath + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    os.replace(evpath + ".tmp", evpath)
    if failures:
        best = min(failures, key=lambda f: f["size"])
        path = write_replay(prop, best)
        print(f"{prop}: part {best['part']}: {best['msg'][:4000]}")
        print("case:", canon(best["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for f in load_findings(prop):
        part = next((p for p in mod.PARTS if p.name == f["part"]), None)
        if part is not None and replay_in_child(prop, f["part"], f["case"]) == 1:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if errors:
        print(f"{prop}: harness error", file=sys.stderr)
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 3
    if not results or evaluations == 0:
        print(f"{prop}: nothing was explored", file=sys.stderr)
        return 3
    print(
        f"{prop}: held on {evaluations} evaluations, {len(keys)} distinct non-trivial cases, "
        f"{time.monotonic() - t0:.1f}s ({tier}, seed {seed})"
    )
    for name, agg in parts.items():
        t = " TRUNCATED" if agg["truncated_workers"] else ""
        print(f"  {name}: cases={agg['cases']} nontrivial={agg['distinct_nontrivial']}{t} {agg['labels']}")
    return 0


def write_replay(prop: str, failure: dict) -> str:
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{failure['part']}-{digest(canon(failure['case']))}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "part": failure["part"],
                "case": failure["case"],
                "message": failure["msg"],
                "signature": failure["signature"],
                "replay_with": f"{PY} -m vp.runner {prop} --replay {path}",
            },
            fh,
            indent=1,
            default=repr,
        )
    return path


def replay_in_child(prop: str, part: str, case: Any) -> int:
    with tempfile.TemporaryDirectory(prefix="vp-replay-") as d:
        p = os.path.join(d, "case.json")
        json.dump({"part": part, "case": case}, open(p, "w"))
        r = subprocess.run(
            [PY, "-B", "-m", "vp.runner", prop, "--replay", p], cwd=d, env=child_env(d), capture_output=True, timeout=300
        )
        return r.returncode


def do_replay(prop: str, path: str) -> int:
    quiet_logging()
    sys.path.insert(0, REPO)
    mod = importlib.import_module("checks." + prop.lower())
    data = json.load(open(path))
    part = next(p for p in mod.PARTS if p.name == data["part"])
    with part.setup() if part.setup else contextlib.nullcontext():
        try:
            out = run_one(part, data["case"])
        except Violation as v:
            print(f"{prop}: part {part.name}: {v}")
            print("signature:", v.signature)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    print(f"{prop}: replay of {path} holds ({out})")
    return 0


def main(argv: list[str]) -> int:
    if argv and argv[0] == "--worker":
        only = argv[7] if len(argv) > 7 else None
        rc = worker(argv[1], only, int(argv[2]), int(argv[3]), int(argv[4]), argv[5], argv[6])
        sys.stdout.flush()
        os._exit(rc)
    from vp import deps

    deps.ensure()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--part")
    ap.add_argument("--shards", type=int, default=NSHARDS)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    os.environ["TZ"] = "UTC"
    time.tzset()
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    for k in ("ASYNCZ_SETTINGS_MODULE", "ASYNCZ_STORE_ENCRYPTION_KEY", "CI"):
        os.environ.pop(k, None)
    if a.replay:
        scratch = tempfile.mkdtemp(prefix="vp-replay-")
        os.environ.setdefault("VP_SCRATCH", scratch)
        try:
            return do_replay(a.property, a.replay)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return run_check(a.property, a.tier, a.seed, a.part, a.shards)


if __name__ == "__main__":
    if __package__ and sys.modules.get("vp.runner") is None:
        # make `from vp.runner import Violation` in the checks mean this very module
        sys.modules["vp.runner"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
