"""P30: dashboard forms and listings do what they display."""

from __future__ import annotations

import asyncio
import contextlib
import json
from datetime import date, datetime, timedelta, timezone
from typing import Any
from urllib.parse import quote, urlencode

from hypothesis import strategies as st

from vp import clock, targets, web
from vp import tz as TZ
from vp.runner import Outcome, Part, check
from vp.site import Page, Site, Visitor, load, resolve
from vp.taskgen import T0

PROPERTY = "P30"
RULE = (
    "create: task forms rendered from generated values (or spoiled in a known way) are posted; the scheduler has the very task a direct call with the values adds to an equal scheduler, or a message is shown, the refusal is recorded and nothing changed. "
    "edit: the edit page of a task with any arguments is filled in as a browser does, some fields are changed, previewed and applied: what the preview lists is what applying changes, nothing else changes, and invalid values are refused whole. "
    "list: walking the pages of a task listing by its links, with generated filters, orders and page sizes, shows exactly the tasks the scheduler API gives for the filters, in order, each once. "
    "act: the buttons of rows and bulk actions, found in the page, act on exactly the tasks they stand for (any ids, two stores), with one audit record each. "
    "pages: history, logs, events, audit and timeline pages show exactly the records that match, newest first, up to the limit. "
    "In a third of the cases but for pages the dashboard is in another process than the scheduler and controls it over HTTP. "
    "Non-trivial: create: accepted and something besides the callable given, or refused; edit: something was changed or refused; list: several pages or a filter that keeps some; act: an action had an effect; pages: rows were shown and some were not."
)


# ------------------------------------------------------------------ values

_json = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-5, 10**20), st.sampled_from([0.5, -1e-9, 1e300]), st.sampled_from(["", "a", " b ", "ü€😀", '"', "\\", "<b>", "a&b=c", "line\nbreak", "100%", "1+1", "null"])),
    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["a", "b", "key", "", "a b"]), x, max_size=3)),
    max_leaves=5,
)
_names = st.one_of(st.none(), st.sampled_from(["", "nightly", "ünï cödé", "a<b>&\"c'", "name with spaces", "x" * 300, "[1]", "0"]))


def form_json(v: Any, style: int) -> str:
    out = json.dumps(v, ensure_ascii=bool(style & 1), indent=2 if style & 2 else None)
    return ("  " + out + "\r\n") if style & 4 else out


FAR = False  # the dashboard is in another process than the scheduler


def board(mode: str = "include", **more: Any) -> Site:
    return Site(mode, login=False, remote=FAR, **more)


def where(cases: Any) -> Any:
    return st.fixed_dictionaries({"case": cases, "far": st.sampled_from([False, False, True])})


def either(run: Any) -> Any:
    def go(c: dict) -> Outcome:
        global FAR
        FAR = c["far"]
        try:
            out = run(c["case"])
        finally:
            FAR = False
        out.labels = [*out.labels, "far" if c["far"] else "near"]
        return out

    return go


@contextlib.contextmanager
def loop() -> Any:
    if web.LOOP is None or web.LOOP.is_closed():
        web.LOOP = asyncio.new_event_loop()
    asyncio.set_event_loop(web.LOOP)
    yield web.LOOP


@contextlib.contextmanager
def started(*schedulers: Any, paused: bool = True) -> Any:
    """with stores and executors; paused: nothing is run but what is asked for"""
    from asyncz.stores.memory import MemoryStore

    with loop() as lp:

        async def begin() -> None:
            for s in schedulers:
                s.add_store(MemoryStore(), "second")
                s.add_executor("debug", "dbg")
                s.start(paused=paused)

        async def end() -> None:
            for s in schedulers:
                with contextlib.suppress(Exception):
                    s.shutdown(wait=False)
            await asyncio.sleep(0)

        lp.run_until_complete(begin())
        try:
            yield
        finally:
            lp.run_until_complete(end())


def look(s: Any) -> dict:
    """(store, id) -> everything about it"""
    out = {}
    for info in s.get_task_infos():
        t = s.get_task(info.id, info.store_alias)
        out[(info.store_alias, info.id)] = (t.name, t.fn, t.fn_reference, t.args, dict(t.kwargs), t.executor, t.coalesce, t.max_instances, t.mistrigger_grace_time, repr(t.trigger), t.next_run_time, info.schedule_state)
    return out


FIELDS = ["name", "fn", "callable reference", "args", "kwargs", "executor", "coalesce", "max instances", "mistrigger grace time", "trigger", "next_run_time", "state"]


def typed(v: Any) -> Any:
    """equal only if the types are too"""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(x) for x in v])
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    return (type(v).__name__, v)


class Sections(Page):
    """also: texts by section"""

    status = 0

    def __init__(self, data: bytes) -> None:
        self.open: list = []
        self.flash = ""
        self.cells: list = []  # rows of table bodies: each a list of cells: each a list of texts
        self.row: Any = None
        self.forms: list = []  # (attributes, fields)
        self.area: Any = None
        self.select: Any = None
        self.links: list = []
        super().__init__(data)

    def handle_starttag(self, tag: str, attrs: list) -> None:
        super().handle_starttag(tag, attrs)
        a = {k: v or "" for k, v in attrs}
        if tag not in ("input", "br", "meta", "link", "img", "path", "circle", "hr"):
            self.open.append((tag, a))
        if tag == "tr" and any(t == "tbody" for t, _ in self.open):
            self.cells.append([])
        if tag == "td" and self.cells:
            self.cells[-1].append([])
        if tag == "form":
            self.forms.append((a, {}))
        if tag == "input" and "name" in a and self.forms and any(t == "form" for t, _ in self.open):
            if a.get("type") == "checkbox":
                if "checked" in a:
                    self.forms[-1][1][a["name"]] = a.get("value", "on")
            else:
                self.forms[-1][1][a["name"]] = a.get("value", "")
        if tag == "textarea":
            self.area = a["name"]
            self.forms[-1][1][self.area] = ""
        if tag == "select":
            self.select = a["name"]
        if tag == "option" and self.select and ("selected" in a or self.select not in self.forms[-1][1]):
            self.forms[-1][1][self.select] = a.get("value", "")
        if tag == "a" and "href" in a:
            self.links.append((a, []))

    def handle_endtag(self, tag: str) -> None:
        super().handle_endtag(tag)
        if any(t == tag for t, _ in self.open):
            while self.open.pop()[0] != tag:
                pass
        if tag == "textarea":
            # browsers drop one newline at the start, and send all as CRLF
            text = self.forms[-1][1][self.area]
            text = text[1:] if text.startswith("\n") else text
            self.forms[-1][1][self.area] = text.replace("\r\n", "\n").replace("\n", "\r\n")
            self.area = None
        if tag == "select":
            self.select = None

    def handle_data(self, data: str) -> None:
        super().handle_data(data)
        if self.area:
            self.forms[-1][1][self.area] += data
        if any(a.get("id") == "flash-messages" for _, a in self.open):
            self.flash += data
        if data.strip() and any(t == "td" for t, _ in self.open) and self.cells and self.cells[-1]:
            self.cells[-1][-1].append(data.strip())
        if any(t == "a" for t, _ in self.open) and self.links:
            self.links[-1][1].append(data.strip())

    def ids(self) -> list:
        """of the tasks in the table"""
        return [dict(a)["value"] for t, a in self.tags if t == "input" and dict(a).get("name") == "row"]


def get(site: Site, target: str, want: Any = (200,)) -> Sections:
    status, _, data = Visitor(site).call("GET", target)
    check(status in want, lambda: f"GET {target}: {status}")
    return Sections(data)


def post(site: Site, target: str, form: dict, want: Any = (200,)) -> Sections:
    status, _, data = Visitor(site).call("POST", target, form)
    check(status in want, lambda: f"POST {target} {form}: {status}")
    out = Sections(data)
    out.status = status
    return out


# ------------------------------------------------------------------ create

_dates = st.one_of(
    st.tuples(st.integers(-10**6, 10**8), st.sampled_from([None, 0, 330, -480, 60])).map(lambda t: {"at": t[0], "zone": t[1]}),
)  # fmt: skip
_crons = st.fixed_dictionaries(
    {
        "minute": st.sampled_from(["*", "0", "*/5", "1,31", "10-20/3"]), "hour": st.sampled_from(["*", "3", "*/6", "9-17"]), "day": st.sampled_from(["*", "1", "31", "1-7"]), "month": st.sampled_from(["*", "2", "1,7", "3-9"]),
        "day_of_week": st.sampled_from(["*", "mon-fri", "0", "sun"]),
    }
)  # fmt: skip
_trigger = st.one_of(
    st.tuples(st.just("interval"), st.integers(1, 10**5), st.sampled_from(["s", "m", "h", ""])),
    st.tuples(st.just("interval"), st.integers(1, 10**5), st.sampled_from(["s", "m", "h", ""])),
    st.tuples(st.just("cron"), _crons), st.tuples(st.just("date"), _dates), st.just(("none",)),
)  # fmt: skip
_bad_trigger = st.tuples(st.just("bad"), st.sampled_from(["interval", "cron", "date", "sometimes", "interval ", "and"]), st.sampled_from(["10x", "s", "1.5m", "ten", "-", "1 0s", "10ss", "* * * *", "* * * * * *", "61 * * * *", "* 24 * * *", "a b c d e", "* * * * *;", "2024-13-01", "2024-02-30T00:00:00", "today", "12:00"]))
CREATE = st.lists(
    st.fixed_dictionaries(
        {
            "spoil": st.sampled_from([None] * 9 + ["fn", "store", "trigger", "args", "kwargs", "fn"]), "fn": st.sampled_from(["anyargs"] * 7 + ["plain", "one", "two"]), "bad_fn": st.sampled_from(["", ":x", "vp.targets", "vp.targets:", "vp.nope:f", "vp.targets:missing", "vp.targets:CALLS", "vp targets:one", "vp.targets.one"]),
            "pad": st.sampled_from(["", "", " "]), "name": _names, "store": st.sampled_from([None, "", "default", "second", " second "]), "bad_store": st.sampled_from(["nope", "SECOND", "default,second"]), "trigger": _trigger, "bad_trigger": _bad_trigger,
            "args": st.one_of(st.none(), st.lists(_json, max_size=3)), "kwargs": st.one_of(st.none(), st.dictionaries(st.sampled_from(["a", "b", "key", "x y", "ü"]), _json, max_size=2)), "style": st.integers(0, 7),
            "bad_args": st.sampled_from(["[1,", "{}", '"ab"', "5", "null", "nope", "[1] 2", "(1,)"]), "bad_kwargs": st.sampled_from(["{", "[]", '"ab"', "5", "null", "a=1", '{"a": 1}}', "{1: 2}"]),
        }
    ), min_size=1, max_size=5,
)  # fmt: skip


def run_create(c: dict) -> Outcome:
    load()
    labels: list = []
    with clock.virtual(TZ.at(T0)):
        from asyncz.schedulers import AsyncIOScheduler

        site, twin = board(), AsyncIOScheduler(timezone="UTC")
        s = site.s
        with started(s, twin):
            for f in c:
                form: dict = {}
                f = {**f, **({f["spoil"]: f["bad_" + f["spoil"]]} if f["spoil"] in ("fn", "store", "trigger") else {})}
                bad = f["spoil"] is not None
                ref = "vp.targets:" + f["fn"] if f["spoil"] != "fn" else f["fn"]
                form["callable_path"] = f["pad"] + ref + f["pad"]
                for k in ("name", "store"):
                    if f[k] is not None:
                        form[k] = f[k]
                how = f["trigger"]
                alias, config = "interval", {"seconds": 10}
                if how[0] == "interval":
                    form.update(trigger_type="interval", trigger_value=f"{how[1]}{how[2]}")
                    config = {{"s": "seconds", "m": "minutes", "h": "hours", "": "seconds"}[how[2]]: how[1]}
                elif how[0] == "cron":
                    alias, config = "cron", how[1]
                    form.update(trigger_type="cron", trigger_value=" ".join(config[k] for k in ("minute", "hour", "day", "month", "day_of_week")))
                elif how[0] == "date":
                    when = (TZ.at(T0) + timedelta(seconds=how[1]["at"])).replace(tzinfo=None)
                    if how[1]["zone"] is not None:
                        when = when.replace(tzinfo=timezone(timedelta(minutes=how[1]["zone"])))
                    alias, config = "date", {"run_at": when}
                    form.update(trigger_type="date", trigger_value=when.isoformat())
                elif how[0] == "bad":
                    form.update(trigger_type=how[1], trigger_value=how[2])
                args, kwargs = f["args"] or [], f["kwargs"] or {}
                if f["args"] is not None:
                    form["args"] = form_json(args, f["style"])
                if f["kwargs"] is not None:
                    form["kwargs"] = form_json(kwargs, f["style"])
                for k in ("args", "kwargs"):
                    if f["spoil"] == k:
                        form[k] = f["bad_" + k]
                if not bad:
                    try:
                        made = twin.add_task(getattr(targets, f["fn"]), alias, args=args, kwargs=kwargs, name=f["name"] or None, store=(f["store"] or "").strip() or "default", **config)
                    except Exception:  # noqa: BLE001
                        bad = True
                before, records = look(s), len(site.audit.query())
                page = post(site, site.base + "/tasks/create", form)
                after, found = look(s), site.audit.query()
                check(len(found) == records + 1 and found[0].action == "task.create", lambda: f"creating with {form} is recorded as {found[:2]}")  # noqa: B023
                check(page.ids() == [i.id for i in s.get_task_infos(sort_by="next_run_time")], lambda: f"the table after {form} shows {page.ids()}")  # noqa: B023
                if bad:
                    labels.append("refused")
                    check(after == before, lambda: f"{form} had to be refused, but {[v for k, v in after.items() if k not in before]} came")  # noqa: B023
                    check(page.flash.strip() and found[0].status == "failed" and found[0].message, lambda: f"{form} was refused without a message: {page.flash!r} {found[0]}")  # noqa: B023
                    continue
                labels += ["accepted", alias]
                new = [k for k in after if k not in before]
                check({k: v for k, v in after.items() if k in before} == before and len(new) == 1, lambda: f"{form} was not added: {page.flash.strip()!r}")  # noqa: B023
                want = look(twin)[(made.store_alias, made.id)]
                got = after[new[0]]
                check(new[0][0] == made.store_alias and got == want and typed(got[3:5]) == typed(want[3:5]), lambda: f"{form} gave {new[0][0]} {got} instead of {made.store_alias} {want}")  # noqa: B023
                check(found[0].status == "succeeded" and found[0].target_id == new[0][1] and not page.flash.strip(), lambda: f"{form} succeeded with {found[0]} and the message {page.flash!r}")  # noqa: B023
    return Outcome("refused" in labels or any(f["args"] or f["kwargs"] or f["name"] for f in c), labels)


# ------------------------------------------------------------------ edit

_deep = st.one_of(
    _json, st.sampled_from([["T", [1, 2]], ["D"], ["DT"], ["S"], ["B"], ["M"], ["O"], ["C"], ["N"], ["TL"]]).map(lambda x: {"py": x}),
)  # fmt: skip


def value(v: Any) -> Any:
    """generated argument -> real one, perhaps without a JSON form"""
    if isinstance(v, dict) and "py" in v:
        return {"T": (1, 2), "D": date(2024, 1, 2), "DT": datetime(2024, 1, 2, 3, tzinfo=timezone.utc), "S": {3, 4}, "B": b"\x00\xff", "M": {1: "a", "1": "b", None: 0}, "O": targets.anyargs, "C": complex(1, 2), "N": {"a": (1, [2, (3,)])}, "TL": [("a", 1), ("b", 2)]}[v["py"][0]]
    return v


_bad_change = st.one_of(
    st.tuples(st.just("name"), st.sampled_from(["renamed", "ü <b>", "", "  ", " padded "])),
    st.tuples(st.just("executor"), st.sampled_from(["dbg", "default", "", " dbg", "other"])),
    st.tuples(st.just("callable_path"), st.sampled_from(["vp.targets:plain", "vp.targets:one", "vp.targets:two", "vp.targets:anyargs", "", "vp.targets:missing", "nope", "vp.nope:x", "vp.targets:CALLS"])),
    st.tuples(st.just("args"), st.one_of(st.lists(_json, max_size=3).map(lambda v: {"json": v}), st.lists(_json, max_size=3).map(lambda v: {"json": v}), st.sampled_from(["", "[1", "{}", "null", "(1, 2)", "5"]))),
    st.tuples(st.just("kwargs"), st.one_of(st.dictionaries(st.sampled_from(["a", "b", "key"]), _json, max_size=2).map(lambda v: {"json": v}), st.sampled_from(["", "{", "[]", "null", "a=1", '"x"']))),
    st.tuples(st.just("coalesce"), st.sampled_from(["true", "false", "on", "0", "", "maybe", "TRUE"])),
    st.tuples(st.just("max_instances"), st.sampled_from(["1", "2", "17", "0", "-3", "", "x", "1.5", " 4 "])),
    st.tuples(st.just("mistrigger_grace_time"), st.sampled_from(["", "5", "1.5", "0", "-1", "nan", "inf", "x", "1e3", " 7 "])),
    st.tuples(st.just("clear_mistrigger_grace_time"), st.sampled_from(["1", None])),
)  # fmt: skip
_good_change = st.one_of(
    st.tuples(st.just("name"), st.sampled_from(["renamed", "ü <b>", " padded "])), st.tuples(st.just("executor"), st.sampled_from(["dbg", "default", " dbg", "other"])), st.tuples(st.just("callable_path"), st.sampled_from(["vp.targets:anyargs"] * 3 + ["vp.targets:two"])),
    st.tuples(st.just("args"), st.lists(_json, max_size=3).map(lambda v: {"json": v})), st.tuples(st.just("kwargs"), st.dictionaries(st.sampled_from(["a", "b", "key"]), _json, max_size=2).map(lambda v: {"json": v})), st.tuples(st.sampled_from(["args", "kwargs"]), st.just("")),
    st.tuples(st.just("coalesce"), st.sampled_from(["true", "false", "on", "0", "TRUE"])), st.tuples(st.just("max_instances"), st.sampled_from(["1", "2", "17", " 4 "])), st.tuples(st.just("mistrigger_grace_time"), st.sampled_from(["", "5", "1.5", "1e3", " 7 "])),
    st.tuples(st.just("clear_mistrigger_grace_time"), st.sampled_from(["1", None, None])),
)  # fmt: skip
_change = st.one_of(_good_change, _good_change, _good_change, _good_change, _bad_change)
EDIT = st.fixed_dictionaries(
    {
        "started": st.sampled_from([True, True, True, False]), "store": st.sampled_from(["default", "second"]), "paused": st.booleans(), "id": st.sampled_from(["job", "a b", "ü", "50%", "a+b", "a?b#c", "x&y=z"]),
        "fn": st.sampled_from(["anyargs"] * 6 + ["two"]), "name": st.sampled_from(["first", "ü <b>", "a&amp;b"]), "args": st.lists(_deep, max_size=2), "kwargs": st.dictionaries(st.sampled_from(["key", "b"]), _deep, max_size=2),
        "coalesce": st.booleans(), "max_instances": st.sampled_from([1, 3]), "grace": st.sampled_from([None, 1, 5, 2.5]),
        "steps": st.lists(st.tuples(st.sampled_from(["preview", "apply", "apply", "both", "both"]), st.lists(_change, max_size=3), st.integers(0, 7)), min_size=1, max_size=4),
    }
)  # fmt: skip

BAD_REF = ("", "vp.targets:missing", "nope", "vp.nope:x", "vp.targets:CALLS")


def expected(form: dict, task: Any, args_kept: bool, kwargs_kept: bool) -> Any:
    """-> the fields the form asks for, or None if it must be refused"""
    import inspect

    out: dict = {}
    if not form["name"].strip() or not form["executor"].strip() or form["callable_path"] in BAD_REF:
        return None
    out["name"] = form["name"].strip()
    out["executor"] = form["executor"].strip()
    out["fn"] = getattr(targets, form["callable_path"].partition(":")[2])
    out["callable reference"] = form["callable_path"]
    for k, kept, kind in (("args", args_kept, list), ("kwargs", kwargs_kept, dict)):
        if kept:
            out[k] = getattr(task, k)
            continue
        try:
            out[k] = json.loads(form[k]) if form[k].strip() else kind()
        except ValueError:
            return None
        if not isinstance(out[k], kind):
            return None
    out["args"] = tuple(out["args"])
    try:
        inspect.signature(out["fn"]).bind(*out["args"], **out["kwargs"])
    except TypeError:
        return None
    if form["coalesce"].lower() not in ("true", "on", "false", "0"):
        return None
    out["coalesce"] = form["coalesce"].lower() in ("true", "on")
    try:
        out["max instances"] = int(form["max_instances"])
        if "clear_mistrigger_grace_time" in form or not form["mistrigger_grace_time"].strip():
            out["mistrigger grace time"] = None
        else:
            out["mistrigger grace time"] = float(form["mistrigger_grace_time"])
            if not 0 < out["mistrigger grace time"] < float("inf"):
                return None
    except ValueError:
        return None
    return None if out["max instances"] < 1 else out


def callable_only(form: dict, task: Any, kept: dict) -> bool:
    """is nothing wrong with the form but the callable, or that it does not take the arguments?"""
    anything = {**form, "callable_path": "vp.targets:anyargs"}
    return bool(form["callable_path"].strip()) and expected(anything, task, kept["args"], kept["kwargs"]) is not None


def run_edit(c: dict) -> Outcome:
    load()
    labels: list = []
    hard = False
    with clock.virtual(TZ.at(T0)):
        site = board()
        s = site.s
        with started(s) if c["started"] else loop():
            if not c["started"]:
                s.add_store("memory", "second")
            more: dict = {"next_run_time": None} if c["paused"] else {}
            store = c["store"]
            try:
                s.add_task(
                    getattr(targets, c["fn"]), "interval", hours=1, id=c["id"], name=c["name"], args=[value(a) for a in c["args"]], kwargs={k: value(v) for k, v in c["kwargs"].items()}, store=store, coalesce=c["coalesce"], max_instances=c["max_instances"],
                    mistrigger_grace_time=c["grace"], **more,
                )  # fmt: skip
            except (TypeError, ValueError):
                return Outcome(False, ["not a task"])
            s.add_task(targets.anyargs, "interval", hours=2, id="bystander", store="second")
            key = (store, c["id"])
            url = site.base + "/tasks/" + quote(c["id"], safe="")
            events: list = []
            s.add_listener(events.append)
            get(site, url)
            for intent, changes, style in c["steps"]:
                page = get(site, url + "/edit")
                form = next((dict(f) for a, f in page.forms if "name" in f and "callable_path" in f), None)
                action = next((a["action"] for a, f in page.forms if "name" in f and "callable_path" in f), None)
                check(form is not None and resolve(url + "/edit", action).path == resolve("/", url + "/edit").path, lambda: f"the edit page of {c['id']!r} has the form {action}")
                assert form is not None
                kept = {"args": True, "kwargs": True}
                for k, v in changes:
                    if v is None:
                        form.pop(k, None)
                    else:
                        form[k] = form_json(v["json"], style) if isinstance(v, dict) else v
                    if k in kept:
                        kept[k] = False
                task = s.get_task(*key[::-1])
                # given as shown: kept as it is, whatever it is
                want = expected(form, task, kept["args"], kept["kwargs"])
                before = look(s)
                diffs: list = []
                for what in ("preview", "apply") if intent == "both" else (intent,):
                    events.clear()
                    old = look(s)
                    n = len(site.audit.query())
                    page = post(site, url + "/edit", {**form, "intent": what}, (200, 400))
                    status, _, data = 0, 0, 0
                    now = look(s)
                    rows = [[(cell or [""])[0] for cell in row] for row in page.cells if len(row) == 3]
                    shown = sorted(r[0].lower() for r in rows)
                    record = site.audit.query()[: len(site.audit.query()) - n]
                    text = " ".join(page.texts)
                    others = {k: v for k, v in now.items() if k != key}
                    check(others == {k: v for k, v in before.items() if k != key}, lambda: f"editing {key} changed others: {others}")  # noqa: B023
                    if want is None:
                        labels.append("refused")
                        hard = True
                        check(now == old, lambda: f"{form} had to be refused, but {old[key]} became {now.get(key)}")  # noqa: B023
                        if FAR and what == "preview" and page.status == 200:
                            # only the scheduler's own process can tell whether the callable takes these arguments
                            check(callable_only(form, task, kept) and not record, lambda: f"{form} was not refused: {text}")  # noqa: B023
                            continue
                        check("Validation failed" in text or "error" in text.lower(), lambda: f"{form} was refused without a message")  # noqa: B023
                        check([r.status for r in record] == ["failed"], lambda: f"refusing {form} was recorded as {record}")  # noqa: B023
                        continue
                    names = dict(zip(FIELDS, before[key]))
                    change = sorted(k for k, v in want.items() if names[k] != v and k != "fn")
                    check(shown == change, lambda: f"{what} of {form} lists {shown}, it is to change {change} of {names}")  # noqa: B023
                    if what == "preview":
                        labels.append("preview")
                        check(now == old and not events and not record, lambda: f"previewing {form} had an effect: {old[key]} -> {now.get(key)} {events} {record}")  # noqa: B023
                    else:
                        labels.append("applied" if change else "unchanged")
                        hard = hard or bool(change)
                        got = dict(zip(FIELDS, now[key]))
                        for k in FIELDS:
                            w = want.get(k, names[k])
                            check(got[k] == w and (k not in ("args", "kwargs") or typed(got[k]) == typed(w)), lambda: f"applying {form}: {k} became {got[k]!r} instead of {w!r}, it was {names[k]!r}")  # noqa: B023
                        if diffs:
                            check(rows == diffs, lambda: f"previewed {diffs}, applied {rows}")  # noqa: B023
                        check([r.status for r in record] == (["succeeded"] if change else []), lambda: f"applying {form} was recorded as {record}")  # noqa: B023
                        _ = status, data
                    diffs = rows
            if not c["started"]:
                s.remove_listener(events.append) if False else None
    return Outcome(hard, labels)


# ------------------------------------------------------------------ listings

_listed = st.fixed_dictionaries({"n": st.sampled_from(["alpha", "Beta", "beta", "ü", "a b", "100%", "<x>"]), "st": st.sampled_from(["default", "default", "second"]), "ex": st.sampled_from(["default", "dbg", "Dbg"]), "tr": st.sampled_from(["interval", "interval", "cron", "date"]), "k": st.integers(0, 40), "paused": st.booleans()})
_params = st.fixed_dictionaries(
    {},
    optional={
        "q": st.sampled_from(["beta", "BETA", "ü", "100%", "a b", " alpha ", "", "t1", "interval", "second", "zzz", "<x>", "paused", "vp.targets", "many", "& #1", "#1+", "%41=ü", "1 & "]), "state": st.sampled_from(["scheduled", "paused", "PAUSED", "pending", "", " scheduled ", "junk"]),
        "executor": st.sampled_from(["default", "dbg", "Dbg", "", "nope"]), "trigger": st.sampled_from(["interval", "cron", "date", "", "nope"]), "sort": st.sampled_from(["next_run_time", "name", "id", "schedule_state", "trigger", "store", "executor", "junk", ""]),
        "direction": st.sampled_from(["asc", "desc", "DESC", "junk", ""]), "per_page": st.sampled_from(["1", "2", "3", "7", "25", "50", "0", "-1", "100000", "x", ""]), "page": st.sampled_from(["1", "2", "3", "0", "-4", "99", "999999999", "x", ""]),
    },
)  # fmt: skip
LIST = st.fixed_dictionaries({"tasks": st.lists(_listed, max_size=14), "many": st.sampled_from([0, 0, 0, 5, 9, 60, 210]), "started": st.sampled_from([True, True, False]), "queries": st.lists(_params, min_size=1, max_size=4), "mode": st.sampled_from(["include", "starlette", "prefixed"])})

_paged = st.fixed_dictionaries(
    {"per_page": st.sampled_from(["1", "2", "2", "3", "4"]), "q": st.sampled_from(["many", "& #1", "#1+", "%41=ü", "1 & ", "", "m"])},
    optional={"page": st.sampled_from(["1", "2", "3", "99"]), "sort": st.sampled_from(["name", "id"]), "direction": st.just("desc"), "state": st.just("scheduled"), "trigger": st.just("interval"), "executor": st.just("default")},
)
PAGED = st.fixed_dictionaries({"tasks": st.lists(_listed, max_size=3), "many": st.sampled_from([5, 9]), "started": st.just(True), "queries": st.lists(_paged, min_size=1, max_size=2), "mode": st.sampled_from(["include", "starlette", "prefixed"])})
LIST = st.one_of(LIST, PAGED)


def bounded(x: Any, default: int, high: int) -> int:
    try:
        return max(1, min(int(x), high))
    except (TypeError, ValueError):
        return default


def run_list(c: dict) -> Outcome:
    load()
    labels: list = []
    hard = False
    with clock.virtual(TZ.at(T0)):
        site = board(c["mode"])
        s = site.s
        with started(s) if c["started"] else loop():
            if not c["started"]:
                s.add_store("memory", "second")
            for i, t in enumerate(c["tasks"]):
                config = {"interval": {"minutes": t["k"] + 1}, "cron": {"minute": str(t["k"])}, "date": {"run_at": TZ.at(T0) + timedelta(hours=t["k"] + 1)}}[t["tr"]]
                s.add_task(targets.anyargs, t["tr"], id=f"t{i}", name=t["n"], store=t["st"], executor=t["ex"], **config, **({"next_run_time": None} if t["paused"] else {}))
            for i in range(c["many"]):
                s.add_task(targets.anyargs, "interval", minutes=i % 7 + 1, id=f"m{i}", name=f"many {i % 3} & #1+%41=ü")
            for params in c["queries"]:
                clean = {k: v.strip() for k, v in params.items()}
                state = clean.get("state", "").lower()
                sort = clean.get("sort") or "next_run_time"
                want = [
                    (i.store_alias or "default", i.id)
                    for i in s.get_task_infos(
                        schedule_state=state if state in ("scheduled", "paused", "pending") else None, executor=clean.get("executor") or None, trigger=clean.get("trigger") or None, q=clean.get("q") or None,
                        sort_by=sort if sort != "junk" else "next_run_time", descending=clean.get("direction", "").lower() == "desc",
                    )
                ]  # fmt: skip
                size = bounded(clean.get("per_page"), 50, 200)
                pages = max(1, -(-len(want) // size))
                at = min(bounded(clean.get("page"), 1, 10_000), pages)
                target = site.base + "/tasks/" + ("?" + urlencode(params) if params else "")
                seen: dict = {}
                forward: Any = target
                steps = 0
                back: Any = None
                hard = hard or pages > 1 or 0 < len(want) < len(s.get_task_infos())
                while forward and steps < 12:
                    page = get(site, forward)
                    ids = [(row[5][0], row[0 + 1][0]) for row in page.cells if len(row) == 7]
                    check([i for _, i in ids] == page.ids(), lambda: f"{forward}: rows {ids} but checkboxes {page.ids()}")  # noqa: B023
                    part = want[(at - 1) * size : at * size]
                    check(ids == part, lambda: f"{forward} with {len(want)} matching tasks shows {ids}, page {at} of {pages} has {part}")  # noqa: B023
                    text = " ".join(" ".join(page.texts).split())
                    first = (at - 1) * size + 1 if want else 0
                    check(f"Showing {first}-{min(at * size, len(want))} of {len(want)} matching" in text, lambda: f"{forward} does not say {first}-{min(at * size, len(want))} of {len(want)}")  # noqa: B023
                    # the table alone is the same
                    alone = get(site, forward.replace("/tasks/", "/tasks/partials/table", 1))
                    check(alone.ids() == page.ids(), lambda: f"the table alone of {forward} shows {alone.ids()}, the page {page.ids()}")  # noqa: B023
                    seen[at] = ids
                    links = {"".join(t): a for a, t in page.links}
                    for name, there in (("Previous", at > 1), ("Next", at < pages)):
                        check(("hx-get" in links[name]) == there and (links[name].get("aria-disabled") == "true") == (not there), lambda: f"{forward}: page {at} of {pages} and the link {name} {links[name]}")  # noqa: B023
                    back = links["Previous"] if at > 1 and back is None else back
                    nxt = links["Next"]
                    if at < pages:
                        u, h = resolve(forward, nxt["href"]), resolve(forward, nxt["hx-get"])
                        check(u.query == h.query and h.path == u.path + "partials/table", lambda: f"{forward}: Next leads to {nxt}")  # noqa: B023
                        forward, at = u.path + "?" + u.query, at + 1
                    else:
                        forward = None
                    steps += 1
                labels += ["pages" if pages > 1 else "one page", "filtered" if len(want) < len(s.get_task_infos()) else "all"]
                if back is not None:
                    u = resolve(target, back["href"])
                    page = get(site, u.path + ("?" + u.query if u.query else ""))
                    number = min(bounded(clean.get("page"), 1, 10_000), pages)
                    ok = [i for _, i in want[(number - 2) * size : (number - 1) * size]] if number > 1 else None
                    check(ok is None or page.ids() == ok, lambda: f"{target}: Previous leads to {page.ids()} instead of {ok}")  # noqa: B023
    return Outcome(hard, labels)


# ------------------------------------------------------------------ actions

_ids = st.one_of(st.sampled_from(["a", "b", "a b", "ü", "50%", "a%62", "ab", "a?b", "a#b", "a&b", "a=b", "a+b", "a;b", "a,b", '"q"', "[x]", "it's", "<b>", "hx", "run", "table", "x\\y", "http:", "a:b", "edit", "A", "%20", "a\tb", "...", "~", "é", "e\u0301", "nul", " a", "b "]), st.text(alphabet="ab%2 5C?&#+;,\"'<é", min_size=1, max_size=5)).filter(lambda x: x.strip())
_act = st.one_of(
    st.tuples(st.just("row"), st.sampled_from(["run", "pause", "resume", "remove"]), st.integers(0, 20)),
    st.tuples(st.just("bulk"), st.sampled_from(["run", "pause", "resume", "remove"]), st.lists(st.integers(0, 20), max_size=4), st.sampled_from(["json", "json", "json-dup", "json-missing", "comma", "json-junk"])),
    st.tuples(st.just("missing"), st.sampled_from(["run", "pause", "resume", "remove"]), st.sampled_from(["gone", "a c", "%41"])),
)  # fmt: skip
ACT = st.fixed_dictionaries(
    {"ids": st.lists(_ids, min_size=1, max_size=5, unique=True), "paused": st.lists(st.booleans(), min_size=5, max_size=5), "dates": st.lists(st.sampled_from([False, False, True]), min_size=5, max_size=5), "acts": st.lists(_act, min_size=1, max_size=5), "mode": st.sampled_from(["include", "include", "starlette", "lilya", "root"]), "query": st.sampled_from(["", "?q=zzz", "?per_page=2&sort=name", "?state=paused"])}
)


def direct(s: Any, what: str, ids: list) -> None:
    """by the API"""

    async def act() -> None:
        for i in ids:
            if what == "run":
                s.run_task(i, remove_finished=False)
            else:
                getattr(s, {"pause": "pause_task", "resume": "resume_task", "remove": "delete_task"}[what])(i)

    web.LOOP.run_until_complete(act())


def run_act(c: dict) -> Outcome:
    load()
    labels: list = []
    hard = False
    with clock.virtual(TZ.at(T0)):
        from asyncz.schedulers import AsyncIOScheduler

        site, twin = board(c["mode"]), AsyncIOScheduler(timezone="UTC")
        s = site.s
        base = site.base + "/tasks/"
        with started(s, twin):
            for n, i in enumerate(c["ids"]):
                for one in (s, twin):
                    config = {"run_at": TZ.at(T0) + timedelta(hours=1)} if c["dates"][n] else {"hours": 1}
                    one.add_task(targets.anyargs, "date" if c["dates"][n] else "interval", **config, id=i, name="n", store=("default", "second")[n % 2], executor="dbg", args=[i], **({"next_run_time": None} if c["paused"][n] else {}))
            runs: list = []

            def heard(e: Any) -> None:
                from asyncz.events.constants import TASK_SUBMITTED

                if e.code == TASK_SUBMITTED:
                    runs.append(e.task_id)

            s.add_listener(heard)
            for act in c["acts"]:
                before = look(s)
                home = {i: key for key in before for i in [key[1]]}
                page = get(site, base)
                present = sorted(home)
                runs.clear()
                targets.CALLS.clear()
                records = len(site.audit.query())
                missing: list = []
                if act[0] == "row":
                    if not present:
                        continue
                    i = present[act[2] % len(present)]
                    # the button in the row of the task
                    mine = []
                    row = -1
                    for tag, attrs in page.tags:
                        a = dict(attrs)
                        if tag == "input" and a.get("name") == "row":
                            row += 1
                        if tag == "form" and "hx-post" in a and row >= 0:
                            mine.append((page.ids()[row], a["hx-post"]))
                    buttons = [u for j, u in mine if j == i and resolve(base, u).path.endswith("/" + act[1])]
                    paused = before[home[i]][-1].value == "paused"
                    if not buttons:
                        check((act[1] == "pause" and paused) or (act[1] == "resume" and not paused), lambda: f"the row of {i!r} has no {act[1]}: {mine}")  # noqa: B023
                        continue
                    check(len(buttons) == 1, lambda: f"the row of {i!r} has {buttons}")  # noqa: B023
                    u = resolve(base, buttons[0])
                    check(u.netloc == "testserver", lambda: f"the {act[1]} button of {i!r} leads to {buttons[0]}")  # noqa: B023
                    target, form, chosen = u.path + ("?" + u.query if u.query else ""), {}, [i]
                elif act[0] == "missing":
                    if act[2] in home:
                        continue
                    target, form, chosen, missing = base + quote(act[2], safe="") + "/" + act[1], {}, [], [act[2]]
                else:
                    chosen = list(dict.fromkeys(present[k % len(present)] for k in act[2])) if present else []
                    how = act[3]
                    if (how == "comma" and any("," in i or i.startswith("[") or i != i.strip() for i in chosen)):
                        how = "json"
                    if how == "comma":
                        text = " , ".join(chosen) + ","
                    else:
                        listed: list = list(chosen)
                        if how == "json-dup":
                            listed += chosen
                        if how == "json-missing":
                            missing = ["gone"] if "gone" not in home else []
                            listed = missing + listed
                        if how == "json-junk":
                            listed = [5, None, *listed, {"a": 1}]
                        text = form_json(listed, 0)
                    names = [u for t, a in page.tags for k, u in a if k == "hx-post" and u.split("?")[0].endswith("bulk/" + act[1])]
                    check(len(names) == 1, lambda: f"bulk {act[1]} has the buttons {names}")  # noqa: B023
                    target = resolve(base, names[0]).path + c["query"]
                    form = {"ids": text}
                answer = post(site, target, form)
                after = look(s)
                what = f"{act[1]} of {chosen} by POST {target} {form}"
                submitted = list(runs)
                effect = list(chosen)
                calls = len(targets.CALLS)
                direct(twin, act[1], effect)
                want = look(twin)
                check(after == want, lambda: f"{what} left {after} instead of {want}, before {before}")  # noqa: B023
                check(submitted == (effect if act[1] == "run" else []), lambda: f"{what} ran {submitted}")  # noqa: B023
                check(calls == len(submitted), lambda: f"{what}: {calls} calls, {len(submitted)} submissions")  # noqa: B023
                found = site.audit.query()
                got = sorted((r.target_id, r.action, r.status) for r in found[: len(found) - records])
                check(got == sorted([(i, "task." + act[1], "succeeded") for i in effect] + [(i, "task." + act[1], "failed") for i in missing]), lambda: f"{what} was recorded as {got}")  # noqa: B023
                query = c["query"] if act[0] == "bulk" else ""
                whole = get(site, base + query)
                check(answer.ids() == whole.ids(), lambda: f"the table after {what} shows {answer.ids()}, the page {whole.ids()}")  # noqa: B023
                labels.append(act[0] + " " + act[1])
                hard = hard or bool(effect)
            page = get(site, base)
            details = [a["href"] for a, t in page.links if a.get("title") == "Details"]
            edits = [a["href"] for a, t in page.links if a.get("title") == "Edit"]
            for i, d, e in zip(page.ids(), details, edits):
                for link in (d, e):
                    u = resolve(base, link)
                    texts = get(site, u.path).texts
                    check(i.strip() in [x.strip() for x in texts], lambda: f"the link {link} of {i!r} leads to another page")  # noqa: B023
    return Outcome(hard, labels)


# ------------------------------------------------------------------ other pages

_when = st.integers(0, 50)
PAGES = st.fixed_dictionaries(
    {
        "tasks": st.lists(st.tuples(st.sampled_from(["interval", "cron", "date"]), st.integers(1, 50), st.booleans(), st.sampled_from(["default", "second"])), min_size=1, max_size=4),
        "runs": st.lists(st.integers(0, 3), max_size=6), "more": st.lists(st.tuples(st.integers(0, 3), st.sampled_from(["scheduled", "manual", "unknown"])), max_size=4), "logs": st.lists(st.tuples(st.sampled_from(["DEBUG", "INFO", "WARNING", "ERROR"]), st.integers(0, 3), st.sampled_from(["msg", "other msg", "ünï"])), max_size=6),
        "audits": st.lists(st.tuples(st.sampled_from(["task.run", "task.pause", "user.login"]), st.sampled_from(["succeeded", "failed", "warning"]), st.sampled_from(["t0", "t1", None]), st.sampled_from(["did it", "DID not"])), max_size=6),
        "queries": st.lists(
            st.fixed_dictionaries(
                {
                    "page": st.sampled_from(["history", "logs", "events", "audit", "timeline"]), "limit": st.sampled_from([None, None, "1", "2", "0", "-3", "x", "99999", ""]), "per_task": st.sampled_from([None, "1", "2", "10", "0", "77", "x"]), "by": st.integers(0, 7), "pick": st.integers(0, 9),
                    "spell": st.sampled_from(["plain", "upper", "lower", "pad"]),
                }
            ), min_size=2, max_size=6,
        ),
        "same": st.booleans(),
    }
)  # fmt: skip


def run_pages(c: dict) -> Outcome:
    from asyncz.contrib.dashboard.events import get_scheduler_event_storage
    from asyncz.contrib.dashboard.logs.storage import LogEntry
    from asyncz.events import TaskSubmissionEvent
    from asyncz.events.constants import TASK_SUBMITTED

    load()
    labels: list = []
    hard = False
    with clock.virtual(TZ.at(T0)) as vc:
        _ = vc
        site = board()
        s = site.s
        with started(s):
            for n, (kind, k, paused, store) in enumerate(c["tasks"]):
                config = {"interval": {"minutes": k}, "cron": {"minute": str(k)}, "date": {"run_at": TZ.at(T0) + timedelta(hours=k)}}[kind]
                s.add_task(targets.anyargs, kind, id=f"t{n}", name=f"task {n}", store=store, executor="dbg", **config, **({"next_run_time": None} if paused else {}))
            if c["same"]:
                # the same id in the other store
                s.add_task(targets.anyargs, "interval", hours=77, id="t0", name="twin", store="default" if c["tasks"][0][3] == "second" else "second", executor="dbg")
            for r in c["runs"]:
                i = f"t{r % len(c['tasks'])}"
                post(site, site.base + f"/tasks/{i}/run", {})
            for n, (r, source) in enumerate(c["more"]):
                when = TZ.at(T0) + timedelta(minutes=n)
                s.dispatch_event(TaskSubmissionEvent(code=TASK_SUBMITTED, task_id=f"t{r % len(c['tasks'])}", store="default", scheduled_run_times=[when], source=source))
            site.audit.clear() if hasattr(site.audit, "clear") else None
            for level, n, text in c["logs"]:
                site.logs.append(LogEntry(ts=datetime(2023, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=n), level=level, message=text, logger="lg", task_id=f"t{n}", extra={"run_id": f"r{n}"}))
            for action, status, target, message in c["audits"]:
                site.audit.append(action=action, status=status, target_id=target, message=message)
            for f in c["queries"]:
                name = f["page"]
                params: dict = {}
                if f["limit"] is not None:
                    params["limit"] = f["limit"]
                if name == "timeline":
                    if f["per_task"] is not None:
                        params["per_task"] = f["per_task"]
                    per = bounded(params.get("per_task"), 3, 10)
                    limit = bounded(params.get("limit"), 100, 500)
                    want = []
                    for info in s.get_task_infos():
                        preview = s.preview_task_runs(info.id, info.store_alias, count=per)
                        want += [(t, info.id, info.name, info.store_alias) for t in (preview.run_times if preview else [])]
                    times = sorted(t for t, *_ in want)[:limit]
                    page = get(site, site.base + "/timeline/" + ("?" + urlencode(params) if params else ""))
                    rows = [row for row in page.cells if len(row) == 5]
                    got = [(r[0][0], r[1][0], r[1][1], r[3][0]) for r in rows]
                    check([g[0] for g in got] == [t.isoformat(timespec="seconds") for t in times], lambda: f"the timeline {params} shows {got} instead of the times {times}")  # noqa: B023
                    have = sorted((t.isoformat(timespec="seconds"), i, n, st_) for t, i, n, st_ in want)
                    check(all(g in have for g in got) and len(set(got)) == len([*set(got)]), lambda: f"the timeline {params} shows {[g for g in got if g not in have]}, which are not runs: {have}")  # noqa: B023
                    hard = hard or len(want) > len(got) > 0
                    labels.append("timeline")
                    continue
                storage: Any = {"history": site.history, "logs": site.logs, "events": get_scheduler_event_storage(), "audit": site.audit}[name]
                everything = list(storage.query(limit=1000))
                keys = {"history": ["task_id", "status", "source"], "logs": ["task_id", "level", "run_id"], "events": ["task_id", "category", "name"], "audit": ["action", "status"]}[name]

                def of(r: Any, k: str) -> Any:
                    return (r.extra or {}).get("run_id") if k == "run_id" else getattr(r, k)

                picked: dict = {}
                for bit, k in enumerate(keys):
                    if f["by"] >> bit & 1:
                        values = sorted({str(of(r, k)) for r in everything if of(r, k) is not None})
                        picked[k] = values[f["pick"] % len(values)] if values else "nope"
                        free = k not in ("task_id", "run_id")
                        params[k] = picked[k].upper() if f["spell"] == "upper" and free else picked[k].lower() if f["spell"] == "lower" and free else " " + picked[k] + " " if f["spell"] == "pad" else picked[k]
                want = [r for r in everything if all(of(r, k) is not None and str(of(r, k)).lower() == v.lower() for k, v in picked.items())]
                limit = bounded(params.get("limit") or "200", 200, 1000)
                want = want[:limit]
                page = get(site, site.base + f"/{name}/" + ("?" + urlencode(params) if params else ""))
                rows = [row for row in page.cells if len(row) > 1]
                if name == "history":
                    got, ids = [[x.removeprefix("Run ") for x in row[1] if x.startswith("Run ")] for row in rows], [[r.run_id] for r in want]
                elif name == "logs":
                    got, ids = [[row[1][0], row[2][0], row[3][0], row[6][0]] for row in rows], [[r.level, r.task_id or "-", of(r, "run_id") or "-", r.message] for r in want]
                else:
                    got, ids = [[row[1][1]] for row in rows], [[r.event_id] for r in want]
                check(got == ids, lambda: f"{name} {params} shows {got} instead of {ids}")  # noqa: B023
                if name in ("history", "logs"):
                    alone = get(site, site.base + f"/{name}/partials/table" + ("?" + urlencode(params) if params else ""))
                    check([r for r in alone.cells if len(r) > 1] == rows, lambda: f"the table alone of {name} {params} is another")  # noqa: B023
                if name == "history":
                    for a, t in page.links:
                        if "".join(t) == "Inspect Logs":
                            u = resolve(site.base + "/history/", a["href"])
                            check(u.path.rpartition("/")[2] in get(site, u.path).texts or any(u.path.rpartition("/")[2] in x for x in get(site, u.path).texts), lambda: f"{a} leads to another run")  # noqa: B023
                labels.append(name)
                hard = hard or 0 < len(want) < len(everything)
    return Outcome(hard, labels)


PARTS = [
    Part("create", lambda: where(CREATE), either(run_create), quick=200, thorough=6000),
    Part("edit", lambda: where(EDIT), either(run_edit), quick=250, thorough=8000),
    Part("list", lambda: where(LIST), either(run_list), quick=160, thorough=3000),
    Part("act", lambda: where(ACT), either(run_act), quick=150, thorough=5000),
    Part("pages", lambda: PAGES, run_pages, quick=120, thorough=4000),
]
