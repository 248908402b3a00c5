"""P29: no dashboard page or action is reachable without authentication."""

from __future__ import annotations

import contextlib
import json
import logging
import re
from typing import Any
from urllib.parse import parse_qsl, quote, unquote, urlencode, urlsplit

from hypothesis import strategies as st

from vp import clock, targets, web
from vp import tz as TZ
from vp.runner import Outcome, Part, Violation, check
from vp.site import Page, Site, Visitor, load, one, resolve
from vp.taskgen import T0

PROPERTY = "P29"
RULE = (
    "gate: a dashboard with login, mounted in one of seven ways (with a proxy that strips a prefix, or not), receives generated requests without a valid session: every route, "
    "respelled paths, odd methods, headers, cookies and bodies; each is answered by the login flow and has no effect, and nothing protected is shown outside the allowed paths; a visitor who follows the "
    "login flow from any page, with wrong and right credentials, arrives at the page asked for, can act, and after logging out cannot. next: logging in with any `next` never leaves the site. "
    "prefix: pages rendered with all kinds of forwarded prefixes from all kinds of clients are those of the clean prefix or those without the header. "
    "escape: every page has the same structure with hostile texts in every place users write to as with plain ones. "
    "Non-trivial: gate: a request was refused and one was served; next, escape: all; prefix: the prefix was used, or had to be refused."
)

SECRET = "s3cretmark"


def seen(site: Site) -> Any:
    return ([(t.id, t.name, t.schedule_state, t.next_run_time, t.submitted) for t in site.s.get_task_infos()], len(site.audit.query()), len(site.history.query(limit=10_000)), site.s.state)


TASKS = ["job", f"job {SECRET}", "x-y"]


@contextlib.contextmanager
def running(site: Site) -> Any:
    import asyncio

    if web.LOOP is None or web.LOOP.is_closed():
        web.LOOP = asyncio.new_event_loop()
    asyncio.set_event_loop(web.LOOP)

    async def begin() -> None:
        site.s.start()
        for i in TASKS:
            site.s.add_task("vp.targets:anyargs", "interval", hours=1, id=i, name=f"name {SECRET}")

    web.LOOP.run_until_complete(begin())
    logging.getLogger("asyncz").setLevel(logging.DEBUG)
    logging.getLogger("asyncz.task.vp").info("log " + SECRET, extra={"task_id": "job"})
    try:
        yield
    finally:

        async def end() -> None:
            site.s.shutdown(wait=False)
            await asyncio.sleep(0)

        web.LOOP.run_until_complete(end())


GETS = ["/", "/tasks/", "/tasks/?q=name&state=scheduled&page=1", "/tasks/partials/table", "/tasks/job", "/tasks/x-y/edit", "/history/", "/logs/?task_id=job", "/logs/partials/table", "/events/", "/audit/", "/runtime/", "/instances/", "/timeline/"]
POSTS = [
    ("/tasks/create", {"callable_path": "vp.targets:anyargs", "trigger_type": "interval", "trigger_value": "10s"}), ("/tasks/job/edit", {"intent": "apply", "name": "n2", "callable_path": "vp.targets:plain", "executor": "default", "coalesce": "true", "max_instances": "1"}),
    ("/tasks/job/run", {}), ("/tasks/job/pause", {}), ("/tasks/x-y/resume", {}), ("/tasks/x-y/remove", {}), ("/tasks/hx/bulk/pause", {"ids": '["job", "x-y"]'}), ("/tasks/hx/bulk/remove", {"ids": "job,x-y"}), ("/tasks/hx/bulk/run", {"ids": "job"}),
    ("/tasks/hx/bulk/resume", {"ids": "job"}),
]  # fmt: skip

SPELL = [
    "plain", "plain", "plain", "double", "dot", "up", "static-up", "login-up", "assets-up", "encoded-up", "upper", "encoded", "encoded-slash", "slash", "no-slash", "semicolon", "null", "backslash", "login-semi", "static-query", "static-fragment", "tail-login", "tail-static",
    "absolute", "login-null", "static-prefix", "login-slash",
]  # fmt: skip


def respell(site: Site, how: str, path: str) -> str:
    path, _, query = path.partition("?")
    query = "?" + query if query else ""
    base, root = site.base, site.root
    full = base + path
    out = {
        "double": "/" + full, "dot": base + "/." + path, "up": base + "/x/.." + path, "static-up": base + "/static/.." + path, "login-up": root + "/login/.." + full[len(root) :], "assets-up": base + "/assets/../" + path,
        "encoded-up": base + "/static/%2e%2e" + path, "upper": full.upper(), "encoded": full.replace("t", "%74"), "encoded-slash": base + quote(path, safe=""), "slash": full + "/", "no-slash": full.rstrip("/"), "semicolon": full + ";/static/",
        "null": full + "%00/static", "backslash": root + "/static\\.." + path, "login-semi": root + "/login;" + path, "static-query": full + "?/static/", "static-fragment": full + "%23/static/", "tail-login": full + "/login", "tail-static": full + "/static/x",
        "absolute": "//testserver" + full, "login-null": root + "/login%00" + path, "static-prefix": base + "/staticx/.." + path, "login-slash": root + "/login/" + path,
    }.get(how, full)  # fmt: skip
    return (out or "/") + ("" if "?" in out else query)


COOKIES = ["none", "none", "junk", "null", "unsigned", "other-key", "flip-data", "flip-sig", "no-user", "empty-user", "logged-out"]
_unauth = st.fixed_dictionaries(
    {
        "k": st.just("no"), "method": st.sampled_from(["GET", "GET", "POST", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "get", "LOGIN"]), "at": st.one_of(st.integers(0, len(GETS) - 1), st.integers(-len(POSTS), -1)),
        "spell": st.sampled_from(SPELL), "cookie": st.sampled_from(COOKIES),
        "headers": st.lists(
            st.sampled_from(
                [
                    ["hx-request", "true"], ["hx-request", "TRUE"], ["x-forwarded-prefix", "/login"], ["x-forwarded-prefix", "/static"], ["x-original-url", "/login"], ["x-rewrite-url", "/login"], ["x-http-method-override", "GET"], ["x-forwarded-for", "127.0.0.1"],
                    ["authorization", "Basic YWRtaW46cGEgc3M="], ["origin", "http://evil"], ["access-control-request-method", "POST"], ["x-user", "admin"], ["referer", "http://testserver/login"], ["x-forwarded-user", "admin"], ["accept", "*/*"],
                ]
            ), max_size=3,
        ),
    }
)  # fmt: skip
_get = st.sampled_from([*GETS, "/tasks/?q=a%20b&executor=%C3%BC", "/logs/?q=x%20y&level=INFO", "/nope?x=1", "/tasks/job%20" + SECRET])
_flow = st.fixed_dictionaries({"k": st.just("flow"), "get": _get, "hx": st.booleans(), "wrong": st.integers(0, 2), "acts": st.lists(st.integers(0, len(POSTS) - 1), max_size=3), "logout": st.sampled_from(["GET", "POST"])})
_served = st.fixed_dictionaries({"k": st.just("open"), "get": _get})
MODES = ["include", "include", "bare", "prefixed", "lilya", "starlette", "below", "root"]
GATE = st.fixed_dictionaries(
    {
        "mode": st.sampled_from(MODES), "outside": st.sampled_from(["", "", "", "/ops", "/a/b"]), "forward": st.booleans(), "cors": st.booleans(), "login_path": st.sampled_from(["/login", "/login", "/login", "/auth/sign-in"]), "prefix": st.sampled_from(["/dashboard", "/dashboard", "/jobs", "/a/b"]),
        "header": st.sampled_from([False, False, False, True]), "ops": st.lists(st.one_of(_unauth, _unauth, _unauth, _flow, _served), min_size=1, max_size=6),
    }
)  # fmt: skip


def allowed(site: Site, path: str, login_path: str) -> bool:
    """login and asset paths"""
    path = unquote(path)
    mine = [site.root + x for x in (login_path, "/login", "/logout", "/static", "/assets")] + [site.base + x for x in ("/static", "/assets")]
    return any(path == x or path.startswith(x + "/") for x in mine)


def is_login(v: Visitor, status: int, headers: list, hx: bool, what: str) -> Any:
    """-> the page the login was asked for"""
    at = one(headers, "hx-redirect") if hx else one(headers, "location")
    check(status == (401 if hx else 303) and at is not None, lambda: f"{what}: {status} {headers}")
    u = resolve("/", at)
    check(u.netloc == "testserver" and u.path == v.outside + v.site.login, lambda: f"{what} leads to {at}, the login is at {v.outside + v.site.login}")
    return at


def forge(site: Site, how: str, good: str, out: str) -> Any:
    import base64

    import itsdangerous

    if how in ("none", ""):
        return None
    if how == "junk":
        return "x.y.z"
    if how == "null":
        return "null"
    data, stamp, sig = good.split(".")
    if how == "unsigned":
        return data
    if how == "other-key":
        return itsdangerous.TimestampSigner("other").sign(data).decode()
    if how == "flip-data":
        x = "A" if data[5] != "A" else "B"
        return ".".join([data[:5] + x + data[6:], stamp, sig])
    if how == "flip-sig":
        x = "A" if sig[5] != "A" else "B"
        return ".".join([data, stamp, sig[:5] + x + sig[6:]])
    if how == "no-user":
        return itsdangerous.TimestampSigner("k3y").sign(base64.b64encode(b'{"other": 1}')).decode()
    if how == "empty-user":
        return itsdangerous.TimestampSigner("k3y").sign(base64.b64encode(b'{"asyncz_admin": null}')).decode()
    return out


def log_in(v: Visitor, at: str, wrong: int, next_: Any = None) -> tuple:
    """fill in the form; -> status, headers of the last answer"""
    status, _, data = v.call("GET", at)
    check(status == 200, lambda: f"the login page {at}: {status}")
    for n in range(wrong + 1):
        page = Page(data)
        forms = [dict(a) for t, a in page.tags if t == "form"]
        check(len(forms) == 1 and forms[0].get("method", "").lower() == "post", lambda: f"the login page {at} has no form")
        u = resolve(at, forms[0]["action"])
        check(u.netloc == "testserver", lambda: f"the login form posts to {u}")
        form = {dict(a)["name"]: dict(a).get("value", "") for t, a in page.tags if t == "input" and dict(a).get("type") == "hidden"}
        ok = n == wrong
        form.update(username="admin", password="pa ss&ü" if ok else ["pa ss", "", "PA SS&ü"][n % 3])
        status, headers, data = v.call("POST", u.path, form)
        if ok:
            break
        check(status == 200 and one(headers, "location") is None, lambda: f"wrong credentials are answered {status}")
        st_, h_, d_ = v.call("GET", v.outside + v.site.base + "/tasks/")
        is_login(v, st_, h_, False, "after wrong credentials the task page")
    return status, headers


def run_gate(c: dict) -> Outcome:
    from asyncz import monkay

    load()
    config = monkay.settings.dashboard_config
    before_key = config.secret_key
    config.secret_key = "k3y"
    try:
        with clock.virtual(TZ.at(T0)):
            return gate(c)
    finally:
        config.secret_key = before_key


def gate(c: dict) -> Outcome:
    outside = c["outside"]
    more: dict = {"login_path": c["login_path"]} if c["login_path"] != "/login" else {}
    if c["prefix"] != "/dashboard":
        more["url_prefix"] = c["prefix"]
    site = Site(c["mode"], header=c["header"], enable_forward_middleware=bool(outside) or c["forward"], include_cors=c["cors"], **more)
    refused = served = 0
    with running(site):
        base = outside + site.base
        good = out = ""
        if not c["header"]:
            v = Visitor(site, outside)
            status, headers = log_in(v, outside + site.login, 0)
            good = v.cookies["asyncz_admin"]
            check(status == 303 and resolve("/", one(headers, "location")).path.rstrip("/") == base, lambda: f"logging in leads to {one(headers, 'location')}, the dashboard is at {base}")
            v.call("GET", outside + site.root + "/logout")
            out = v.cookies.get("asyncz_admin", "")
        for o in c["ops"]:
            if o["k"] == "no":
                headers = [*map(tuple, o["headers"])]
                path, form = (GETS[o["at"]], {}) if o["at"] >= 0 else POSTS[o["at"]]
                if [k for k, _ in headers].count("hx-request") > 1:
                    headers = headers[:1]
                target = respell(site, o["spell"], path)
                if o["spell"] in ("upper",) and not target.startswith(site.server_root):
                    continue
                hx = dict(reversed(headers)).get("hx-request") == "true"
                if good and (cookie := forge(site, o["cookie"], good, out)) is not None:
                    headers.append(("cookie", f"asyncz_admin={cookie}"))
                if outside:
                    headers = [(k, x) for k, x in headers if k != "x-forwarded-prefix"] + [("x-forwarded-prefix", outside)]
                forward = dict(headers).get("x-forwarded-prefix", "") if outside or c["forward"] else ""
                headers.append(("content-type", "application/x-www-form-urlencoded"))
                before = seen(site)
                what = f"{o['method']} {target} {headers}"
                status, got, data = site.call(o["method"], target, headers, urlencode(form).encode())
                check(SECRET.encode() not in data and b"anyargs" not in data and all(SECRET not in x for _, x in got if _ not in ("location", "hx-redirect")), lambda: f"{what}: {status} shows {data!r}")  # noqa: B023
                check(seen(site) == before, lambda: f"{what} has an effect: {before} -> {seen(site)}")  # noqa: B023
                preflight = c["cors"] and o["method"] == "OPTIONS" and {"origin", "access-control-request-method"} <= set(dict(headers))
                if site.server_root and not target.startswith(site.server_root + "/"):
                    continue
                mounted = target.split("?")[0].startswith(site.root + "/") or not site.root
                if mounted and not allowed(site, target.split("?")[0], c["login_path"]) and not preflight:
                    at = is_login(Visitor(site, forward), status, got, hx, what)
                    if resolve("/", at).path:
                        refused += 1
            elif c["header"]:
                status, _, data = Visitor(site, outside, [("x-user", "h")]).call("GET", base + o["get"])
                check(status == (404 if "nope" in o["get"] else 200), lambda: f"{o['get']} of an authenticated user: {status}")  # noqa: B023
                served += 1
            elif o["k"] == "open":
                v = Visitor(site, outside)
                v.cookies["asyncz_admin"] = good
                status, _, data = v.call("GET", base + o["get"])
                check(status == (404 if "nope" in o["get"] or not exists(site, o["get"]) else 200), lambda: f"{o['get']} of an authenticated user: {status}")  # noqa: B023
                served += 1
            else:
                flow(c, site, o, base)
                served += 1
                refused += 1
    return Outcome(bool(refused and served), [c["mode"], *{o["k"] for o in c["ops"]}])


def exists(site: Site, path: str) -> bool:
    m = re.fullmatch(r"/tasks/([^/?]+)(/edit)?", path)
    return not m or m[1] == "partials" or any(t.id == unquote(m[1]) for t in site.s.get_task_infos())


def flow(c: dict, site: Site, o: dict, base: str) -> None:
    v = Visitor(site, c["outside"])
    asked = base + o["get"]
    status, headers, data = v.call("GET", asked, headers=[("hx-request", "true")] if o["hx"] else [])
    at = is_login(v, status, headers, o["hx"], f"GET {asked}")
    status, headers = log_in(v, at, o["wrong"])
    to = one(headers, "location")
    check(status == 303 and to is not None, lambda: f"the right credentials are answered {status}")
    u, w = resolve(at, to), urlsplit(asked)
    check((u.netloc, unquote(u.path), parse_qsl(u.query, True)) == ("testserver", unquote(w.path), parse_qsl(w.query, True)), lambda: f"asked for {asked}, the login leads to {to}")
    there = exists(site, o["get"]) and "nope" not in o["get"]
    status, _, data = v.call("GET", u.path + ("?" + u.query if u.query else ""))
    check(status == (200 if there else 404), lambda: f"after the login {asked} gives {status}")
    if there and o["get"].startswith("/tasks/?q=name"):
        check(SECRET.encode() in data or not any(t.paused is False for t in site.s.get_task_infos()), lambda: f"after the login {asked} does not show the tasks")
    for i in o["acts"]:
        path, form = POSTS[i]
        before = seen(site)
        status, _, _ = v.call("POST", base + path, form)
        again = path.endswith("/edit") and ("n2" in [x[1] for x in before[0]])
        check(status in (200, 404) and (again or seen(site) != before), lambda: f"{path} of an authenticated user gives {status} and has no effect")  # noqa: B023
    old = dict(v.cookies)
    status, headers, _ = v.call(o["logout"], c["outside"] + site.root + "/logout")
    to = one(headers, "location")
    check(status == 303 and to is not None and resolve("/", to)[1:3] == ("testserver", c["outside"] + site.login), lambda: f"logging out leads to {to}, the login is at {c['outside'] + site.login}")
    check(v.cookies != old, "logging out keeps the session")
    before = seen(site)
    status, headers, _ = v.call("POST", base + "/tasks/job/pause", {})
    is_login(v, status, headers, False, "an action after logging out")
    check(seen(site) == before, "an action after logging out has an effect")


# ------------------------------------------------------------------ where a login leads

_hostile = st.one_of(
    st.sampled_from(
        [
            "//evil.com", "///evil.com", "////evil.com/x", "http://evil.com", "https:evil.com", "https:///evil.com", "\\\\evil.com", "/\\evil.com", "\\/evil.com", "/\t/evil.com", "\t//evil.com", " //evil.com", "/\n/evil.com", "javascript:alert(1)", "java\tscript:x", "data:text/html,x",
            "http:evil.com", "//evil.com@testserver/", "http://testserver@evil.com/", "//testserver.evil.com", "evil.com", "@evil.com", "//%65vil.com", "/%2f/evil.com", "/x\r\nset-cookie: a=b", "?x", "#x", ".", "..", "/..//evil.com", "/.//evil.com", "/x/..//evil.com", "", "http://", "//",
            "http:/\\evil.com", "\x00//evil.com", "\x1f//evil.com", "//[evil", "http://[evil", "/dashboard/../..//evil.com", "\u3000//evil.com", "/\u2028/evil.com", "．．//evil.com", "/€",
        ]
    ),
    st.text(alphabet="/\\.:@?#\t\n ehtps%2f", min_size=1, max_size=12).map(lambda x: x + "evil.com"),
    st.text(alphabet="/\\.:\t\nx", min_size=1, max_size=8),
)  # fmt: skip
NEXT = st.fixed_dictionaries({"mode": st.sampled_from(MODES), "nexts": st.lists(_hostile, min_size=1, max_size=6), "via": st.sampled_from(["page", "form"])})


def run_next(c: dict) -> Outcome:
    load()
    with clock.virtual(TZ.at(T0)):
        site = Site(c["mode"])
        for x in c["nexts"]:
            v = Visitor(site)
            if c["via"] == "page":
                status, headers = log_in(v, site.login + "?next=" + quote(x, safe=""), 0)
            else:
                status, headers, _ = v.call("POST", site.login, {"username": "admin", "password": "pa ss&ü", "next": x})
            to = one(headers, "location")
            check(status == 303 and to is not None, lambda: f"a login with next={x!r} is answered {status}")  # noqa: B023
            check("\r" not in to and "\n" not in to, lambda: f"next={x!r} gives a header of several lines")  # noqa: B023
            u = resolve(site.login, to)
            check((u.scheme, u.netloc) == ("http", "testserver"), lambda: f"a login with next={x!r} leads to {to!r}")  # noqa: B023
    return Outcome(True, [c["mode"], c["via"]])


# ------------------------------------------------------------------ forwarded prefixes

GOOD = ["/ops", "ops", "/ops/", "/a/b", "a/b/", " /ops ", "/o-p_s.v1~x", "/A1", "/"]
BAD = [
    "//evil.com", "///evil.com/x", "http://evil.com", "https://evil.com/", "/\\evil.com", "\\\\evil.com", "/ops//evil", "/..", "/../x", "/x/../..", "/./x", "/ops?x=", "/ops#", '/"><x1>', "/ops'onx='", "/ops\" onx=\"1", "/ops x", "/%2f/evil.com", "/%2e%2e", "/a,/b", "/ops\x00", "/\xc3\xa9", "javascript:alert(1)//", "/ops;x", "@evil.com", "/@evil.com",
    "/ops\t", "/<x1>", "/{{7*7}}", ":80", "/ops:80",
]  # fmt: skip
HOSTS = [
    ("127.0.0.1", ("127.0.0.1",), True), ("127.0.0.1", ("127.0.0.1", "::1", "localhost"), True), ("10.1.2.3", ("10.0.0.0/8",), True), ("11.1.2.3", ("10.0.0.0/8",), False), ("10.1.2.3", ("10.1.2.0/24", "x"), True), ("10.1.3.3", ("10.1.2.0/24", "x"), False), ("::1", ("::1",), True),
    ("0:0:0:0:0:0:0:1", ("::1",), True), ("fe80::1", ("fe80::/10",), True), ("8.8.8.8", ("*",), True), (None, ("*",), True), (None, ("127.0.0.1",), False), ("8.8.8.8", (), False), ("127.0.0.11", ("127.0.0.1",), False), ("proxy", ("proxy",), True), ("proxy.evil", ("proxy",), False),
    ("", ("",), False), ("10.1.2.3", ("::/0",), False), ("8.8.8.8", ("0.0.0.0/0",), True), ("127.0.0.1", ("10.0.0.0/8", "*"), True), ("unix", ("127.0.0.1",), False),
]  # fmt: skip
PREFIX = st.fixed_dictionaries(
    {
        "mode": st.sampled_from(["include", "lilya", "starlette", "below", "root"]), "host": st.integers(0, len(HOSTS) - 1), "values": st.lists(st.one_of(st.sampled_from(GOOD), st.sampled_from(BAD), st.sampled_from(BAD)), min_size=1, max_size=3),
        "page": st.sampled_from(["/", "/tasks/", "/tasks/job", "/logs/", "/nope", "login"]), "enabled": st.sampled_from([True, True, True, False]), "name": st.sampled_from(["x-forwarded-prefix", "X-Forwarded-Prefix"]),
    }
)  # fmt: skip


def clean(v: str) -> Any:
    """the prefix a header stands for, None if it is none"""
    v = v.strip(" \t")
    if not v or v == "/":
        return ""
    p = ("" if v.startswith("/") else "/") + v
    if p.endswith("/"):
        p = p[:-1]
    return p if re.fullmatch(r"(/[A-Za-z0-9._~-]+)+", p) and not re.search(r"/\.{1,2}(/|$)", p) else None


def run_prefix(c: dict) -> Outcome:
    host, hosts, trusted = HOSTS[c["host"]]
    load()
    used = False
    with clock.virtual(TZ.at(T0)):
        site = Site(c["mode"], enable_forward_middleware=c["enabled"], trusted_forwarded_hosts=hosts, login=True)
        site.client = None if host is None else (host, 999)
        with running(site):
            v = Visitor(site)
            log_in(v, site.login, 0)
            cookie = [("cookie", f"asyncz_admin={v.cookies['asyncz_admin']}")]
            target = site.login if c["page"] == "login" else site.base + c["page"]
            plain = Page(site.call("GET", target, cookie)[2]).urls()
            for x in c["values"]:
                want = clean(x) if trusted and c["enabled"] else ""
                if want and c["page"] == "/nope":
                    pass
                status, headers, data = site.call("GET", target, [*cookie, (c["name"], x)])
                got = Page(data).urls()
                what = f"GET {target} with {c['name']}: {x!r} from {host!r}, trusted {hosts} ({'on' if c['enabled'] else 'off'})"
                if want:
                    check(got == [prefixed(u, want) for u in plain], lambda: f"{what} has the links {[(a, b) for a, b in zip(got, plain) if a != prefixed(b, want)]}")  # noqa: B023
                    used = True
                elif want is not None and not (trusted and c["enabled"]):
                    check(got == plain, lambda: f"{what} changes links: {[(a, b) for a, b in zip(got, plain) if a != b]}")  # noqa: B023
                    used = used or bool(x.strip(" /\t"))
                else:
                    for g, p in zip(got, plain):
                        u = resolve(target, g)
                        check(u.netloc == "testserver" and u.scheme == "http", lambda: f"{what} has a link to {g}")  # noqa: B023
                        tail = prefixed(p, "") if "://" not in p else urlsplit(p).path
                        extra = u.path[: -len(resolve(target, p).path)] if u.path.endswith(resolve(target, p).path) else None
                        check(extra is not None and (extra == "" or clean(extra) == extra), lambda: f"{what} has the link {g}, without the header {p}")  # noqa: B023
                        _ = tail
                    check(len(got) == len(plain), lambda: f"{what} has other links")  # noqa: B023
                    used = True
                # the login flow too
                status, headers, _ = site.call("GET", site.base + "/tasks/", [(c["name"], x)])
                at = one(headers, "location")
                u = resolve("/", at or "")
                check(status == 303 and u.netloc == "testserver" and u.path.endswith(site.login), lambda: f"{what}: not authenticated, led to {at}")  # noqa: B023
                extra = u.path[: -len(site.login)]
                check(extra == want if want is not None else extra == "" or clean(extra) == extra, lambda: f"{what}: not authenticated, led to {at}")  # noqa: B023
    return Outcome(used, ["trusted" if trusted else "untrusted", c["mode"]])


def prefixed(url: str, prefix: str) -> str:
    """an absolute link below `prefix`; relative ones stay"""
    m = re.match(r"^(http://testserver)?(/.*)$", url)
    return (m[1] or "") + prefix + m[2] if m else url


# ------------------------------------------------------------------ texts of users

_special = st.text(alphabet="<>\"'&/x1 =`{}%;-!", min_size=1, max_size=14)
_text = st.one_of(
    st.sampled_from(
        [
            '<x1 onx="1">', "</td></tr></table><x1>", '" onx="1', "' onx='1", '"><x1>', "<script>x1()</script>", "<!--", "-->", "&lt;x1&gt;", "&amp;", "<![CDATA[x1]]>", "{{ 7*7 }}", "{% raw %}", "</textarea><x1>", "</option></select><x1>", "</title><x1>", "<?x1", "&quot; onx=&quot;1", "%22%3E%3Cx1%3E", "</script><x1>", "` onx=`1",
            '\\"><x1>', "<x1", "<x1/>", "]]>", "\u2028<x1>", "＜x1＞", "<\u0000x1>", "<X1 ONX=1>",
        ]
    ),
    _special,
    st.tuples(_special, st.sampled_from(["<x1>", '"', "'", "</div>", "</p>"]), _special).map("".join),
)  # fmt: skip
ESCAPE = st.fixed_dictionaries({"texts": st.lists(_text, min_size=1, max_size=3), "mode": st.sampled_from(["include", "lilya", "include"])})


def tame(x: str) -> str:
    """as hostile text, of the same length, with letters only"""
    return "".join("z" if not (ch.isalnum() and ch.isascii()) else ch for ch in x)


async def run_once(s: Any, ident: str) -> None:
    s.run_task(ident, remove_finished=False)


def tour(texts: list, mode: str) -> list:
    """every page with `texts` wherever users write; -> (what, page)"""
    a = texts[0]
    b, d = texts[1 % len(texts)], texts[2 % len(texts)]
    out: list = []
    site = Site(mode)
    with running(site):
        s = site.s
        ident = "i" + a.replace("/", "_").replace("\x00", "")
        s.add_task("vp.targets:anyargs", "interval", hours=1, id=ident, name="n" + b, args=["a" + d], kwargs={"k" + a: b}, executor="e" + d)
        s.add_task("vp.targets:anyargs", "cron", minute="5", id="p" + b, name=d, next_run_time=None)
        s.add_executor("debug", "dbg")
        s.add_task("vp.targets:boom", "interval", hours=1, id="f" + ident, name="f" + b, args=["boom " + d], executor="dbg")
        web.LOOP.run_until_complete(run_once(s, "f" + ident))
        run = site.history.query()[0].run_id
        check(site.history.query()[0].status == "failed", "the run did not fail")
        logging.getLogger("asyncz.task.vp").warning("log " + a, extra={"task_id": ident, "run_id": run})
        site.audit.append(action="act" + a, status="failed", target_id="t" + b, message="m" + d, details={"k" + a: "v" + b})
        v = Visitor(site)
        base = site.base

        def add(what: str, answer: tuple) -> None:
            status, headers, data = answer
            check(status in (200, 400, 404), lambda: f"{what}: {status}")
            out.append((what, status, data))

        q = quote("qq" + a, safe="")
        add("login page", v.call("GET", site.login + "?next=" + quote("/n" + a, safe="")))
        add("failed login", v.call("POST", site.login, {"username": "u" + a, "password": b, "next": "/n" + d}))
        log_in(v, site.login, 0)
        for p in GETS:
            add(p, v.call("GET", base + p))
        for name in ("/tasks/", "/tasks/partials/table", "/logs/", "/logs/partials/table", "/history/", "/history/partials/table", "/events/", "/audit/", "/timeline/"):
            add(name + "?", v.call("GET", base + name + "?" + "&".join(f"{k}={q}" for k in ("q", "state", "executor", "trigger", "sort", "direction", "task_id", "run_id", "level", "status", "source", "action", "category", "name", "limit", "per_task"))))
        add("missing", v.call("GET", base + "/nope" + q))
        add("missing task", v.call("GET", base + "/tasks/m" + quote(a.replace("/", ""), safe="")))
        add("missing task edit", v.call("GET", base + "/tasks/m" + quote(a.replace("/", ""), safe="") + "/edit"))
        add("missing run", v.call("GET", base + "/history/m" + quote(a.replace("/", ""), safe="")))
        add("one run", v.call("GET", base + "/history/" + run))
        add("task", v.call("GET", base + "/tasks/" + quote(ident, safe="")))
        add("edit", v.call("GET", base + "/tasks/" + quote(ident, safe="") + "/edit"))
        form = {"name": "n" + d, "callable_path": "vp.targets:anyargs", "args": json.dumps(["y" + a]).replace("%", "\\u0025").replace("+", "\\u002b"), "kwargs": "{}", "executor": "e" + b, "coalesce": "true", "max_instances": "2"}
        add("preview", v.call("POST", base + "/tasks/job/edit", {**form, "intent": "preview"}))
        bad = {"name": "n" + a, "callable_path": "c" + a, "args": "a" + b, "kwargs": "k" + d, "executor": "e" + a, "coalesce": "c" + b, "max_instances": "m" + a, "mistrigger_grace_time": "g" + d, "intent": "apply"}
        add("refused edit", v.call("POST", base + "/tasks/job/edit", bad))
        for n, f in enumerate(
            [
                {"callable_path": "c" + a, "trigger_type": "interval", "trigger_value": "10s"}, {"callable_path": "vp.targets:anyargs", "trigger_type": "t" + a, "trigger_value": "10s"}, {"callable_path": "vp.targets:anyargs", "trigger_type": "interval", "trigger_value": "v" + b},
                {"callable_path": "vp.targets:anyargs", "trigger_type": "date", "trigger_value": "v" + b}, {"callable_path": "vp.targets:anyargs", "trigger_type": "cron", "trigger_value": "v" + d}, {"callable_path": "vp.targets:" + a, "trigger_type": "interval"},
            ]
        ):
            add(f"refused create {n}", v.call("POST", base + "/tasks/create", f))
        for k in ("run", "pause", "resume", "remove"):
            add(k, v.call("POST", base + "/tasks/" + quote(ident, safe="") + "/" + k, {}))
            add("bulk " + k, v.call("POST", base + "/tasks/hx/bulk/" + k, {"ids": "b" + a}))
        add("audit after", v.call("GET", base + "/audit/"))
        add("events after", v.call("GET", base + "/events/"))
    return out


def shape(data: bytes) -> list:
    """tags and attribute names, with the values of those that are code"""
    out = []
    for tag, attrs in Page(data).tags:
        code = [(k, v if k.startswith(("x-", "@", ":", "on", "hx-on", "style")) or (k == "src") else None) for k, v in attrs if k not in ("selected", "checked")]
        out.append((tag, code))
        if tag in ("!--", "!", "![", "?"):
            out[-1] = (tag, attrs)
    return out


def run_escape(c: dict) -> Outcome:
    load()
    with clock.virtual(TZ.at(T0)):
        targets.reset() if hasattr(targets, "reset") else None
        hostile = tour(c["texts"], c["mode"])
        plain = tour([tame(x) for x in c["texts"]], c["mode"])
        for (what, s1, d1), (_, s2, d2) in zip(hostile, plain):
            check(s1 == s2, lambda: f"{what} with {c['texts']}: {s1}, with plain texts {s2}")  # noqa: B023
            a, b = shape(d1), shape(d2)
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation(f"{what} with the texts {c['texts']} has other elements: {a[i : i + 3]} instead of {b[i : i + 3]}")
    return Outcome(True, [])


PARTS = [
    Part("gate", lambda: GATE, run_gate, quick=400, thorough=10000),
    Part("next", lambda: NEXT, run_next, quick=200, thorough=5000),
    Part("prefix", lambda: PREFIX, run_prefix, quick=300, thorough=8000),
    Part("escape", lambda: ESCAPE, run_escape, quick=60, thorough=1500),
]
