"""A dashboard, mounted somewhere, and someone who looks at it."""

from __future__ import annotations

import asyncio
import json
import re
import threading
from html.parser import HTMLParser
from typing import Any
from urllib.parse import urlencode, urljoin, urlsplit

from vp import web
from vp.runner import check

HEADERS = {"content-security-policy", "referrer-policy", "x-content-type-options", "x-frame-options", "permissions-policy"}


def verify(name: str, password: str) -> Any:
    from asyncz.contrib.dashboard.admin import User

    return User(id=7, name=name, role="ops") if (name, password) == ("admin", "pa ss&ü") else None


def load() -> None:
    """before the clock is installed"""
    import asyncz.contrib.dashboard.admin
    import asyncz.contrib.dashboard.application
    import asyncz.schedulers
    import asyncz.stores.memory
    import asyncz.triggers  # noqa: F401


class Header_backend:
    """authenticates by a header"""

    async def authenticate(self, request: Any) -> Any:
        from asyncz.contrib.dashboard.admin import User

        return User(id="h", name="h") if request.headers.get("x-user") == "h" else None

    async def login(self, request: Any) -> Any:
        from lilya.responses import PlainText

        return PlainText("log in elsewhere")

    logout = login


def distant(s: Any) -> Any:
    """the scheduler as seen by another process"""
    from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, create_remote_scheduler_app

    app = create_remote_scheduler_app(s, token="t0k")

    def transport(method: str, path: str, payload: Any, headers: dict, query: Any) -> tuple:
        body = b"" if payload is None else json.dumps(payload).encode()
        target = path + ("?" + urlencode(query) if query else "")
        got: list = []
        # the caller's loop is running
        th = threading.Thread(target=lambda: got.append(asyncio.run(web._call(app, method, target, list(headers.items()), body))))
        th.start()
        th.join()
        status, _, data = got[0]
        return status, json.loads(data)

    return RemoteSchedulerClient(token="t0k", transport=transport)


class Site:
    """a dashboard, mounted; `base`: what comes before the dashboard's own paths, `root`: what comes before the login's"""

    def __init__(self, mode: str, *, login: bool = True, header: bool = False, remote: bool = False, **more: Any) -> None:
        from lilya.apps import Lilya
        from lilya.routing import Include

        from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
        from asyncz.contrib.dashboard.events import get_scheduler_event_storage
        from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
        from asyncz.schedulers import AsyncIOScheduler

        self.s = AsyncIOScheduler(timezone="UTC")
        self.audit, self.logs, self.history = MemoryAuditTrailStorage(), MemoryLogStorage(), MemoryRunHistoryStorage()
        get_scheduler_event_storage().clear()
        if login:
            more.update(enable_login=True, backend=Header_backend() if header else SimpleUsernamePasswordBackend(verify))
        admin = AsynczAdmin(scheduler=distant(self.s) if remote else self.s, audit_storage=self.audit, log_storage=self.logs, run_history_storage=self.history, **more)
        prefix = more.get("url_prefix", "/dashboard")
        self.server_root = ""
        if mode == "include":
            self.app = Lilya()
            admin.include_in(self.app)
            self.root, self.base = "", prefix
        elif mode == "bare":
            self.app = admin.get_asgi_app()
            self.root = self.base = ""
        elif mode == "prefixed":
            self.app = admin.get_asgi_app(with_url_prefix=True)
            self.root, self.base = "", prefix
        elif mode == "lilya":
            self.app = Lilya(routes=[Include("/dashboard", app=admin.get_asgi_app())])
            self.root = self.base = "/dashboard"
        elif mode == "starlette":
            from starlette.applications import Starlette
            from starlette.routing import Mount

            self.app = Starlette(routes=[Mount("/dashboard", app=admin.get_asgi_app())])
            self.root = self.base = "/dashboard"
        elif mode == "below":
            self.app = Lilya(routes=[Include("/adm", app=admin.get_asgi_app(with_url_prefix=True))])
            self.root, self.base = "/adm", "/adm" + prefix
        else:
            self.app = admin.get_asgi_app(with_url_prefix=True)
            self.server_root = "/srv"
            self.root, self.base = "/srv", "/srv" + prefix
        self.login = self.root + more.get("login_path", "/login")
        self.client: Any = ("127.0.0.1", 1234)

    def call(self, method: str, target: str, headers: Any = (), body: bytes = b"") -> tuple:
        status, got, data = web.call(self.app, method, target, headers, body, client=self.client, root=self.server_root)
        names = {k.lower() for k, _ in got}
        check(names >= HEADERS or not target.startswith(self.root + "/"), lambda: f"{method} {target}: {status} without the headers {HEADERS - names}")
        return status, [(k.lower(), v) for k, v in got], data


def one(headers: list, name: str) -> Any:
    found = [v for k, v in headers if k == name]
    check(len(found) <= 1, lambda: f"several {name}: {found}")
    return found[0] if found else None


class Page(HTMLParser):
    """tags with attributes, and texts"""

    def __init__(self, data: bytes) -> None:
        super().__init__(convert_charrefs=True)
        self.tags: list = []
        self.texts: list = []
        self.feed(data.decode())
        self.close()

    def handle_starttag(self, tag: str, attrs: list) -> None:
        self.tags.append((tag, [(k, v or "") for k, v in attrs]))

    def handle_endtag(self, tag: str) -> None:
        self.tags.append(("/" + tag, []))

    def handle_comment(self, data: str) -> None:
        self.tags.append(("!--", [("", data)]))

    def handle_decl(self, decl: str) -> None:
        self.tags.append(("!", [("", decl)]))

    def unknown_decl(self, data: str) -> None:
        self.tags.append(("![", [("", data)]))

    def handle_pi(self, data: str) -> None:
        self.tags.append(("?", [("", data)]))

    def handle_data(self, data: str) -> None:
        self.texts.append(data)

    def urls(self) -> list:
        return [v for _, attrs in self.tags for k, v in attrs if k in ("href", "src", "action", "hx-get", "hx-post")]


def resolve(base: str, url: str) -> Any:
    """as browsers do"""
    url = re.sub(r"[\t\r\n]", "", url.strip("".join(map(chr, range(33)))))
    head, sep, tail = url.partition("?")
    return urlsplit(urljoin("http://testserver" + base, head.replace("\\", "/") + sep + tail))


class Visitor:
    """keeps cookies, follows the proxy"""

    def __init__(self, site: Site, outside: str = "", headers: Any = ()) -> None:
        self.site, self.outside, self.headers = site, outside, list(headers)
        self.cookies: dict = {}

    def call(self, method: str, target: str, form: Any = None, headers: Any = (), urlencoded: bool = False) -> tuple:
        """`target` is the address outside"""
        check(target.startswith(self.outside + "/"), lambda: f"{target} is outside of {self.outside}")
        more = [*self.headers, *headers]
        if self.outside:
            more.append(("x-forwarded-prefix", self.outside))
        if self.cookies:
            more.append(("cookie", "; ".join(f"{k}={v}" for k, v in self.cookies.items())))
        body = b""
        if form is not None and any(ch in str(v) for v in form.values() for ch in "%+") and not urlencoded:
            # the web framework decodes urlencoded values twice
            more.append(("content-type", "multipart/form-data; boundary=xXxBoundaryxXx"))
            body = b"".join(f'--xXxBoundaryxXx\r\nContent-Disposition: form-data; name="{k}"\r\n\r\n{v}\r\n'.encode() for k, v in form.items()) + b"--xXxBoundaryxXx--\r\n"
        elif form is not None:
            more.append(("content-type", "application/x-www-form-urlencoded"))
            body = urlencode(form).encode()
        status, got, data = self.site.call(method, target[len(self.outside) :], more, body)
        for k, v in got:
            if k == "set-cookie":
                name, _, value = v.split(";")[0].partition("=")
                self.cookies[name] = value.strip('"')
                if "1970" in v:
                    del self.cookies[name]
        return status, got, data
