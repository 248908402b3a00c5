"""Calls ASGI applications: directly, and through a small real HTTP server on the loopback."""

from __future__ import annotations

import asyncio
import contextlib
import http.server
import threading
from typing import Any, Optional
from urllib.parse import unquote_to_bytes

LOOP: Optional[asyncio.AbstractEventLoop] = None


async def _call(app: Any, method: str, target: str, headers: list, body: bytes, scheme: str = "http", client: Any = ("127.0.0.1", 1234), root: str = "") -> tuple:
    path, _, query = target.partition("?")
    scope = {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": scheme, "path": unquote_to_bytes(path).decode("utf-8", "replace"),
        "raw_path": path.encode(), "query_string": query.encode(), "root_path": root, "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
        "client": client, "server": ("testserver", 80), "state": {}, "extensions": {},
    }  # fmt: skip
    sent = False
    done = asyncio.Event()

    async def receive() -> dict:
        nonlocal sent
        if not sent:
            sent = True
            return {"type": "http.request", "body": body, "more_body": False}
        await done.wait()
        return {"type": "http.disconnect"}

    status: Any = None
    out: list = []
    answer: list = []

    async def send(m: dict) -> None:
        nonlocal status
        if m["type"] == "http.response.start":
            assert status is None, "two responses"
            status = m["status"]
            out.extend((k.decode("latin-1"), v.decode("latin-1")) for k, v in m.get("headers", ()))
        elif m["type"] == "http.response.body":
            answer.append(m.get("body", b""))
            if not m.get("more_body"):
                done.set()

    try:
        await app(scope, receive, send)
    finally:
        done.set()
    return status, out, b"".join(answer)


def call(app: Any, method: str, target: str, headers: Any = (), body: bytes = b"", **more: Any) -> tuple:
    """-> status, headers, body; `target` is the quoted path with the query"""
    global LOOP
    if LOOP is None or LOOP.is_closed():
        LOOP = asyncio.new_event_loop()
    return LOOP.run_until_complete(_call(app, method, target, list(headers), body, **more))


class Server:
    """HTTP/1.1 without keep-alive in front of `app`."""

    def __init__(self) -> None:
        me = self
        self.app: Any = None
        self.failure: Optional[BaseException] = None
        self.raw: Optional[bytes] = None  # answer this instead

        class H(http.server.BaseHTTPRequestHandler):
            def handle_one_request(self) -> None:
                self.raw_requestline = self.rfile.readline(65537)
                if not self.raw_requestline or not self.parse_request():
                    self.close_connection = True
                    return
                self.close_connection = True
                body = self.rfile.read(int(self.headers.get("content-length") or 0))
                if me.raw is not None:
                    self.wfile.write(me.raw)
                    return
                try:
                    status, headers, data = asyncio.run(_call(me.app, self.command, self.path, list(self.headers.items()), body))
                except BaseException as e:  # noqa: BLE001
                    me.failure = e
                    status, headers, data = 500, [("content-type", "text/plain")], b"Internal Server Error"
                self.send_response(status)
                for k, v in headers:
                    if k.lower() != "content-length":
                        self.send_header(k, v)
                self.send_header("content-length", str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            def log_message(self, *a: Any) -> None:
                pass

        self.httpd = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        self.url = f"http://127.0.0.1:{self.httpd.server_address[1]}"
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()


SERVER: Optional[Server] = None


@contextlib.contextmanager
def session() -> Any:
    global SERVER
    SERVER = Server()
    try:
        yield
    finally:
        SERVER.httpd.shutdown()
        SERVER.httpd.server_close()
        SERVER = None
