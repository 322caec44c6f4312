"""Simulated web server behind requests and urllib, one plan per access."""

import hashlib
import io
import json
import os
import socket

from . import core, patch

BASE = "https://github.com/phausamann/rbm-data/raw/main/"
CDN = "https://raw.githubusercontent.com/phausamann/rbm-data/main/"
# what is published, by the registered checksums of the pinned commit
PUBLISHED = {
    "head.nc": "874eddaa51bf775c7311f0046613c6f969adef6e34fe4aea2e1248a75ed3fee3",
    "left_eye.nc": "56d5488fb8d3ff08450663ed0136ac659c1d51eb5340a7e3ed52f5ecf019139c",
    "right_eye.nc": "b038c4cb2f6932e4334f135cdf7e24ff9c3b5789977b2ae0206ba80acf54c647",
    "example.bag": "8d27f5e554f5a0e02e0bec59b60424e582f6104380f96c3f226b4d85c107f2bc",
}
ITEMS = {"head": "head.nc", "left_eye": "left_eye.nc", "right_eye": "right_eye.nc", "rosbag": "example.bag"}


class Net:
    content = {}  # file -> bytes
    digests = {}  # real digest -> published one
    plan = []  # faults of the next requests
    log = []  # URLs requested
    cap = 60


_sha256 = hashlib.sha256


class Sha256:
    """SHA-256 under which the simulated contents have the published sums."""

    name = "sha256"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b"", **k):
        self._h = _sha256(data)

    def update(self, b):
        self._h.update(b)

    def hexdigest(self):
        d = self._h.hexdigest()
        return Net.digests.get(d, d)

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        c = Sha256()
        c._h = self._h.copy()
        return c


def real_sha(b):
    return _sha256(b).hexdigest()


def install():
    import sys

    import requests.adapters

    hashlib.sha256 = Sha256
    new = hashlib.new
    hashlib.new = lambda n, d=b"", **k: Sha256(d) if str(n).lower() == "sha256" else new(n, d, **k)
    m = sys.modules.get("pooch.hashes")
    if hasattr(m, "ALGORITHMS_AVAILABLE"):
        m.ALGORITHMS_AVAILABLE["sha256"] = Sha256
    requests.adapters.HTTPAdapter.send = send
    import urllib.request

    urllib.request.OpenerDirector.open = urlopen

    def refuse(*a, **k):
        raise OSError("no network but the simulated one")

    socket.create_connection = refuse
    socket.getaddrinfo = refuse
    socket.socket.connect = refuse


def publish(seed, sizes):
    r = core.keyed(seed, "content")
    for f, h in PUBLISHED.items():
        b = bytes(r.getrandbits(8) for _ in range(sizes[f]))
        Net.content[f] = b
        Net.digests[real_sha(b)] = h


class Body(io.RawIOBase):
    """Response body that may fail or stall after some bytes."""

    def __init__(self, data, fail_at=None, how=None, timeout=None, chunk=None):
        self.b = io.BytesIO(data)
        self.left = fail_at
        self.how, self.timeout, self.chunk = how, timeout, chunk

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = 1 << 30
        if self.chunk:
            n = min(n, self.chunk)
        if self.left is not None:
            if self.left <= 0:
                self._fail()
            n = min(n, self.left)
        d = self.b.read(n)
        if self.left is not None:
            self.left -= len(d)
            if not d:
                self._fail()
        return d

    def readinto(self, m):
        d = self.read(len(m))
        m[: len(d)] = d
        return len(d)

    def _fail(self):
        if self.how == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if self.how == "stall":
            if self.timeout is None:
                raise core.Violation("hang", "waits for a stalled server without a timeout")
            raise socket.timeout("timed out")
        if self.how == "ctrl-c":
            raise KeyboardInterrupt
        raise OSError(5, "I/O error")


PAGE = b"<!DOCTYPE html><html><body>Sign in to continue</body></html>"


def respond(url, timeout):
    """(status, headers, body bytes, Body arguments) or raises."""
    if not url.startswith(CDN):
        # only the first hop of an access has a plan of its own
        Net.log.append(url)
        if len(Net.log) > Net.cap:
            raise core.Violation("no-progress", f"{len(Net.log)} requests in one access")
    f = Net.plan.pop(0) if Net.plan and not url.startswith(CDN) else None
    if url.startswith(CDN):
        f = respond.next
        respond.next = None
    name = url.rsplit("/", 1)[-1].split("?")[0]
    if f and f["do"] in ("refused", "dns"):
        raise ConnectionRefusedError(111, "Connection refused")
    if f and f["do"] == "connect-timeout":
        if timeout is None:
            raise core.Violation("hang", "connects without a timeout")
        raise socket.timeout("timed out")
    if f and f["do"] == "ctrl-c" and not f["arg"]:
        # somebody gave up waiting
        raise KeyboardInterrupt
    if f and f["do"] == "status":
        return f["arg"], {"content-type": "text/html"}, PAGE, {}
    if f and f["do"] == "redirect-page":
        return 302, {"location": "https://portal.example/login"}, b"", {}
    if f and f["do"] == "redirect-loop":
        return 302, {"location": url}, b"", {}
    if "portal.example" in url:
        return 200, {"content-type": "text/html"}, PAGE, {}
    if url.startswith(BASE) and name in Net.content:
        respond.next = f
        return 302, {"location": CDN + name}, b"", {}
    if not url.startswith(CDN) or name not in Net.content:
        return 404, {"content-type": "text/plain"}, b"404: Not Found", {}
    data = Net.content[name]
    h = {"content-type": "application/octet-stream", "content-length": str(len(data))}
    do, arg, body = (f["do"], f.get("arg", 0), {}) if f else ("", 0, {})
    n = len(data)
    if do == "page":
        data = PAGE
        h = {"content-type": "text/html", "content-length": str(len(data))}
    elif do == "truncated":
        data = data[: int(n * arg)]
        if arg < 0.5:
            h["content-length"] = str(len(data))
        else:
            del h["content-length"]
    elif do == "corrupted":
        k = int(n * arg) % n
        data = data[:k] + bytes([data[k] ^ 0x40]) + data[k + 1:]
    elif do == "appended":
        data = data + b"\n"
        h["content-length"] = str(len(data))
    elif do == "empty":
        data = b""
        h["content-length"] = "0"
    elif do == "other-file":
        o = sorted(Net.content)
        data = Net.content[o[(o.index(name) + 1) % len(o)]]
        h["content-length"] = str(len(data))
    elif do in ("reset", "stall", "io", "ctrl-c"):
        body = {"fail_at": int(n * arg), "how": do, "timeout": timeout}
    elif do == "chunks":
        body = {"chunk": max(1, int(arg * 500))}
    return 200, h, data, body


respond.next = None


def timeout_of(t):
    if isinstance(t, tuple):
        return t[1]
    return getattr(t, "read_timeout", t)


def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import requests
    import urllib3

    if request.method not in ("GET", "HEAD"):
        raise requests.exceptions.ConnectionError("method", request=request)
    try:
        status, h, data, b = respond(request.url, timeout_of(timeout))
    except socket.timeout as e:
        raise requests.exceptions.ConnectTimeout(e, request=request)
    except OSError as e:
        raise requests.exceptions.ConnectionError(e, request=request)
    if request.method == "HEAD":
        data, b = b"", {}
    raw = urllib3.HTTPResponse(
        body=Body(data, **b), headers=h, status=status, preload_content=False,
        decode_content=False, reason=str(status), request_method=request.method,
        request_url=request.url, enforce_content_length=True,
    )
    r = self.build_response(request, raw)
    if not stream:
        r.content
    return r


def urlopen(self, fullurl, data=None, timeout=None, *a):
    import urllib.error
    import urllib.response
    from email.message import Message

    url = fullurl if isinstance(fullurl, str) else fullurl.full_url
    for _ in range(10):
        try:
            status, h, body, b = respond(url, None if timeout is socket._GLOBAL_DEFAULT_TIMEOUT else timeout)
        except socket.timeout as e:
            raise urllib.error.URLError(e)
        except OSError as e:
            raise urllib.error.URLError(e)
        if status != 302:
            break
        url = h["location"]
    m = Message()
    for k, v in h.items():
        m[k] = v
    fp = io.BufferedReader(Body(body, **b))
    if status >= 300:
        raise urllib.error.HTTPError(url, status, str(status), m, fp)
    return urllib.response.addinfourl(fp, m, url, status)
