"""
Ways to hand an image (or bmap) to the tool: local raw/compressed, stdin, http
and ssh, healthy or damaged.
"""

import os

from . import comp, httpd

HTTP_OK = ("length", "chunked", "close", "slow", "redirect")


class Source:
    """spec: what to pass as image; stdin: path or None; env: extra env."""

    def __init__(self, spec, kind, known, env=None, stdin=None):
        self.spec, self.kind, self.known, self.env, self.stdin = spec, kind, known, env or {}, stdin


def bindir(env):
    """PATH with the fake ssh in front."""
    d = env.path("fakebin")
    if not os.path.isdir(d):
        httpd.fake_ssh(d)
    return d + ":/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def ssh_url(path, rng=None):
    return "ssh://" + ("user@" if rng and rng.random() < 0.5 else "") + "host" + path


def serve(name, data, mode="length", auth=None, v6=False):
    """Serve 'data' as /NAME; returns the URL."""
    s = httpd.get(v6)
    p = "/" + name
    if mode == "redirect":
        s.routes["/real/" + name] = httpd.Route(data, auth=auth)
        s.routes[p] = httpd.Route(b"", "redirect:/real/" + name)
    elif mode == "redirect-abs":
        s.routes["/real/" + name] = httpd.Route(data, auth=auth)
        s.routes[p] = httpd.Route(b"", "redirect:" + httpd.url("/real/" + name, v6=v6))
    else:
        s.routes[p] = httpd.Route(data, mode, auth)
    return httpd.url(p, v6=v6)


def make(rng, env, data, kind, ext, pad=0, name="image.raw"):
    """kind: file | stdin | stdinpipe | http:MODE | ssh | sshslow | fileurl"""
    blob = comp.compress(data, ext, pad=pad)
    fn = name + ext
    known = not ext and kind in ("file",)
    if kind == "file":
        return Source(put(env.path(fn), blob), kind, known)
    if kind.startswith("stdin"):
        return Source("-", kind, kind == "stdin", stdin=put(env.path("stdin." + fn), blob))
    if kind.startswith("http:"):
        return Source(serve(fn, blob, kind[5:]), kind, False)
    if kind == "fileurl":
        return Source("file://" + put(env.path(fn), blob), kind, False)
    if kind.startswith("ssh"):
        e = {"PATH": bindir(env)}
        if kind == "sshslow":
            e["FAKE_SSH_CAT"] = "slow"
        return Source(ssh_url(put(env.path(fn), blob), rng), kind, False, e)
    raise ValueError(kind)


class environ:
    """Temporarily set environment variables of this process."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = dict(os.environ)
        os.environ.update(self.env)

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.old)
