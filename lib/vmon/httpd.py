"""
A scriptable local HTTP server (one per worker process, threads) and a fake
ssh client.
"""

import base64
import os
import socket
import socketserver
import ssl
import subprocess
import threading
import time
from http.server import BaseHTTPRequestHandler


class Route:
    """
    How to answer for a path: data, and
      mode: length | chunked | close | short:N (announce all, send N) |
            chunkcut:N | reset:N | slow | redirect:LOCATION | status:CODE | garbage |
            stall:N (send N bytes of all, then nothing until the peer goes away) |
            pause:N:S (send N bytes of all, the rest S seconds later)
      auth: (user, password) required
    """

    def __init__(self, data=b"", mode="length", auth=None, delay=0):
        self.data, self.mode, self.auth, self.delay = data, mode, auth, delay


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"
    timeout = 600

    def log_message(self, *a):
        pass

    def do_CONNECT(self):
        self.send_error(501)

    def do_GET(self):
        srv = self.server
        path = self.path
        srv.hits.append((path, dict(self.headers)))
        if path.startswith("http://"):  # used as a proxy
            srv.proxied.append(path)
            path = "/" + path.split("/", 3)[3]
        r = srv.routes.get(path)
        if r is None:
            self.send_response(404)
            self.send_header("Content-Length", "9")
            self.end_headers()
            self.wfile.write(b"not found")
            return
        if r.auth:
            want = "Basic " + base64.b64encode(("%s:%s" % r.auth).encode()).decode()
            if self.headers.get("Authorization") != want:
                self.send_response(401)
                self.send_header("WWW-Authenticate", 'Basic realm="x"')
                self.send_header("Content-Length", "0")
                self.end_headers()
                return
        mode, _, arg = r.mode.partition(":")
        d = r.data
        if mode == "redirect":
            self.send_response(302)
            self.send_header("Location", arg)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        if mode == "status":
            self.send_response(int(arg))
            self.send_header("Content-Length", "3")
            self.end_headers()
            self.wfile.write(b"err")
            return
        if mode == "garbage":
            self.connection.sendall(b"\x00\x01garbage\r\n\r\n" + d[:100])
            self.close_connection = True
            return
        if mode in ("chunked", "chunkcut"):
            cut = int(arg) if arg else None
            self.protocol_version = "HTTP/1.1"
            self.send_response(200)
            self.send_header("Transfer-Encoding", "chunked")
            self.send_header("Connection", "close")
            self.end_headers()
            pos, n = 0, 1
            while pos < len(d):
                c = d[pos:pos + n]
                if cut is not None and pos + len(c) > cut:
                    self.wfile.write(b"%x\r\n" % len(c) + c[:cut - pos])
                    self._abort()
                    return
                self.wfile.write(b"%x\r\n" % len(c) + c + b"\r\n")
                pos += len(c)
                n = min(n * 3 + 1, 50000)
            if cut is not None:
                # all the data but no terminating chunk
                self._abort()
                return
            self.wfile.write(b"0\r\n\r\n")
            return
        if r.delay:
            time.sleep(r.delay)
        self.send_response(200)
        if mode != "close":
            self.send_header("Content-Length", str(len(d)))
        self.end_headers()
        if mode == "short":
            self.wfile.write(d[:int(arg)])
            return
        if mode == "pause":
            n, s = arg.split(":")
            self.wfile.write(d[:int(n)])
            self.wfile.flush()
            time.sleep(float(s))
            self.wfile.write(d[int(n):])
            return
        if mode == "stall":
            self.wfile.write(d[:int(arg)])
            self.wfile.flush()
            self.connection.settimeout(120)
            try:
                self.connection.recv(1)
            except OSError:
                pass
            self.close_connection = True
            return
        if mode == "reset":
            self.wfile.write(d[:int(arg)])
            self.wfile.flush()
            time.sleep(0.05)
            self._abort()
            return
        if mode == "slow":
            pos, n = 0, 1
            while pos < len(d):
                self.wfile.write(d[pos:pos + n])
                self.wfile.flush()
                pos += n
                n = min(n * 4, 100000)
                time.sleep(0.004)
            return
        self.wfile.write(d)

    def _abort(self):
        try:
            self.wfile.flush()
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
        except OSError:
            pass
        self.close_connection = True
        try:
            self.connection.close()
        except OSError:
            pass


class Server(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True

    def handle_error(self, *a):
        pass


class Server6(Server):
    address_family = socket.AF_INET6


_srv = {}


class TLSServer(Server):
    def get_request(self):
        c, a = super().get_request()
        # the handshake takes place in the thread of the connection
        return self.tls.wrap_socket(c, server_side=True, do_handshake_on_connect=False), a


def get(v6=False, name="", host="127.0.0.1", cert=None):
    """
    The server of this process with that name: .routes, .hits.
    cert: (certificate, key) files of a TLS server.
    """
    k = (os.getpid(), v6, name)
    if k not in _srv:
        cls = Server6 if v6 else TLSServer if cert else Server
        s = cls(("::1" if v6 else host, 0), Handler)
        s.routes, s.hits, s.proxied = {}, [], []
        s.port = s.server_address[1]
        s.host = "[::1]" if v6 else host
        s.scheme = "http"
        if cert:
            s.scheme = "https"
            s.tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            s.tls.load_cert_chain(*cert)
        t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True)
        t.start()
        _srv[k] = s
    return _srv[k]


def url(path, auth=None, v6=False, host=None, srv=None):
    s = srv or get(v6)
    a = "%s:%s@" % auth if auth else ""
    return "%s://%s%s:%d%s" % (s.scheme, a, host or s.host, s.port, path)


def certificates(d):
    """
    A test CA and certificates for the servers of this machine:
    {name: (certificate, key)} and the CA's file as "ca".
    """
    def ssl_(*a):
        subprocess.run(["openssl"] + list(a), cwd=d, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    curve = ("-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes")
    out = {}
    for ca in ("ca", "otherca"):
        ssl_("req", "-x509", *curve, "-keyout", ca + ".key", "-out", ca + ".pem", "-days", "3650", "-subj", "/CN=" + ca,
             "-addext", "basicConstraints=critical,CA:TRUE")
    for name, ca, days, san in (("good", "ca", 3650, "IP:127.0.0.1,DNS:localhost"), ("untrusted", "otherca", 3650, "IP:127.0.0.1,DNS:localhost"),
                                ("expired", "ca", -1, "IP:127.0.0.1,DNS:localhost"), ("othername", "ca", 3650, "DNS:images.example.test"),
                                ("otherip", "ca", 3650, "IP:127.0.0.9")):
        with open(os.path.join(d, name + ".ext"), "w") as f:
            f.write("subjectAltName=%s\n" % san)
        ssl_("req", *curve, "-keyout", name + ".key", "-out", name + ".csr", "-subj", "/CN=127.0.0.1")
        ssl_("x509", "-req", "-in", name + ".csr", "-CA", ca + ".pem", "-CAkey", ca + ".key", "-days", str(days), "-extfile", name + ".ext",
             "-out", name + ".pem", "-set_serial", str(1000 + len(out)))
        out[name] = (os.path.join(d, name + ".pem"), os.path.join(d, name + ".key"))
    ssl_("req", "-x509", *curve, "-keyout", "self.key", "-out", "self.pem", "-days", "3650", "-subj", "/CN=127.0.0.1",
         "-addext", "subjectAltName=IP:127.0.0.1,DNS:localhost")
    out["selfsigned"] = (os.path.join(d, "self.pem"), os.path.join(d, "self.key"))
    out["ca"] = os.path.join(d, "ca.pem")
    return out


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


FAKE_SSH = r'''#!/bin/sh
# fake ssh: runs the remote command locally like sshd would do
[ -n "$FAKE_SSH_LOG" ] && {
    l=${FAKE_SSH_VIA:+"sshpass
$FAKE_SSH_VIA
"}
    for a in "$@"; do
        l="$l$a
"
    done
    printf '%s--\n' "$l" >> "$FAKE_SSH_LOG"
}
host=
while [ $# -gt 0 ]; do
    case "$1" in
    -o|-p|-l|-i|-F) shift 2 ;;
    -*) shift ;;
    *) host=$1; shift; break ;;
    esac
done
case "$host" in
*unreachable*) echo "ssh: connect to host: Connection refused" >&2; exit 255 ;;
esac
cmd="$*"
cd "${FAKE_SSH_HOME:-/}" || exit 255
case "$cmd" in
true) exit 0 ;;
cat*)
    case "$FAKE_SSH_CAT" in
    fail) exit 1 ;;
    die:*) sh -c "$cmd" | head -c "${FAKE_SSH_CAT#die:}"; exit 255 ;;
    stall:*) exec /opt/venv/bin/python -c 'import sys,os,time
n = int(sys.argv[2])
with open(sys.argv[1], "rb") as f:
    d = f.read(n)
while d:
    d = d[os.write(1, d):]
time.sleep(600)' "$(printf %s "$cmd" | sed "s/^cat //; s/'//g")" "${FAKE_SSH_CAT#stall:}" ;;
    slow) sh -c "$cmd" | { head -c 10; sleep 0.1; head -c 5000; sleep 0.1; cat; }; exit 0 ;;
    esac ;;
esac
exec sh -c "$cmd"
'''


def fake_ssh(dir):
    """Install the fake ssh in 'dir'."""
    os.makedirs(dir, exist_ok=True)
    p = os.path.join(dir, "ssh")
    if os.path.islink(p):
        os.unlink(p)
    with open(p, "w") as f:
        f.write(FAKE_SSH)
    os.chmod(p, 0o755)
    p = os.path.join(dir, "sshpass")
    with open(p, "w") as f:
        f.write('#!/bin/sh\nexport FAKE_SSH_VIA="$1"\n[ "$1" = "-p${FAKE_SSH_PASSWORD:-secret}" ] || exit 5\nshift\nexec "$@"\n')
    os.chmod(p, 0o755)
    return dir
