"""C29: credentials and connections go only where they belong."""
import base64
import os
import random
import socket
from urllib.parse import quote, unquote
from vmon import bmapref, cli, comp, core, gens, httpd, images, pgp, sources
from vmon.core import Result

PROP = "C29"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: recording HTTP/TLS servers and ssh stand-ins; every request and command line is scanned for secrets which belong elsewhere"
NOTE = ("Image, bmap and signature are fetched from several local servers (different addresses, ports and names of the machine, plain and TLS with good and bad "
        "certificates) with credentials from URLs and .netrc, with redirects between them, other machines' .netrc entries, several files with "
        "different or missing credentials, ssh with passwords, and in-process sequences of opens. Every password is a unique token, every "
        "request's path and headers (decoded) and every ssh/sshpass command line is recorded: a token seen anywhere but at its own server is a "
        "violation, as is a protected file obtained without its own credentials, data accepted from a server whose certificate does not prove "
        "who it is, or a request to a server nobody named. ssh is a stand-in; FTP is not covered.")
RULE = ("Situation x role (image, bmap, signature) x source of the credentials x target x protection; sampled images. Non-trivial: every case. "
        "Distinct by situation and image.")
BATCH = 4
REQUIRE = {"redirected": 60, "separate": 30, "netrc": 40, "precedence": 10, "tls_good": 12, "tls_refused": 22, "ssh": 8, "sequence_steps": 170,
           "requests": 1000, "nowhere": 6, "authenticated": 300}

ROLES = ("image", "image", "bmap", "sig")
BADCERT = ("untrusted", "expired", "othername", "otherip", "selfsigned")


def setup(ctx):
    d = os.path.join(ctx.shm, "pgp")
    os.mkdir(d)
    ctx.shared["ring"] = pgp.Ring(d)
    d = os.path.join(ctx.shm, "tls")
    os.mkdir(d)
    ctx.shared["tls"] = httpd.certificates(d)
    try:
        ctx.shared["localhost"] = socket.gethostbyname("localhost") == "127.0.0.1"
    except OSError:
        ctx.shared["localhost"] = False


def teardown(ctx):
    if "ring" in ctx.shared:
        ctx.shared["ring"].close()


def cases(ctx):
    out = []
    for i in range(ctx.pick(1, 16)):
        rng = ctx.rng("c", i)
        for role in ROLES:
            for creds in ("url", "url", "netrc"):
                for target in ("host", "port", "name"):
                    for guard in ("open", "same"):
                        for first in ("protected", "open"):
                            if (creds, target) != ("netrc", "port"):
                                out.append({"t": "redirect", "role": role, "creds": creds, "target": target, "guard": guard, "first": first})
        for j in range(2):
            for who in ("image", "bmap", "sig"):
                for other in ("image", "bmap", "sig"):
                    if other != who:
                        for where in ("path", "below", "port", "host", "name"):
                            out.append({"t": "separate", "role": other, "who": who, "where": where, "own": rng.random() < 0.35})
        for role in ROLES:
            for m in 2 * ("127.0.0.2", "127.0.0.1.example.test", "127.0.0.10", "127.0.0.", "localhost", "0.0.1", "both", "both", "empty", "other+default"):
                out.append({"t": "netrc", "role": role, "machine": m})
            for p in ("url-right", "url-wrong", "url-right-default", "url-wrong-default", "other-file"):
                out.append({"t": "precedence", "role": role, "how": p})
            for c in BADCERT * 2:
                out.append({"t": "tls", "role": role, "cert": c, "trust": True, "via": rng.choice(["direct", "direct", "http", "https"]), "auth": rng.random() < 0.5})
            for v in ("direct", "http", "https") * 2:
                out.append({"t": "tls", "role": role, "cert": "good", "trust": True, "via": v, "auth": rng.random() < 0.5})
            out.append({"t": "tls", "role": role, "cert": "good", "trust": False, "via": "direct", "auth": rng.random() < 0.5})
        for j in range(16):
            out.append({"t": "ssh", "role": rng.choice(["bmap", "image"]), "other": rng.choice(["host", "user", "same", "http"])})
        for j in range(6):
            out.append({"t": "nowhere", "role": "image", "what": rng.choice(["local", "fileurl", "stdin"])})
            out.append({"t": "nowhere", "role": "image", "what": "create"})
        for j in range(40):
            out.append({"t": "sequence", "role": "image"})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


class World:
    """Servers, secrets and who may see them."""

    def __init__(self, env, rng, r):
        self.env, self.rng, self.r = env, rng, r
        self.a = httpd.get(name="a")
        self.c = httpd.get(name="c")
        self.b = httpd.get(name="b", host="127.0.0.2")
        self.bystander = httpd.get(name="bystander")
        self.servers = [self.a, self.b, self.c, self.bystander]
        for s in self.servers:
            s.routes.clear()
            s.hits.clear()
        self.allowed = {}
        self.netrc = []
        self.e = {"HOME": env.path("home")}
        os.mkdir(env.path("home"))
        self.named = set()

    def tls(self, cert):
        s = httpd.get(name="tls-" + cert, cert=self.env.shared["tls"][cert])
        if s not in self.servers:
            s.routes.clear()
            s.hits.clear()
            self.servers.append(s)
        return s

    def creds(self, *hosts):
        """A pair of user and password for these 'host:port'."""
        p = "tok%x" % self.rng.getrandbits(64)
        if self.rng.random() < 0.3:
            p += self.rng.choice(["@", ":", "/", "%", "#", " "]) + "x"
        self.allowed[p] = set(hosts)
        return (self.rng.choice(["user", "joe", "u" + p[3:9]]), p)

    def host(self, srv, name=None):
        return "%s:%d" % (name or srv.host, srv.port)

    def route(self, srv, path, data=b"", mode=None, auth=None):
        srv.routes[path] = httpd.Route(data, mode or self.rng.choice(["length", "length", "chunked", "close"]), auth)
        self.named.add(srv)

    def url(self, srv, path, auth=None, name=None):
        if auth:
            auth = (quote(auth[0], safe=""), quote(auth[1], safe=""))
        self.named.add(srv)
        return httpd.url(path, auth, host=name, srv=srv)

    def write_netrc(self):
        rng = self.rng
        t = ""
        for m, (u, p) in self.netrc:
            x = [m if m == "default" else "machine " + m, "login " + u, "password " + ('"%s"' % p if " " in p or "#" in p else p)]
            t += (" " if rng.random() < 0.5 else "\n  ").join(x) + "\n"
        p = sources.put(self.env.path("home/.netrc"), t.encode())
        os.chmod(p, 0o600)

    def scan(self, what):
        """No secret where it does not belong."""
        r, n = self.r, 0
        for s in self.servers:
            for path, headers in s.hits:
                n += 1
                r.check(s in self.named, "stray-request", "%s: request for %r to a server which was not named" % (what, path))
                host = headers.get("Host", "")
                for k, v in list(headers.items()) + [("path", path)]:
                    texts = [v, unquote(v)]
                    for word in v.split():
                        try:
                            texts.append(base64.b64decode(word).decode())
                        except ValueError:
                            pass
                    for p, hosts in self.allowed.items():
                        if any(p in x for x in texts):
                            if k == "Authorization" and host in hosts and s.port == int(host.rpartition(":")[2]):
                                r.count("authenticated")
                                continue
                            r.bad("leak", "%s: the password meant for %s was sent to %s (%s of the request for %r)" % (what, sorted(hosts), host, k, path))
            s.hits.clear()
        r.count("requests", n)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    W = World(env, rng, r)
    if case["t"] == "sequence":
        return sequence(case, env, r, rng, W)
    w = gens.work(rng, maxbytes=rng.choice([20000, 200000]), odd=0.2, minblocks=2, nonempty=True)
    ext = rng.choice(["", "", ".gz", ".bz2", ".xz"]) if case.get("what") != "stdin" else ""
    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.3", "1.4"]), rng=rng)
    doc = doc.encode() if isinstance(doc, str) else doc
    t, role = case["t"], case["role"]
    files = {"image": comp.compress(w.data, ext), "bmap": doc}
    names = {"image": "i%x.raw%s" % (rng.getrandbits(20), ext), "bmap": "b%x.bmap" % rng.getrandbits(20), "sig": "s%x.sig" % rng.getrandbits(20)}
    roles = {role, case.get("who", role)}
    if "sig" in roles:
        ring = env.shared["ring"]
        files["sig"] = ring.sign(doc, ["good"])
        W.e["GNUPGHOME"] = ring.home(env.path("gnupg"))
    where = {k: sources.put(env.path(names[k]), d) for k, d in files.items()}
    if rng.random() < 0.3 and t != "nowhere":
        # nobody is asked which are not concerned
        W.e["https_proxy"] = "http://127.0.0.1:%d" % W.bystander.port
        W.e["no_proxy"] = "*" if rng.random() < 0.5 else "127.0.0.1,127.0.0.2,localhost"
    ok, stdin = True, None
    name, data = names[role], files[role]
    path = "/%s/%s" % (rng.choice(["x", "p/q", "pub.d"]), name)
    A = W.a
    local = "localhost" if env.shared["localhost"] else "127.0.0.2"
    refused = set()
    if t == "redirect":
        r.count("redirected")
        ha = W.host(A)
        cr = W.creds(ha)
        tgt = {"host": (W.b, None), "port": (W.c, None), "name": (A, "localhost") if env.shared["localhost"] else (W.b, None)}[case["target"]]
        tp = "/t" + path if rng.random() < 0.5 or tgt[0] is A else path
        W.route(A, path, mode="redirect:" + W.url(tgt[0], tp, name=tgt[1]), auth=cr if case["first"] == "protected" else None)
        W.route(tgt[0], tp, data, auth=cr if case["guard"] == "same" else None)
        if case["creds"] == "netrc":
            W.allowed[cr[1]] = {W.host(s) for s in W.servers if s.host == "127.0.0.1"}
            W.netrc.append(("127.0.0.1", cr))
            where[role] = W.url(A, path)
        else:
            where[role] = W.url(A, path, cr)
        ok = case["guard"] == "open"
        what = "%s at a %s server (credentials: %s) which redirects to another %s, %s there" % (
            role, case["first"], case["creds"], case["target"], "protected by the same" if not ok else "unprotected")
    elif t == "separate":
        r.count("separate")
        who = case["who"]
        cr = W.creds(W.host(A))
        W.route(A, path, data, auth=cr)
        base = os.path.dirname(path)
        p2 = base + "/" + names[who]
        srv, nm = {"path": (A, None), "below": (A, None), "port": (W.c, None), "host": (W.b, None),
                   "name": (A, "localhost") if env.shared["localhost"] else (W.b, None)}[case["where"]]
        if case["where"] == "below":
            p2 = base + "/deeper/" + names[who]
        # 'who' has credentials, 'role' has none (or its own)
        W.allowed[cr[1]] = {W.host(srv, nm)}
        W.route(srv, p2, files[who], auth=cr)
        where[who] = W.url(srv, p2, cr, nm)
        if case["own"]:
            own = W.creds(W.host(A))
            W.route(A, path, data, auth=own)
            where[role] = W.url(A, path, own)
        else:
            ok = False
            where[role] = W.url(A, path)
        what = "%s at %s with credentials, %s on the first server, %s" % (who, case["where"], role, "with its own" if ok else "which wants the same but is not given them")
    elif t == "netrc":
        r.count("netrc")
        m = case["machine"]
        cr = W.creds(W.host(A))
        W.route(A, path, data, auth=cr)
        where[role] = W.url(A, path)
        if m == "both":
            # two machines, two files
            oth = rng.choice([x for x in ("image", "bmap") if x != role])
            c2 = W.creds(W.host(W.b))
            W.route(W.b, "/other/" + names[oth], files[oth], auth=c2)
            where[oth] = W.url(W.b, "/other/" + names[oth])
            W.netrc = [("127.0.0.1", cr), ("127.0.0.2", c2)]
        elif m == "empty":
            ok = False
        elif m == "other+default":
            W.netrc = [("127.0.0.2", W.creds()), ("default", cr)]
        else:
            ok = False
            W.allowed[cr[1]] = set()
            W.netrc = [(m, cr)]
        if m not in ("other+default", "empty"):
            rng.shuffle(W.netrc)
        if rng.random() < 0.5:
            W.netrc.insert(0, ("elsewhere.example.test", W.creds()))
        what = "%s on 127.0.0.1, .netrc for %s" % (role, m)
    elif t == "precedence":
        r.count("precedence")
        how = case["how"]
        cr = W.creds(W.host(A))
        nc = W.creds()
        m = "default" if "default" in how else "127.0.0.1"
        W.netrc = [(m, nc)]
        if how.startswith("url-right"):
            W.route(A, path, data, auth=cr)
            where[role] = W.url(A, path, cr)
        elif how.startswith("url-wrong"):
            W.route(A, path, data, auth=nc)
            where[role] = W.url(A, path, cr)
            ok = False
        else:
            # one file by URL, another by .netrc
            W.route(A, path, data, auth=cr)
            where[role] = W.url(A, path, cr)
            oth = "bmap" if role != "bmap" else "image"
            W.allowed[nc[1]] = {W.host(A)}
            W.route(A, "/n/" + names[oth], files[oth], auth=nc)
            where[oth] = W.url(A, "/n/" + names[oth])
        what = "%s with credentials in the URL, .netrc entry for %s (%s)" % (role, m, how)
    elif t == "tls":
        S = W.tls(case["cert"])
        ok = case["cert"] == "good" and case["trust"]
        if case["trust"]:
            W.e["SSL_CERT_FILE"] = env.shared["tls"]["ca"]
        cr = W.creds(W.host(S)) if case["auth"] and case["via"] == "direct" else None
        W.route(S, path, data, auth=cr)
        where[role] = W.url(S, path, cr)
        if case["via"] != "direct":
            first = A if case["via"] == "http" else W.tls("good")
            W.route(first, "/r" + path, mode="redirect:" + where[role])
            where[role] = W.url(first, "/r" + path)
        if not ok:
            refused.add(S)
            if not case["trust"]:
                refused.add(W.tls("good"))
        what = "%s from a TLS server with %s certificate%s, %s" % (role, case["cert"], "" if case["trust"] else " (the CA is not known)", case["via"])
    elif t == "ssh":
        return ssh(case, env, r, rng, W, w, where, files)
    else:
        r.count("nowhere")
        W.e["http_proxy"] = W.e["ftp_proxy"] = W.e["https_proxy"] = W.e["all_proxy"] = "http://127.0.0.1:%d" % W.bystander.port
        W.netrc = [("default", W.creds())]
        if case["what"] == "fileurl":
            where["image"] = "file://" + where["image"]
        elif case["what"] == "stdin":
            stdin = open(where["image"], "rb")
            where["image"] = "-"
        what = "local files (%s)" % case["what"]
    if W.netrc:
        W.write_netrc()
    tmp = env.path("tmp")
    os.mkdir(tmp)
    W.e["TMPDIR"] = tmp
    dest = env.path("dest")
    if case.get("what") == "create":
        q = cli.run(["create", "-o", dest, env.path(names["image"])], dir=env.shm, env=W.e, survivors=False, preload=False)
    else:
        args = ["copy", "--bmap", where["bmap"]]
        if "sig" in where:
            args += ["--bmap-sig", where["sig"]]
        elif rng.random() < 0.5 and where["bmap"].startswith("/"):
            args += ["--no-sig-verify"]
        q = cli.run(args + [where["image"], dest], dir=env.shm, env=W.e, survivors=False, conf=[("track", "dest", dest)], stdin=stdin)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    for s in refused:
        r.check(not s.hits, "request-sent", "%s: the server could not prove who it is but got a request: %s" % (what, [h[0] for h in s.hits]))
    W.scan(what)
    if ok:
        if r.check(q.rc == 0, "refused", "%s: %s" % (what, q.brief())) and case.get("what") != "create":
            got = images.read_file(dest)
            r.check(got == gens.expected(w, b"", w.size), "wrong-data", what)
            if t == "tls":
                r.count("tls_good")
    else:
        if r.check(q.rc != 0, "accepted", "%s: success" % what):
            r.check("rror" in q.text(), "no-message", "%s: %s" % (what, q.brief()))
            if t == "tls":
                r.count("tls_refused")
        r.check(not gens.writes(q.events), "written", "%s: data were written" % what)
    r.key = "%s|%s" % (what, images.sha(w.data))
    r.state(t, role, *[case.get(k) for k in ("creds", "target", "guard", "first", "who", "where", "own", "machine", "how", "cert", "trust", "via", "auth", "what")])
    r.sample = {"case": what, "expected": "success" if ok else "failure", "result": q.rc}
    return r


def ssh(case, env, r, rng, W, w, where, files):
    r.count("ssh")
    log = env.path("ssh.log")
    role, oth = case["role"], "image" if case["role"] == "bmap" else "bmap"
    secret = "tok%x" % rng.getrandbits(64)
    other = case["other"]
    W.e.update({"PATH": sources.bindir(env), "FAKE_SSH_LOG": log, "FAKE_SSH_PASSWORD": secret})
    hosts = {"joe@first.test"}
    lp = dict(where)
    where[role] = "ssh://joe:%s@first.test%s" % (secret, lp[role])
    W.allowed[secret] = set()
    if other == "http":
        cr = W.creds(W.host(W.a))
        p = "/f/" + os.path.basename(where[oth])
        W.route(W.a, p, files[oth], auth=cr)
        where[oth] = W.url(W.a, p, cr)
    else:
        h = {"host": "joe@second.test", "user": "jim@first.test", "same": "joe@first.test"}[other]
        hosts.add(h)
        where[oth] = "ssh://" + h + lp[oth]
    dest = env.path("dest")
    os.mkdir(env.path("tmp"))
    W.e["TMPDIR"] = env.path("tmp")
    what = "%s over ssh with a password, %s from %s without it" % (role, oth, other)
    q = cli.run(["copy", "--no-sig-verify", "--bmap", where["bmap"], where["image"], dest], dir=env.shm, env=W.e, survivors=False, preload=False)
    W.scan(what)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    if r.check(q.rc == 0, "refused", "%s: %s" % (what, q.brief())):
        r.check(images.read_file(dest) == gens.expected(w, b"", w.size), "wrong-data", what)
    used = 0
    for e in open(log).read().split("\n--\n"):
        lines = e.strip("\n").split("\n")
        if lines == [""]:
            continue
        pw = lines[1] if lines[0] == "sshpass" else None
        if pw:
            lines = lines[2:]
        used += pw is not None
        hs = [x for x in lines if "first.test" in x or "second.test" in x]
        r.check(len(hs) == 1 and hs[0] in hosts, "stray-request", "%s: ssh to %s" % (what, hs))
        r.check(pw is None or hs == ["joe@first.test"], "leak", "%s: the password was used for %s" % (what, hs))
        # the files are read over the connection they were named with
        for k in (role, oth):
            if where[k].startswith("ssh://") and any(lp[k] in x for x in lines):
                r.check((pw is not None) == (k == role) and hs[0] == where[k][6:].partition("/")[0].replace(":" + secret, ""), "leak",
                        "%s: %s asked for from %s %s a password" % (what, k, hs, "with" if pw else "without"))
        for x in lines:
            for p in W.allowed:
                r.check(p not in x, "leak", "%s: a password is handed to ssh: %r" % (what, x))
    r.check(used > 0, "refused", "%s: the password was not used" % what)
    r.key = "%s|%s" % (what, images.sha(w.data))
    r.state("ssh", role, other)
    r.sample = {"case": what, "expected": "success", "result": q.rc}
    return r


def sequence(case, env, r, rng, W):
    """Files opened one after another by one process: each on its own."""
    from bmaptools import TransRead
    files = []
    for s in (W.a, W.b, W.c):
        for i in range(2):
            cr = W.creds(W.host(s)) if i == 0 or rng.random() < 0.5 else None
            d = rng.randbytes(rng.randint(1, 5000))
            p = "/d%d/f%d" % (rng.randrange(2), i)
            W.route(s, p, d, auth=cr)
            files.append((s, p, d, cr))
    hist = []
    with sources.environ({"HOME": env.path("home"), "no_proxy": "*"}):
        for step in range(rng.randint(6, 12)):
            s, p, d, cr = rng.choice(files)
            k = rng.choice(["none", "right", "right", "others"]) if cr else "none"
            use = {"none": None, "right": cr, "others": rng.choice([f[3] for f in files if f[3] and f[3] != cr])}[k]
            if k == "others":
                # the user said so
                W.allowed[use[1]] = {W.host(s)}
            ok = not cr or k == "right"
            hist.append("%s:%d%s %s" % (s.host, s.port, p, k))
            what = "files opened in turn: " + ", ".join(hist)
            try:
                f = TransRead.TransRead(W.url(s, p, use))
                got = f.read()
                f.close()
            except TransRead.Error as e:
                r.check(not ok, "refused", "%s: %s" % (what, e))
                got = None
            if got is not None and r.check(ok, "accepted", "%s: the last one was not given the credentials" % what):
                r.check(got == d, "wrong-data", what)
            W.scan(what)
            if k == "others":
                W.allowed[use[1]] = {W.host(f[0]) for f in files if f[3] == use}
            r.count("sequence_steps")
            r.state("seq", k, ok)
            if r.viols:
                break
    r.key = "|".join(hist)
    r.sample = {"case": "sequence of %d opens" % len(hist), "expected": "each on its own", "result": "ok" if not r.viols else "violation"}
    return r
