"""C32: the destination is written in place."""
import os
import random
import socket
import stat
import struct
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Result

PROP = "C32"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: metadata snapshots (inode, owner, mode, links, extended attributes, directory entries) and descriptors held open across real copies and creations, with injected failures"
NOTE = ("Copies (bmap, no bmap, compressed, API) and creations (-o, API) onto new and existing files which are reached by name, through relative, absolute, chained "
        "and dangling symbolic links, linked directories, descriptors (/dev/fd, /proc/self/fd) and other hard links; with random owners, modes, umasks, extended attributes "
        "and ACLs, on tmpfs and disk, as root and as an ordinary user, ending well and badly. Device, FIFO, socket and directory destinations must stay what they are.")
RULE = "Sampled route x kind of destination x attributes x ending. Non-trivial: the destination was written to or the expected refusal was seen. Distinct by cell and seed."
BATCH = 8
REQUIRE = {"inplace": 250, "links": 80, "created_new": 100, "hard": 40, "descriptor": 30, "failed_inplace": 80, "special": 100, "user": 60, "held": 150}

ROUTES = ("copy", "copy", "copy", "nobmap", "packed", "copy-api", "create", "create", "create-api")
KINDS = ("plain", "plain", "link", "link", "chain", "dirlink", "dotdot", "hard", "hard", "fd", "procfd", "new", "new", "dangling", "newdirlink", "newdotdot")
SPECIAL = ("dir", "fifo", "socket", "null", "loop", "slash", "noparent", "tty", "linkdir", "linkfifo", "fileparent")
UID = 54321


def cases(ctx):
    out = []
    for i in range(ctx.pick(70, 1200)):
        for ro in ROUTES:
            out.append({"t": "file", "route": ro})
    for i in range(ctx.pick(14, 200)):
        for k in SPECIAL:
            out.append({"t": "special", "kind": k})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


def meta(path, contents=False):
    """All but times and space."""
    try:
        st = os.lstat(path)
    except OSError:
        return None
    m = {"kind": stat.S_IFMT(st.st_mode), "inode": (st.st_dev, st.st_ino), "mode": oct(st.st_mode & 0o7777), "owner": (st.st_uid, st.st_gid), "links": st.st_nlink}
    if stat.S_ISLNK(st.st_mode):
        m["target"] = os.readlink(path)
    elif stat.S_ISREG(st.st_mode):
        m["xattr"] = sorted((n, os.getxattr(path, n)) for n in os.listxattr(path))
        if contents:
            m["data"] = images.sha(images.read_file(path))
    return m


def compare(r, mech, what, before, after, skip=()):
    if after is None:
        r.bad(mech, "%s: it is gone" % what)
        return False
    for k in before:
        if k not in skip and before[k] != after[k]:
            r.bad(mech, "%s: %s was %s and is %s" % (what, k, before[k], after[k]))
            return False
    return True


def acl(rng):
    e = [(1, 6, 0xffffffff), (2, rng.choice([4, 6, 7]), 1000 + rng.randint(0, 5)), (4, rng.choice([0, 4]), 0xffffffff), (0x10, rng.choice([4, 6]), 0xffffffff), (0x20, rng.choice([0, 4]), 0xffffffff)]
    return struct.pack("<I", 2) + b"".join(struct.pack("<HHI", *x) for x in e)


def command(env, rng, route, d, bad):
    """Returns (function running it on a destination, expected contents given the old ones, check)."""
    c = type("C", (), {})()
    c.create = route.startswith("create")
    if c.create:
        c.img = images.gen(rng, kind=rng.choice(["runs", "alternate", "edges"]), maxsize=rng.choice([5000, 200000, 1 << 20]))
        ip = c.img.write(os.path.join(d, "image"))
        c.args = lambda dest: ["create"] + rng.choice([["-o", dest, ip], [ip, "--output", dest]])
    else:
        w = c.w = gens.work(rng, maxbytes=rng.choice([20000, 300000, 3 << 20]), odd=0.2, nonempty=True)
        ext = rng.choice([".gz", ".xz", ".bz2", ".zip", ".tar.gz"]) if route == "packed" else ""
        data = w.data
        doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.4", "1.3"]))
        doc = doc if isinstance(doc, bytes) else doc.encode()
        c.whole = route == "nobmap"
        if bad:
            # found out while copying; without bmap only compressed images can be known to be damaged
            f = w.ranges[-1][0] * w.bs
            data = data[:f] + bytes([data[f] ^ 255]) + data[f + 1:]
        packed = comp.compress(data, ext)
        ip = sources.put(os.path.join(d, "image" + ext), packed)
        bp = sources.put(os.path.join(d, "map"), doc)
        c.args = lambda dest: ["copy"] + (["--nobmap"] if c.whole else ["--bmap", bp]) + [ip, dest]
        c.bp = bp
    c.ip = ip
    return c


def run_file(case, env, r, rng):
    route = case["route"]
    if rng.random() < 0.4:
        env.dir = env.disk
    d = env.path("in")
    o = env.path("out")
    for p in (d, o):
        os.mkdir(p)
    kind = rng.choice(KINDS)
    use_api = route.endswith("api")
    bad = not route.startswith("create") and route != "nobmap" and rng.random() < 0.35
    c = command(env, rng, route, d, bad)
    fault = None
    if not use_api and rng.random() < 0.25:
        # writing fails
        fault = (rng.choice(["write", "write", "fsync", "trunc"]), rng.choice([1, 1, 2]), rng.choice([5, 28, 5, 122]))
    user = UID if not use_api and kind not in ("fd", "procfd") and rng.random() < 0.3 else None
    new = kind in ("new", "dangling", "newdirlink", "newdotdot")
    real = os.path.join(o, rng.choice(["dest", "d.img", "de st", ".hidden"]))
    os.mkdir(os.path.join(o, "sub"))
    if kind in ("link", "chain", "dangling") and rng.random() < 0.5:
        real = os.path.join(o, "sub", "target")
    dest, watch = real, []
    old = b""
    if not new:
        old = rng.randbytes(rng.choice([0, 1, 5000, 300000, 4 << 20]))
        sources.put(real, old)
    if kind in ("link", "dangling"):
        dest = os.path.join(o, "link")
        os.symlink(real if rng.random() < 0.5 else os.path.relpath(real, o), dest)
        watch = [dest]
    elif kind == "chain":
        n = rng.randint(2, 6)
        p = real
        for i in range(n):
            q = os.path.join(o, "chain%d" % i)
            os.symlink(p if rng.random() < 0.5 else os.path.relpath(p, o), q)
            watch.append(q)
            p = q
        dest = p
    elif kind in ("dirlink", "newdirlink"):
        os.symlink(o if rng.random() < 0.5 else "out", env.path("way"))
        watch = [env.path("way")]
        dest = os.path.join(env.path("way"), os.path.basename(real))
    elif kind in ("dotdot", "newdotdot"):
        # the parent of where the link leads, not of where it lies
        os.symlink("out/sub", env.path("way"))
        watch = [env.path("way")]
        dest = os.path.join(env.path("way"), "..", os.path.basename(real))
        if rng.random() < 0.5:
            # what one gets if the dots are resolved first
            watch.append(sources.put(env.path(os.path.basename(real)), b"decoy"))
    hard = []
    if kind == "hard":
        for i in range(rng.randint(1, 3)):
            hard.append(os.path.join(o, rng.choice([".", "sub"]), "hard%d" % i))
            os.link(real, hard[-1])
        if rng.random() < 0.5:
            dest = hard[0]
    xa = 0
    if not new:
        mode = rng.choice([0o600, 0o644, 0o640, 0o664, 0o666, 0o755, 0o700, 0o777, 0o606, 0o1644])
        if user:
            own = rng.choice([(UID, UID), (UID, UID), (0, UID), (UID, 0), (1234, 4321)])
            # writable for that user (readable, too: the file is opened for both)
            bits = 0o600 if own[0] == UID else 0o060 if own[1] == UID else 0o006
            mode |= bits
            mode &= ~0o1000
        else:
            own = rng.choice([(0, 0), (UID, UID), (0, 77), (1234, 4321)])
            if rng.random() < 0.2:
                mode = rng.choice([0, 0o444, 0o400])
        os.chown(real, *own)
        os.chmod(real, mode)
        if rng.random() < 0.5:
            for i in range(rng.randint(1, 3)):
                os.setxattr(real, "user.x%d" % i, rng.randbytes(rng.randint(0, 60)))
                xa += 1
        if rng.random() < 0.2 and not user:
            os.setxattr(real, "system.posix_acl_access", acl(rng))
            xa += 1
    for p in (env.dir, d, o, os.path.join(o, "sub")):
        os.chmod(p, 0o777 if user else 0o755)
    if user:
        for p in (env.shm, env.disk):
            os.chmod(p, 0o755)
    before = meta(real)
    wbefore = [meta(p, True) for p in watch]
    names = {p: sorted(os.listdir(p)) for p in (o, os.path.join(o, "sub"))}
    held = held_w = None
    if not new:
        held = open(real, "rb")
    kw = {}
    if kind in ("fd", "procfd"):
        fd = os.open(real, os.O_RDWR)
        os.set_inheritable(fd, True)
        kw["extra_fds"] = (fd,)
        dest = ("/dev/fd/%d" if kind == "fd" else "/proc/self/fd/%d") % fd
    um = rng.choice([0o022, 0o022, 0o077, 0o002, 0, 0o027, 0o177])
    what = "%s, destination %s%s, umask %03o%s%s" % (route, kind, "" if new else " (mode %s, owner %s, %d attributes)" % (before["mode"], before["owner"], xa), um,
                                                      ", damaged image" if bad else "", ", %s %d fails with %d" % fault if fault else "")
    saved = os.umask(um)
    try:
        if use_api:
            if c.create:
                q = api.create(c.ip, dest)
            else:
                q = api.copy(c.ip, dest, c.bp, mode="r+b" if not new else "w+b")
            ok, hang = q.exc is None, None
            text = "%s %s" % (q.exc, q.text)
        else:
            conf = []
            if fault:
                conf = [("track", "dest", real), ("fault", "dest", fault[0], fault[1], 1, "err", fault[2])]
            q = cli.run(c.args(dest), dir=env.shm, conf=conf, preload=bool(fault) and not user, user=user, cwd=d, **kw)
            ok, hang, text = q.rc == 0, q.hang, q.brief()
    finally:
        os.umask(saved)
        if kw:
            os.close(kw["extra_fds"][0])
    try:
        if hang:
            r.bad("hang", "%s: %s" % (what, hang))
            return
        if not bad and (not fault or user):
            if not r.check(ok, "refused", "%s: %s" % (what, text)):
                return
        r.check(not (bad and ok), "damage-unnoticed", what)
        after = meta(real)
        for p in names:
            extra = set(os.listdir(p)) - set(names[p])
            gone = set(names[p]) - set(os.listdir(p))
            if new:
                extra.discard(os.path.basename(real) if os.path.dirname(real) == p else None)
            r.check(not extra and not gone, "directory", "%s: new names %s, missing names %s" % (what, sorted(extra), sorted(gone)))
        for p, m in zip(watch, wbefore):
            compare(r, "link-replaced", "%s: %s" % (what, os.path.basename(p)), m, meta(p, True))
            r.count("links")
        if new:
            if after is None:
                r.check(not ok, "not-created", what)
                return
            r.check(after["kind"] == stat.S_IFREG, "kind", "%s: the new file is of type %o" % (what, after["kind"]))
            r.check(int(after["mode"], 8) == 0o666 & ~um, "new-mode", "%s: the new file has mode %s, expected %03o" % (what, after["mode"], 0o666 & ~um))
            r.check(after["owner"] == ((user, user) if user else (os.getuid(), os.getgid())), "new-owner", "%s: the new file belongs to %s" % (what, after["owner"]))
            r.check(not after["xattr"] and after["links"] == 1, "new-attributes", "%s: %s" % (what, after))
            r.count("created_new")
        else:
            if not compare(r, "not-in-place", "%s: the destination" % what, before, after):
                return
            r.count("inplace")
            r.count("failed_inplace", int(not ok))
            r.count("hard", len(hard))
            r.count("descriptor", int(kind in ("fd", "procfd")))
        data = images.read_file(real)
        if ok:
            if c.create:
                for b in bmapref.check_generated(data, c.img, True, "sha256")[:2]:
                    r.bad("contents", "%s: %s" % (what, b))
            else:
                was = old if use_api else b""
                want = c.w.data if c.whole else gens.expected(c.w, was[:c.w.size], c.w.size)
                df = images.describe_diff(data, want)
                r.check(df is None, "contents", "%s: %s" % (what, df))
        if held:
            r.check(held.read() == data, "held-open", "%s: somebody who has the file open sees something else" % what)
            r.count("held")
        for h in hard:
            r.check(images.read_file(h) == data, "hard-link", "%s: another link has other contents" % what)
        r.count("user", int(bool(user)))
        r.state(route, kind, ok, xa > 0, bool(user))
        r.sample = {"what": what, "ok": ok}
        r.key = what + str(case["seed"])
        r.nontrivial = True
    finally:
        if held:
            held.close()


def run_special(case, env, r, rng):
    kind = case["kind"]
    d, o = env.path("in"), env.path("out")
    os.mkdir(d)
    os.mkdir(o)
    route = rng.choice(["copy", "nobmap", "create"])
    c = command(env, rng, route, d, False)
    dest = p = os.path.join(o, "thing")
    keep = None
    okay = False
    if kind in ("dir", "linkdir"):
        os.mkdir(p)
        sources.put(p + "/file", b"precious")
    elif kind in ("fifo", "linkfifo"):
        os.mkfifo(p)
    elif kind == "socket":
        keep = socket.socket(socket.AF_UNIX)
        cwd = os.getcwd()
        os.chdir(o)
        keep.bind("thing")
        os.chdir(cwd)
        if rng.random() < 0.5:
            keep.listen(1)
    elif kind == "null":
        # a link to it, so that a replacement would hit the link only
        os.symlink("/dev/null", p)
        okay = True
    elif kind == "tty":
        m, s = os.openpty()
        keep = (m, s)
        os.symlink(os.ttyname(s), p)
    elif kind == "loop":
        os.symlink("thing2", p)
        os.symlink("thing", p + "2")
    elif kind == "slash":
        if rng.random() < 0.5:
            sources.put(p, b"precious")
        dest = p + "/"
    elif kind == "noparent":
        dest = os.path.join(o, "no", "thing")
    elif kind == "fileparent":
        sources.put(p, b"precious")
        dest = p + "/thing"
    if kind in ("linkdir", "linkfifo"):
        dest = os.path.join(o, "link")
        os.symlink("thing", dest)
    null = meta("/dev/null")
    what = "%s to %s" % (route, kind)
    # an ordinary user cannot damage what /dev has
    os.chmod(env.dir, 0o755)
    os.chmod(o, 0o777)
    os.chmod(d, 0o777)
    before = {n: meta(os.path.join(o, n), True) for n in os.listdir(o)}
    q = cli.run(c.args(dest), dir=env.shm, preload=False, cwd=d, user=UID if kind in ("null", "tty") else None)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return
    if okay and route != "create":
        r.check(q.rc == 0, "refused", "%s: %s" % (what, q.brief()))
    elif not okay and kind != "tty":
        r.check(q.rc not in (0, None) and q.rc > 0, "accepted", "%s: %s" % (what, q.brief()))
    if q.rc:
        r.check(bool(q.err.strip()), "silent-failure", "%s: status %s without a message" % (what, q.rc))
    after = {n: meta(os.path.join(o, n), True) for n in os.listdir(o)}
    r.check(sorted(before) == sorted(after), "directory", "%s: before %s, after %s" % (what, sorted(before), sorted(after)))
    for n in before:
        compare(r, "replaced", "%s: %s" % (what, n), before[n], after.get(n))
    r.check(meta("/dev/null") == null, "null-changed", "%s: /dev/null was %s" % (what, null))
    if kind in ("dir", "linkdir"):
        r.check(os.listdir(p) == ["file"] and images.read_file(p + "/file") == b"precious", "directory-changed", "%s: %s" % (what, os.listdir(p)))
    if isinstance(keep, tuple):
        os.close(keep[0])
        os.close(keep[1])
    elif keep:
        keep.close()
    r.count("special")
    r.state("special", kind, route, q.rc == 0)
    r.key = what + str(case["seed"])
    r.nontrivial = True
    r.sample = {"what": what, "status": q.rc}


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    (run_file if case["t"] == "file" else run_special)(case, env, r, rng)
    return r
