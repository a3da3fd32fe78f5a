"""C20: inputs are never modified and nothing is left behind."""
import errno
import os
import random
from vmon import bmapref, cli, comp, core, gens, httpd, images, pgp, sources
from vmon.core import Result

PROP = "C20"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: before/after snapshots of input, working, temporary and home directories around real runs with injected faults and interrupts"
NOTE = ("The real command line runs in a private world (input directory, working directory, TMPDIR, HOME, output directory) over all source kinds and "
        "endings: success, refusals, checksum errors, bad signatures, I/O errors and SIGINT at enumerated calls. Snapshots (contents, type, mode, "
        "modification time of inputs) taken before and after, once all helpers are gone, may differ only in the requested "
        "output. Every way to name an input as the destination (path, relative, symbolic and hard link, file URL, standard "
        "input) is enumerated and must be refused. SIGKILL and SIGTERM are out of scope (temporary files cannot be removed then).")
RULE = ("Commands x endings x aliasings; sampled images. Non-trivial: every case. Distinct by command, ending, position and image.")
BATCH = 4
REQUIRE = {"clean": 700, "interrupted": 45, "failed": 300, "aliased": 100, "ok": 180, "tempfiles": 200, "create": 120, "odd_fs": 30}

SRC = ("file", "file", "stdin", "http:length", "http:chunked", "http:redirect", "fileurl", "ssh")
ENDS = ("ok", "ok", "ok", "cksum", "badbmap", "badsig", "noimage", "nobmapfound", "small", "trunc", "nodest", "psplash", "badopt")
FAULTS = [("image", "read"), ("dest", "write"), ("dest", "fsync"), ("dest", "trunc"), ("bmap", "read"), ("tmp", "write"), ("tmp", "read"), ("dest", "open")]
SIGS = [("image", "read"), ("dest", "write"), ("dest", "fsync"), ("dest", "open"), ("bmap", "read"), ("tmp", "write"), ("image", "open"), ("tmp", "close"), ("dest", "close")]
ALIAS = ("same", "rel", "symlink", "hardlink", "dot", "fileurl", "symdir", "slashes")


def setup(ctx):
    d = os.path.join(ctx.shm, "pgp")
    os.mkdir(d)
    ctx.shared["ring"] = pgp.Ring(d)


def teardown(ctx):
    if "ring" in ctx.shared:
        ctx.shared["ring"].close()


def cases(ctx):
    out = []
    for i in range(ctx.pick(5, 40)):
        for s in SRC:
            for e in ENDS:
                out.append({"t": "copy", "src": s, "end": e})
        for role, op in FAULTS:
            for k in (1, 2):
                out.append({"t": "copy", "src": SRC[(k + i + len(out)) % len(SRC)], "end": "fault", "role": role, "op": op, "k": k})
        for role, op in SIGS:
            for k in (1, 2, 4):
                out.append({"t": "copy", "src": SRC[(k + i + len(out)) % len(SRC)], "end": "sig", "role": role, "op": op, "k": k})
        for e in ("ok", "ok", "stdout", "stdout", "noimage", "fault-image-read", "fault-out-write", "fault-image-seek", "sig-image-read", "sig-out-write", "sig-image-open",
                  "sig-tmp-write", "fault-tmp-write", "outdir", "nooutdir", "badopt", "stdout-full",
                  "stub", "stub-stdout", "nofiemap", "nofiemap-stdout", "einval", "sig-dir-seek", "fault-dir-trunc"):
            for k in (1, 2):
                out.append({"t": "create", "end": e, "k": k})
        for a in ALIAS:
            for x in ("image", "bmap", "bmap-found", "sig", "asc-found", "sig-found", "create"):
                if i % 2 == 0 or ctx.thorough:
                    out.append({"t": "alias", "how": a, "what": x})
        out.append({"t": "alias", "how": "stdin", "what": "image"})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


class World:
    def __init__(self, env, ring):
        self.env = env
        for d in ("in", "cwd", "tmp", "home", "out"):
            os.mkdir(env.path(d))
        self.e = {"HOME": env.path("home"), "TMPDIR": env.path("tmp"), "GNUPGHOME": ring.home(env.path("gnupg"))}
        sources.put(env.path("cwd/notes.txt"), b"do not touch")
        sources.put(env.path("tmp/somebody-elses"), b"do not touch either")

    def snap(self):
        s = {}
        for d in ("in", "cwd", "tmp", "home", "out", "extracted"):
            s[d] = images.snapshot(self.env.path(d)) if os.path.isdir(self.env.path(d)) else None
        s["mtime"] = {}
        for f in os.listdir(self.env.path("in")):
            st = os.lstat(self.env.path("in/" + f))
            s["mtime"][f] = (st.st_mtime_ns, st.st_ino, st.st_nlink)
        return s


def diff(a, b, allowed):
    out = []
    for d in a:
        x, y = a[d], b[d]
        if x == y:
            continue
        if x is None or y is None:
            out.append("directory %s %s" % (d, "appears" if x is None else "disappears"))
            continue
        for n in sorted(set(x) | set(y)):
            if x.get(n) != y.get(n) and d + "/" + n not in allowed:
                out.append("%s/%s %s" % (d, n, "is new" if n not in x else "is gone" if n not in y else "changed: %s -> %s" % (x[n], y[n])))
    return out


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    ring = env.shared["ring"]
    wd = World(env, ring)
    if case["t"] == "create":
        return run_create(case, env, r, rng, wd)
    end = case.get("end", "alias")
    w = gens.work(rng, maxbytes=rng.choice([30000, 400000, 3 << 20]), odd=0.2, minblocks=3, nonempty=True)
    w.ranges[-1] = (w.ranges[-1][0], w.nblocks - 1)
    alias = case["t"] == "alias"
    kind = case.get("src", "stdin" if case.get("how") == "stdin" else "file")
    ext = rng.choice(["", "", ".gz", ".tar.gz", ".bz2", ".xz", ".tgz", ".tar.bz2", ".zst", ".tar.zst", ".lzo", ".tlz4", ".zip"])
    if kind == "stdin":
        ext = ""
    name = "image.raw" + ext
    data = w.data
    if end == "cksum":
        data = data[:-1] + bytes([data[-1] ^ 1])
    blob = comp.compress(data, ext)
    if end == "trunc":
        blob = blob[:len(blob) * 2 // 3]
    ip = sources.put(env.path("in/" + name), blob)
    if rng.random() < 0.3:
        os.chmod(ip, 0o444)
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    doc = doc.encode() if isinstance(doc, str) else doc
    if end == "badbmap":
        doc = rng.choice([doc[:-20], b"", doc.replace(b"<BlocksCount>", b"<BlocksCount>3")])
    clear = rng.random() < 0.2 and not alias and end != "badbmap"
    signed = rng.random() < 0.4 or end == "badsig" or "sig" in case.get("what", "") or "asc" in case.get("what", "")
    if clear:
        doc = ring.sign(doc, ["untrusted" if end == "badsig" else "good"], "--clearsign")
        signed = False
    found = (rng.random() < 0.5 and not alias) or case.get("what", "").endswith("found")
    if kind.startswith("stdin"):
        found = False
    bn = name + ".bmap" if found else "the.bmap"
    bp = sources.put(env.path("in/" + bn), doc)
    args = []
    sp = None
    if signed:
        sig = ring.sign(doc if end != "badsig" else doc + b"x", ["good"], armor=rng.random() < 0.5)
        if case.get("what") == "sig" or (not alias and rng.random() < 0.3):
            sp = sources.put(env.path("in/some.sig"), sig)
        else:
            sx = ".asc" if case.get("what") == "asc-found" or (not alias and rng.random() < 0.5) else ".sig"
            sp2 = sources.put(bp + sx, sig)
    # how things are handed over
    stdin = None
    image, bmap, sg = ip, bp, sp
    remote = kind.startswith("http") or kind in ("fileurl", "ssh")
    if kind == "stdin":
        image, stdin = "-", ip
    elif kind.startswith("http"):
        httpd.get().routes.clear()
        for f in os.listdir(env.path("in")):
            with open(env.path("in/" + f), "rb") as fo:
                u = sources.serve(f, fo.read(), kind[5:])
            if f == name:
                image = u
            elif f == bn and rng.random() < 0.7:
                bmap = u
            elif f == "some.sig" and rng.random() < 0.7:
                sg = u
    elif kind == "fileurl":
        image = "file://" + ip
        bmap = "file://" + bp if rng.random() < 0.7 else bp
        sg = "file://" + sp if sp and rng.random() < 0.7 else sp
    elif kind == "ssh":
        wd.e["PATH"] = sources.bindir(env)
        image = "ssh://host" + ip
        bmap = "ssh://host" + bp if rng.random() < 0.5 else bp
    if remote and (found or bmap != bp):
        r.count("tempfiles")
    useb = end not in ("nobmapfound",) and (alias or end not in ("ok", "sig", "fault", "psplash") or rng.random() < 0.75)
    if end == "trunc":
        useb = rng.random() < 0.5
    if end == "nobmapfound":
        for f in (bp, bp + ".asc", bp + ".sig"):
            if os.path.exists(f):
                os.unlink(f)
            httpd.get().routes.pop("/" + os.path.basename(f), None)
        sg = None
    elif not useb:
        args.append("--nobmap")
        sg = None
    elif not found:
        args += ["--bmap", bmap]
    if sg:
        args += ["--bmap-sig", sg]
    dest = env.path("out/dest")
    old = None
    if rng.random() < 0.6 or end in ("small", "fault", "sig"):
        old = b"\x3b" * rng.choice([10, w.size])
        sources.put(dest, old)
    conf = [("trackdir", "tmp", env.path("tmp"))]
    if os.path.exists(ip):
        conf.append(("track", "image", ip))
    if os.path.exists(bp):
        conf.append(("track", "bmap", bp))
    expect = None
    if end == "ok":
        expect = True
    elif end in ("badbmap", "badsig", "nobmapfound", "cksum", "trunc"):
        expect = False
        if end == "badsig" and not useb:
            expect = None
        if end == "trunc" and not useb and not ext:
            expect = True
    if end == "noimage":
        image = image[:-3] + "nothere" if image != "-" else env.path("in/nothere")
        expect = False
    elif end == "nodest":
        dest = rng.choice([env.path("nodir/dest"), env.path("out"), env.path("in/" + bn + "/x")])
        expect = False
    elif end == "psplash":
        args += ["--psplash-pipe", env.path("cwd/pipe")]
        expect = True
    elif end == "badopt":
        args += rng.choice([["--nobmap", "--bmap", bp], ["--frobnicate"], ["--bmap-sig", bp, "--no-sig-verify"], ["--nobmap", "--bmap-sig", bp], ["a", "b"]])
        expect = False
    elif end == "small":
        sources.put(dest, b"\x3b" * (w.size - 1))
        conf += [("track", "dest", dest), ("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
        expect = False
    elif end in ("fault", "sig"):
        conf.append(("track", "dest", dest))
        if end == "fault":
            conf.append(("fault", case["role"], case["op"], case["k"], 1000, "err", rng.choice([errno.EIO, errno.ENOSPC])))
        else:
            conf.append(("fault", case["role"], case["op"], case["k"], 1, "sig", 2))
    if end == "psplash" and rng.random() < 0.4:
        wd.e["PATH"] = wd.e.get("PATH", cli.BASE_ENV["PATH"])
    what = "copy of %s%s from %s, %s" % (name, " with " + ("clearsigned " if clear else "signed " if signed else "") + ("found" if found else "given") + " bmap" if useb else "",
                                         kind, end)
    if end in ("fault", "sig"):
        what += " at %s %d of %s" % (case["op"], case["k"], case["role"])
    if alias:
        target = {"image": ip, "bmap": bp, "bmap-found": bp, "sig": sp}.get(case["what"]) if case["what"] not in ("asc-found", "sig-found") else sp2
        if case["what"] == "create":
            target = ip
        how = case["how"]
        what = "%s as the destination, named by %s" % (case["what"], how)
        dest, given = target, None
        if how == "rel":
            dest = os.path.relpath(target, env.path("cwd"))
        elif how == "dot":
            dest = env.path("in/../in/./" + os.path.basename(target))
        elif how == "slashes":
            dest = target.replace("/", "//")
        elif how == "symlink":
            os.symlink(target, env.path("out/link"))
            dest = env.path("out/link")
        elif how == "symdir":
            os.symlink(env.path("in"), env.path("out/indir"))
            dest = env.path("out/indir/") + os.path.basename(target)
        elif how == "hardlink":
            os.link(target, env.path("in/hard"))
            dest = env.path("in/hard")
        elif how == "fileurl":
            given = "file://" + target
        if how in ("symlink", "symdir", "rel") and rng.random() < 0.5 and case["what"] in ("image", "bmap"):
            # the other way around: the input is named by the link
            given, dest = dest, target
        if given:
            if case["what"] in ("image", "bmap-found", "asc-found", "sig-found", "create"):
                image = given if case["what"] in ("image", "create") else "file://" + ip
                if case["what"] == "image" and "--bmap" not in args:
                    pass
            elif case["what"] == "bmap":
                args[args.index("--bmap") + 1] = given
            else:
                args[args.index("--bmap-sig") + 1] = given
        if case["what"] == "create":
            if given:
                image = ip
        elif case["what"] == "image" and rng.random() < 0.4:
            args = ["--nobmap"]
        expect = False
        r.count("aliased")
    cwd = env.path("cwd")
    before = wd.snap()
    fi = open(stdin, "rb") if stdin else None
    if alias and case["what"] == "create":
        cmd = ["create"] + rng.choice([["-o", dest, image], [image, "-o", dest], ["--no-checksum", "-o", dest, image]])
    else:
        cmd = ["copy"] + args + [image, dest]
    q = cli.run((["-q"] if rng.random() < 0.2 else []) + cmd, dir=env.shm, conf=conf, cwd=cwd, env=wd.e, stdin=fi)
    if fi:
        fi.close()
    if q.hang:
        r.bad("hang", what + ": " + q.hang)
        return r
    after = wd.snap()
    bad = diff(before, after, {"out/dest"} if not alias else ())
    if bad:
        r.bad("alias-destroyed" if alias else "left-behind" if any("is new" in b for b in bad) else "input-changed",
              "%s (%s): %s" % (what, q.brief() if q.rc else "success", "; ".join(bad[:4])))
    else:
        r.count("clean")
    if expect is not None:
        r.check((q.rc == 0) == expect, ("alias-accepted" if alias else "unexpected-success") if not expect else "unexpected-failure", "%s: %s" % (what, q.brief()))
    r.count("ok" if q.rc == 0 else "failed")
    fired = [e for e in q.events if e.op == "fault"]
    if end == "sig" and fired:
        r.count("interrupted")
    if end in ("sig", "fault") and not fired:
        r.nontrivial = False
    r.key = "%s|%s" % (what, images.sha(data))
    r.state(kind, ext, end, useb, found, clear, signed, case.get("role"), case.get("op"), case.get("how"), case.get("what"))
    r.sample = {"case": what, "result": q.rc, "files_watched": sum(len(v) for v in after.values() if v)}
    return r


def run_create(case, env, r, rng, wd):
    r.count("create")
    end, k = case["end"], case["k"]
    img = images.gen(rng, maxsize=2 << 20)
    if img.size == 0:
        img = images.Img(5000, [(0, b"x" * 5000)])
    ip = img.write(env.path("in/img"))
    out = env.path("out/dest")
    sources.put(out, b"old")
    conf = [("track", "image", ip), ("track", "out", out), ("trackdir", "tmp", env.path("tmp"))]
    tostd = "stdout" in end or "tmp" in end or (end.startswith(("fault-image", "sig-image")) and k == 2)
    args = ["create"] + (["--no-checksum"] if rng.random() < 0.3 and "read" not in end else []) + ([] if tostd else ["-o", out]) + [ip]
    f = end.split("-")
    if f[0] == "fault":
        conf.append(("fault", f[1], f[2], k, 1000, "err", rng.choice([errno.EIO, errno.ENOSPC])))
    elif f[0] == "sig":
        conf.append(("fault", f[1], f[2], k, 1, "sig", 2))
    elif end == "noimage":
        args[-1] = env.path("in/nothere")
    elif end == "outdir":
        args = ["create", "-o", env.path("out"), ip]
    elif end == "nooutdir":
        args = ["create", "-o", env.path("out/no/such"), ip]
    elif end == "badopt":
        args.insert(1, rng.choice(["--frobnicate", "--bmap", "extra"]))
    fs = end.split("-")[0]
    if fs in ("stub", "nofiemap", "einval") or f[1:2] == ["dir"]:
        # a file system without FIEMAP, or without anything
        r.count("odd_fs")
        conf += [("trackdir", "dir", env.path("in")), ("fiemap", "image", "err", errno.EOPNOTSUPP)]
        if fs in ("stub", "einval"):
            conf += [("holes", "image", fs), ("holes", "dir", fs)]
    before = wd.snap()
    so = open("/dev/full", "wb") if end == "stdout-full" else None
    q = cli.run(args, dir=env.shm, conf=conf, cwd=env.path("cwd"), env=wd.e, stdout=so)
    if so:
        so.close()
    what = "create, %s (%d)" % (end, k)
    if q.hang:
        r.bad("hang", what + ": " + q.hang)
        return r
    bad = diff(before, wd.snap(), {"out/dest"} if not tostd else ())
    if bad:
        r.bad("left-behind" if any("is new" in b for b in bad) else "input-changed", "%s (%s): %s" % (what, q.brief(), "; ".join(bad[:4])))
    else:
        r.count("clean")
    if fs in ("ok", "nofiemap") or end == "stdout":
        r.check(q.rc == 0, "unexpected-failure", "%s: %s" % (what, q.brief()))
    elif fs in ("stub", "einval") or end in ("noimage", "outdir", "nooutdir", "badopt", "stdout-full"):
        r.check(q.rc != 0, "unexpected-success", "%s: %s" % (what, q.brief()))
    r.count("ok" if q.rc == 0 else "failed")
    if f[0] == "sig" and any(e.op == "fault" for e in q.events):
        r.count("interrupted")
    r.key = what + str(img.size)
    r.state("create", end, k, q.rc)
    r.sample = {"case": what, "result": q.rc}
    return r
