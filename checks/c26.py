"""C26: the command line keeps its contract."""
import os
import random
import stat
from vmon import bmapref, cli, core, gens, images, sources
from vmon.core import Result

PROP = "C26"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: generated command lines are run for real; an independent model of the documented contract predicts acceptance, and "
             "monitors compare exit status, destination (contents, inode), standard output and standard error")
NOTE = ("Command lines are composed of healthy and faulty parts (image, bmap, signature, destination or output, option combinations, spelling, order; regular "
        "files, new files and stand-in block devices; closed or full standard streams; unprivileged users). Whatever has a faulty part must end with "
        "a non-zero status and an unchanged destination; the others must succeed, with the right results on the right streams. Sampled combinations.")
RULE = "Sampled combinations; each faulty part occurs alone and with others. Non-trivial: every case. Distinct by command line and parts."
BATCH = 4
REQUIRE = {"rejected": 200, "accepted": 90, "quiet": 50, "terminals": 20, "usage": 39, "streams": 24, "create_rejected": 80, "create_accepted": 60}

GOOD = {
    "image": ("file", "file", "file", "stdin", "gz"),
    "bmap": ("auto", "auto", "explicit", "explicit", "none", "none-auto"),
    "sig": ("no", "no", "no", "noverify", "noverify-garbage"),
    "dest": ("existing", "existing", "existing", "new", "bdev", "link"),
    "flags": ("", "", "-q", "-q", "--quiet", "-d", "--debug", "-q-late"),
    "extra": ("no", "no", "no", "noverify", "psplash-none", "psplash-file"),
}
BAD = {
    "image": ("missing", "dir", "emptyname", "unreadable", "url-missing", "url-refused", "url-scheme", "damaged-name", "fifoless", "stdin-closed"),
    "bmap": ("absent", "missing", "emptyname", "dir", "garbage", "truncated", "newversion", "noversion", "othersize", "emptyfile", "contradict", "contradict2",
             "unreadable", "badheader", "corrupted", "isimage"),
    "sig": ("missing", "garbage", "emptyname", "contradict", "nobmap", "auto-garbage", "dir"),
    "dest": ("noparent", "dir", "emptyname", "unwritable", "image", "bmap", "bdev-busy", "bdev-small", "parentfile", "longname"),
    "flags": ("-q-d", "-d-q"),
    "extra": ("surplus", "unknown", "unknown-short", "misplaced", "noarg", "noarg2", "missing-dest", "missing-both", "version-arg"),
}
USAGE = (([], 2), (["copy"], 2), (["create"], 2), (["frob"], 2), (["--frob"], 2), (["copy", "x"], 2), (["create", "x", "y"], 2), (["-o", "x"], 2),
         (["--quiet"], 2), (["--bmap", "x"], 2), (["copy", "--output", "x", "y", "z"], 2), (["create", "--nobmap", "x"], 2), (["create", "-o"], 2), (["copy", "--bmap"], 2),
         (["create", "--no-checksum=3", "x"], 2), (["copy", "--nobmap=1", "x", "y"], 2), (["-q", "-d"], 2), (["COPY", "x", "y"], 2), (["", "x", "y"], 2),
         (["--version"], 0), (["--help"], 0), (["-h"], 0), (["copy", "--help"], 0), (["create", "-h"], 0), (["copy", "-h", "x"], 0), (["--version", "copy"], 0))


def cases(ctx):
    out = []
    n1, n2, n3, n4 = ctx.pick((200, 6, 130, 3), (2600, 60, 1800, 30))
    for i in range(n1):
        out.append({"t": "copy", "bad": []})
    for i in range(n2):
        for k in BAD:
            for v in BAD[k]:
                out.append({"t": "copy", "bad": [(k, v)]})
    for i in range(n1 // 2):
        out.append({"t": "copy", "bad": None})
    for i in range(n3):
        out.append({"t": "create", "bad": []})
    for i in range(n4):
        for b in CBAD:
            for rep in range(4):
                out.append({"t": "create", "bad": [b]})
    for i in range(ctx.pick(3, 20)):
        for j in range(len(USAGE)):
            out.append({"t": "usage", "j": j})
    for i in range(ctx.pick(4, 50)):
        for st in STREAMS:
            out.append({"t": "streams", "st": st})
    for i in range(ctx.pick(10, 100)):
        out.append({"t": "memory"})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


CBAD = ("missing", "dir", "zero", "emptyname", "unreadable", "o-dir", "o-noparent", "o-emptyname", "o-image", "o-full", "o-unwritable", "o-link", "surplus", "unknown", "-q-d")
STREAMS = ("copy-in", "copy-out", "copy-err", "copy-out-tty", "copy-all", "copy-outfull", "create-out", "create-err", "create-in", "create-full", "create-pipe",
           "create-tofile")


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    os.chmod(env.shm, 0o777)
    return globals()["run_" + case["t"]](case, env, r, rng)


def state_of(p):
    """What a destination looks like (None: absent)."""
    try:
        st = os.stat(p)
    except OSError:
        return None
    if stat.S_ISDIR(st.st_mode):
        return ("dir", tuple(sorted(os.listdir(p))), st.st_ino)
    return ("file", images.sha(images.read_file(p)), st.st_size, st.st_ino, stat.S_IMODE(st.st_mode))


def lines(text):
    return [l for l in text.splitlines() if l.strip()]


def run_copy(case, env, r, rng):
    w = gens.work(rng, maxbytes=rng.choice([2000, 60000, 600000]), odd=0.3, nonempty=True)
    while w.size < 2:
        w = gens.work(rng, maxbytes=2000, nonempty=True)
    c = {k: rng.choice(GOOD[k]) for k in GOOD}
    bad = case["bad"]
    if bad is None:
        bad = []
        for k in rng.sample(sorted(BAD), rng.choice([2, 2, 3])):
            bad.append((k, rng.choice(BAD[k])))
    for k, v in bad:
        c[k] = v
    bad = {k: v for k, v in bad}
    # parts which only make sense with others
    if c["image"] in ("stdin", "stdin-closed") and c["bmap"] in ("auto", "none-auto"):
        c["bmap"] = "explicit" if c["bmap"] == "auto" else "none"
    if bad.get("sig") in ("garbage", "missing", "emptyname", "auto-garbage", "dir", "contradict") and c["bmap"] in ("none", "none-auto"):
        c["bmap"] = "explicit" if "bmap" not in bad else c["bmap"]
    if bad.get("sig") == "nobmap":
        c["bmap"] = "none" if "bmap" not in bad else c["bmap"]
    if c["sig"] == "noverify-garbage" and c["bmap"] in ("none", "none-auto"):
        c["sig"] = "no"
    if bad.get("dest") == "bmap" and c["bmap"] in ("none", "none-auto", "absent"):
        c["bmap"] = "explicit" if "bmap" not in bad else c["bmap"]
    if bad.get("dest") == "image" and c["image"] not in ("file", "gz"):
        c["image"] = "file" if "image" not in bad else c["image"]
    if c["bmap"] == "absent" and c["image"] == "file":
        pass
    user = 65534 if "unreadable" in (c["image"], c["bmap"]) or c["dest"] == "unwritable" else None
    if bad.get("bmap") == "othersize":
        # sizes are compared only if the size of the image is known
        c["image"] = "file" if "image" not in bad else c["image"]
    if bad.get("dest") in ("bdev-small",) and c["bmap"] in ("none", "none-auto"):
        c["image"] = "file" if "image" not in bad else c["image"]

    d = env.path("in")
    os.mkdir(d)
    os.chmod(d, 0o755)
    data = w.data
    stdin = None
    ip = os.path.join(d, "x.img")
    image = ip
    if c["image"] == "gz":
        import gzip
        image = ip = os.path.join(d, "x.img.gz")
        sources.put(ip, gzip.compress(data, 1))
    elif c["image"] == "dir":
        os.mkdir(ip)
    elif c["image"] == "missing":
        pass
    elif c["image"] == "emptyname":
        image = ""
    elif c["image"] == "url-missing":
        image = "file://" + ip
    elif c["image"] == "url-refused":
        image = "http://127.0.0.1:1/x.img"
    elif c["image"] == "url-scheme":
        image = "gopher://127.0.0.1/x.img"
    elif c["image"] == "damaged-name":
        sources.put(ip, data)
        image = ip + "/"
    elif c["image"] == "fifoless":
        os.symlink("/nonexistent/loop", ip)
    elif c["image"] in ("stdin", "stdin-closed"):
        image = "-"
        sources.put(ip, data)
        if c["image"] == "stdin":
            stdin = open(ip, "rb")
    else:
        sources.put(ip, data)
        if c["image"] == "unreadable":
            os.chmod(ip, 0)

    args = []
    bmap_opts = []
    auto = os.path.join(d, "x.img.bmap" if c["image"] != "emptyname" and c["image"] != "stdin" else "y.bmap")
    expl = os.path.join(d, "explicit.bmap")
    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(bmapref.VERSIONS) if c["bmap"] not in ("corrupted",) else "2.0")
    bp = None
    b = c["bmap"]
    if b == "auto" or b == "none-auto" or b == "contradict2":
        sources.put(auto, doc)
        bp = auto
    if b in ("none", "none-auto"):
        bmap_opts = [["--nobmap"]]
    elif b in ("contradict", "contradict2"):
        sources.put(expl, doc)
        bp = expl
        bmap_opts = [["--nobmap"], ["--bmap", expl]]
    elif b == "missing":
        bmap_opts = [["--bmap", expl]]
    elif b == "emptyname":
        if rng.random() < 0.5:
            sources.put(auto, doc)
        bmap_opts = [["--bmap", ""]]
    elif b == "dir":
        os.mkdir(expl)
        bmap_opts = [["--bmap", expl]]
    elif b == "isimage":
        bmap_opts = [["--bmap", image]]
    elif b not in ("auto", "absent"):
        nb = w.nblocks
        if b == "garbage":
            doc = rng.choice([b"garbage", rng.randbytes(300), b"\n", b"<bmap", b"\x00" * 100])
        elif b == "truncated":
            doc = doc[:rng.randrange(len(doc) - 8)]
        elif b == "newversion":
            doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", over={"version": rng.choice(["3.0", "3.1", "10.0", "99.9"])})
        elif b == "noversion":
            doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", over={"version": rng.choice(["", "x", "2", "-1.0", "two.zero"])})
        elif b == "othersize":
            doc = bmapref.make(images.Img(w.size + rng.choice([1, w.bs, 10 ** 6, -1]), w.img.segs if False else []), w.bs, [(0, 0)], rng.choice(("1.0", "1.2")))
        elif b == "emptyfile":
            doc = b""
        elif b == "badheader":
            doc = bmapref.make(w.img, w.bs, w.ranges, "1.2", over={rng.choice(["ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount"]):
                                                                  rng.choice([None, "", "x", "-5", "0x10", "1e3"])})
        elif b == "corrupted":
            i = doc.index(b"<BlockMap>") + rng.randrange(10)
            doc = doc.replace(b"BlocksCount> ", b"BlocksCount>  ", 1) if rng.random() < 0.5 else doc.replace(b'chksum="', b' chksum="', 1)
        if rng.random() < 0.5 and c["image"] not in ("stdin", "stdin-closed", "emptyname") and b not in ("explicit", "unreadable"):
            sources.put(auto, doc)
            bp = auto
        else:
            sources.put(expl, doc)
            bp = expl
            bmap_opts = [["--bmap", expl]]
            if b == "unreadable":
                os.chmod(expl, 0)
    if b == "auto" and bp and c["image"] == "gz" and rng.random() < 0.5:
        os.rename(auto, os.path.join(d, "x.img.gz.bmap"))
        bp = os.path.join(d, "x.img.gz.bmap")

    sig = c["sig"]
    sp = os.path.join(d, "s.sig")
    if sig in ("noverify", "noverify-garbage"):
        bmap_opts.append(["--no-sig-verify"])
    if sig == "noverify-garbage" or sig == "auto-garbage":
        if bp:
            sources.put(bp + rng.choice([".asc", ".sig"]), b"not a signature")
        elif "bmap" not in bad:
            raise AssertionError(c)
    if sig == "missing":
        bmap_opts.append(["--bmap-sig", sp])
    elif sig == "emptyname":
        bmap_opts.append(["--bmap-sig", ""])
    elif sig == "dir":
        os.mkdir(sp)
        bmap_opts.append(["--bmap-sig", sp])
    elif sig in ("garbage", "nobmap"):
        sources.put(sp, b"not a signature")
        bmap_opts.append(["--bmap-sig", sp])
    elif sig == "contradict":
        sources.put(sp, b"not a signature")
        bmap_opts += [["--bmap-sig", sp], ["--no-sig-verify"]]

    conf = []
    dp = dest = env.path("out")
    old = rng.randbytes(w.size + rng.choice([0, 5000, -1 if w.size > 1 else 0]))
    k = c["dest"]
    watch = dp
    if k in ("existing", "new"):
        if k == "existing":
            sources.put(dp, old)
    elif k == "link":
        sources.put(dp, old)
        dest = env.path("ln")
        os.symlink(dp, dest)
    elif k.startswith("bdev"):
        if k == "bdev-small":
            old = rng.randbytes(rng.randint(0, w.size - 1))
        else:
            old = rng.randbytes(w.size + rng.choice([0, 4096, 3333]))
        sources.put(dp, old)
        conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9) + (("busy",) if k == "bdev-busy" else ())]
    elif k == "noparent":
        dest = env.path("no/such/dir")
    elif k == "parentfile":
        sources.put(dp, old)
        dest = dp + "/file"
    elif k == "dir":
        os.mkdir(dp)
        sources.put(dp + "/x", b"x")
    elif k == "emptyname":
        dest = ""
    elif k == "longname":
        dest = env.path("n" * 300)
    elif k == "unwritable":
        sources.put(dp, old)
        os.chmod(dp, 0o444)
    elif k == "image":
        dest = watch = ip
    elif k == "bmap":
        dest = watch = bp or expl
    if user and k not in ("unwritable",) and os.path.isfile(dp):
        os.chmod(dp, 0o666)

    x = c["extra"]
    if x == "noverify":
        bmap_opts.append(["--no-verify"])
    elif x == "psplash-none":
        bmap_opts.append(["--psplash-pipe", env.path("nopipe")])
    elif x == "psplash-file":
        sources.put(env.path("plainfile"), b"")
        bmap_opts.append(["--psplash-pipe", env.path("plainfile")])
    rng.shuffle(bmap_opts)
    opts = []
    for o in bmap_opts:
        opts += ["%s=%s" % tuple(o)] if len(o) == 2 and rng.random() < 0.4 else o
    pos = [image, dest]
    if x == "surplus":
        pos.append("third")
    elif x == "missing-dest":
        pos = [image]
    elif x == "missing-both":
        pos = []
    if x == "unknown":
        opts += [rng.choice(["--frobnicate", "--force", "--no-such-option=3"])]
    elif x == "unknown-short":
        opts += [rng.choice(["-z", "-f", "-o", "-b"])]
    elif x == "misplaced":
        opts += [rng.choice(["-q", "--quiet", "-d", "--debug", "--no-checksum"])]
    fl = c["flags"]
    head = {"": [], "-q": ["-q"], "--quiet": ["--quiet"], "-d": ["-d"], "--debug": ["--debug"], "-q-late": ["-q"], "-q-d": rng.choice([["-q", "-d"], ["-qd"]]),
            "-d-q": ["-d", "--quiet"]}[fl]
    if x == "version-arg":
        head = head + ["--version=3"]
    if x == "noarg":
        args = head + ["copy"] + opts + pos + ["--bmap"]
    elif x == "noarg2":
        args = head + ["copy"] + opts + pos + [rng.choice(["--bmap-sig", "--psplash-pipe"])]
    else:
        order = rng.randint(0, 2)
        args = head + ["copy"] + (opts + pos if order == 0 else pos + opts if order == 1 else pos[:1] + opts + pos[1:])
    before = state_of(watch)
    isnew = k == "new"
    what = "%s (%s)" % (" ".join(a.replace(env.shm, "") for a in args), ", ".join("%s=%s" % (a, v) for a, v in sorted(c.items()) if a in bad) or "nothing wrong: %s" % c)
    prog = None
    if c["image"] == "stdin-closed":
        prog = ["sh", "-c", 'exec "$@" <&-', "sh", core.PYTHON, "-P", "-m", "bmaptools"]
    # on a terminal there would be a progress indicator
    tty = not bad and bool(head) and "q" in head[0] and rng.random() < 0.6
    q = cli.run(args, dir=env.shm, cwd=d, conf=conf, stdin=stdin, user=user, prog=prog, tty=tty)
    if tty:
        r.count("terminals")
    if stdin:
        stdin.close()
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    r.key = what + str(case["seed"])
    r.sample = {"args": args[:8], "bad": sorted(bad.items()), "status": q.rc}
    r.state("copy", *sorted(bad.items()), *( () if bad else (c["image"], c["bmap"], k, fl)))
    r.check(tty or not q.out, "stdout", "%s: standard output has %r" % (what, q.out[:200]))
    if bad:
        if r.check(q.rc not in (0, None) and q.rc > 0, "accepted", "%s: %s" % (what, q.brief())):
            r.count("rejected")
        after = state_of(watch)
        r.check(after == before or (isnew and before is None), "destination-changed", "%s: destination was %s and is now %s; %s" % (what, before, after, q.brief()))
        r.check(bool(q.err.strip()), "silent-failure", "%s: status %s without a message" % (what, q.rc))
        return r
    # nothing wrong
    if not r.check(q.rc == 0, "refused", "%s: %s" % (what, q.brief())):
        return r
    r.count("accepted")
    got = images.read_file(dp)
    nob = c["bmap"] in ("none", "none-auto")
    if k == "bdev":
        want = (data + old[len(data):]) if nob else gens.expected(w, old[:w.size]) + old[w.size:]
    else:
        want = data if nob else gens.expected(w, b"")
    r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    if k in ("existing", "link"):
        r.check(state_of(dp)[3] == before[3], "replaced", "%s: the destination file was replaced by another one" % what)
    t = q.text()
    if head and "q" in head[0]:
        r.count("quiet")
        bad_l = [l for l in lines(t) if "WARNING" not in l]
        warn = x.startswith("psplash") or k == "bdev"
        r.check(not bad_l, "quiet-noise", "%s: printed %r" % (what, bad_l[:3]))
        # /dev/shm is under /dev
        extra = [l for l in lines(t) if not ("under" in l or "does not exist" in l) or "/dev" not in l]
        if not warn:
            r.check(not extra, "quiet-warning", "%s: printed %r" % (what, extra[:3]))
    r.check("Traceback" not in t, "traceback", "%s: %s" % (what, q.brief()))
    r.check("\033[91m" not in t, "error-message", "%s: error on success: %s" % (what, q.brief()))
    return r


def run_create(case, env, r, rng):
    bad = set(case["bad"])
    if bad and rng.random() < 0.3:
        bad.add(rng.choice(CBAD))
    user = 65534 if bad & {"unreadable", "o-unwritable"} else None
    env.dir = env.shm if user or rng.random() < 0.5 else env.disk
    kind = rng.choice(["holes", "holes", "holes", "full"])
    if kind == "full":
        img = images.Img(4096 * rng.randint(1, 30), [])
        img.segs = [(0, rng.randbytes(img.size))]
    else:
        nb = rng.randint(2, 60)
        size = nb * 4096 - rng.choice([0, 1, 100, 4095])
        bl = sorted(rng.sample(range(nb), rng.randint(0, nb - 1)))
        img = images.Img(size, [(f * 4096, rng.randbytes(min(size, (l + 1) * 4096) - f * 4096)) for f, l in images.ranges_of(bl)])
    d = env.path("w")
    os.mkdir(d)
    os.chmod(d, 0o755)
    ip = os.path.join(d, "image")
    image = ip
    if "missing" in bad:
        pass
    elif "dir" in bad:
        os.mkdir(ip)
    elif "zero" in bad:
        sources.put(ip, b"")
    else:
        img.write(ip)
        if env.dir == env.disk:
            fd = os.open(ip, os.O_RDONLY)
            os.fsync(fd)
            os.close(fd)
    if "emptyname" in bad:
        image = ""
    if "unreadable" in bad:
        if os.path.exists(ip):
            os.chmod(ip, 0)
    old = b"<!-- precious -->" * rng.randint(1, 2000)
    watch = op = None
    obad = sorted(b for b in bad if b.startswith("o-"))
    if not obad:
        k = rng.choice(["stdout", "existing", "existing", "new"]) if bad else rng.choice(["stdout", "stdout", "stdout", "existing", "new"])
        if k != "stdout":
            watch = op = env.path("out.bmap")
            if k == "existing":
                sources.put(op, old)
    else:
        k = rng.choice(obad)
        bad = {b for b in bad if not b.startswith("o-") or b == k}
        op = watch = env.path("out.bmap")
        if k == "o-dir":
            os.mkdir(op)
        elif k == "o-noparent":
            op = env.path("no/such/file")
        elif k == "o-emptyname":
            op = ""
        elif k == "o-image":
            op = watch = ip
        elif k == "o-link":
            if os.path.isfile(ip):
                (os.link if rng.random() < 0.5 else os.symlink)(ip, op)
            else:
                op = watch = ip
        elif k == "o-full":
            op, watch = "/dev/full", None
        elif k == "o-unwritable":
            sources.put(op, old)
            os.chmod(op, 0o444)
    if user and watch and os.path.isfile(watch) and k in ("existing",):
        os.chmod(watch, 0o666)
    if "o-link" in bad and not os.path.isfile(ip):
        # nothing to alias
        bad.discard("o-link")
        if not bad:
            raise AssertionError(case)
    nocs = rng.random() < 0.3
    opts = [["-o", op]] if op is not None and rng.random() < 0.5 else [["--output", op]] if op is not None else []
    if nocs:
        opts.append(["--no-checksum"])
    if "unknown" in bad:
        opts.append([rng.choice(["--frob", "--bmap=x", "-z", "--nobmap"])])
    rng.shuffle(opts)
    opts = sum(opts, [])
    pos = [image] + (["second"] if "surplus" in bad else [])
    fl = rng.choice([[], [], ["-q"], ["--quiet"], ["-d"], ["--debug"]])
    if "-q-d" in bad:
        fl = rng.choice([["-q", "-d"], ["--debug", "-q"]])
    args = fl + ["create"] + (opts + pos if rng.random() < 0.5 else pos + opts)
    before = state_of(watch) if watch else None
    bimage = state_of(ip)
    what = "%s (%s)" % (" ".join(a.replace(env.dir, "") for a in args), ", ".join(sorted(bad)) or "nothing wrong")
    q = cli.run(args, dir=env.shm, cwd=d, user=user)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    r.key = what + str(case["seed"])
    r.sample = {"args": args[:8], "bad": sorted(bad), "status": q.rc}
    r.state("create", k, *sorted(bad))
    if "unreadable" not in bad and bimage is not None:
        r.check(state_of(ip) == bimage, "image-changed", what)
    if bad:
        if r.check(q.rc not in (0, None) and q.rc > 0, "accepted", "%s: %s" % (what, q.brief())):
            r.count("create_rejected")
        r.check(not q.out, "stdout", "%s: standard output has %r" % (what, q.out[:200]))
        if watch and before:
            after = state_of(watch)
            r.check(after == before, "output-changed", "%s: the output file was %s and is now %s; %s" % (what, before, after, q.brief()))
        r.check(bool(q.err.strip()), "silent-failure", "%s: status %s without a message" % (what, q.rc))
        return r
    if not r.check(q.rc == 0, "refused", "%s: %s" % (what, q.brief())):
        return r
    r.count("create_accepted")
    doc = q.out
    if op is not None:
        r.check(not q.out, "stdout", "%s: standard output has %r" % (what, q.out[:200]))
        doc = images.read_file(op)
    for p in bmapref.check_generated(doc, img, with_checksums=not nocs):
        r.bad("bmap", "%s: %s: %s" % (what, p, doc[-200:]))
    t = q.text()
    if fl and "q" in fl[0]:
        r.count("quiet")
        ls = lines(t)
        r.check(not [l for l in ls if "WARNING" not in l], "quiet-noise", "%s: printed %r" % (what, ls[:3]))
        b = bmapref.check_generated.last
        if b and b.mapped_cnt < b.blocks_cnt:
            r.check(not ls, "quiet-warning", "%s: printed %r" % (what, ls[:3]))
    r.check("\033[91m" not in t and "Traceback" not in t, "error-message", "%s: error on success: %s" % (what, q.brief()))
    return r


def run_usage(case, env, r, rng):
    args, rc = USAGE[case["j"]]
    q = cli.run(args, dir=env.shm, cwd=env.shm)
    what = "bmaptool %s" % " ".join(args)
    if rc:
        r.check(q.rc not in (0, None) and q.rc > 0, "usage-accepted", "%s: %s" % (what, q.brief()))
        r.check(not q.out, "usage-stdout", "%s: %r" % (what, q.out[:100]))
        r.check(bool(q.err.strip()), "usage-silent", "%s: status %s without a message" % (what, q.rc))
    else:
        r.check(q.rc == 0, "usage-refused", "%s: %s" % (what, q.brief()))
        r.check(bool(q.out.strip()), "usage-silent", "%s: nothing printed" % what)
    r.count("usage")
    r.key = "%s|%d" % (what, case["seed"])
    r.state("usage", what)
    r.sample = {"usage": what, "status": q.rc}
    return r


def run_streams(case, env, r, rng):
    """Closed, full or broken standard streams."""
    st = case["st"]
    img = images.Img(4096 * 40, [(4096 * i, rng.randbytes(4096)) for i in (0, 3, 7, 8, 39)])
    big = images.Img(4096 * 8000, [(8192 * i, b"x" * 4096) for i in range(2000)])
    ip, dp = env.path("img"), env.path("out")
    red = {"in": "<&-", "out": ">&-", "err": "2>&-", "all": "<&- >&- 2>&-", "outfull": ">/dev/full", "full": ">/dev/full", "out-tty": ">&-"}
    cmd, _, how = st.partition("-")
    what = "%s with %s" % (cmd, how)
    tty = how == "out-tty"
    py = [core.PYTHON, "-P", "-m", "bmaptools"]
    prog = ["sh", "-c", 'exec "$@" %s' % red[how], "sh"] + py if how in red else None
    r.count("streams")
    r.state("streams", st)
    flags = rng.choice([[], ["-q"], ["-d"]])
    r.key = "%s|%d" % (what, case["seed"])
    r.sample = {"streams": st}
    if cmd == "copy":
        img.write(ip)
        data = img.bytes()
        sources.put(env.path("img.bmap"), bmapref.make(img, 4096, [(0, 0), (3, 3), (7, 8), (39, 39)]))
        sources.put(dp, b"old" * 1000)
        comp = rng.random() < 0.4
        src = ip
        if comp:
            import gzip
            src = env.path("img.gz")
            sources.put(src, gzip.compress(data))
        q = cli.run(flags + ["copy", src, dp], dir=env.shm, prog=prog, tty=tty)
        got = images.read_file(dp)
        if r.check(q.rc == 0, "streams-failed", "%s (%s): %s" % (what, flags, q.brief())):
            r.check(got == data, "streams-contents", "%s: %s" % (what, images.describe_diff(got, data)))
        r.check(images.read_file(ip) == data, "image-changed", what)
        return r
    use = big if how in ("pipe", "full") and rng.random() < 0.6 else img
    use.write(ip)
    if how == "pipe":
        rd, wr = os.pipe()
        os.close(rd)
        with os.fdopen(wr, "wb") as f:
            q = cli.run(flags + ["create", ip], dir=env.shm, stdout=f)
        r.check(q.rc not in (0, None), "lost-output", "%s: %s" % (what, q.brief()))
        return r
    if how == "tofile":
        op = env.path("o")
        with open(op, "wb") as f:
            q = cli.run(flags + ["create", ip], dir=env.shm, stdout=f)
        if r.check(q.rc == 0, "streams-failed", "%s: %s" % (what, q.brief())):
            for p in bmapref.check_generated(images.read_file(op), use):
                r.bad("bmap", "%s: %s" % (what, p))
        return r
    q = cli.run(flags + ["create", ip], dir=env.shm, prog=prog)
    if how in ("out", "full"):
        r.check(q.rc not in (0, None), "lost-output", "%s: %s" % (what, q.brief()))
    else:
        if r.check(q.rc == 0, "streams-failed", "%s: %s" % (what, q.brief())):
            for p in bmapref.check_generated(q.out, use):
                r.bad("bmap", "%s: %s" % (what, p))
    return r


def run_memory(case, env, r, rng):
    """Running out of memory: whatever gets printed, standard output is clean."""
    img = images.Img(4096 * 3000, [(4096 * 10 * i, rng.randbytes(4096 * rng.randint(1, 9))) for i in range(300)])
    ip, dp = env.path("img"), env.path("out")
    img.write(ip)
    cmd = rng.choice(["create", "copy"])
    conf = [("memfail", rng.choice([40000, 100000, 500000, 1000000]), rng.randint(1, 6), 100000)]
    args = ["create", ip] if cmd == "create" else ["copy", "--nobmap", ip, dp]
    q = cli.run(rng.choice([[], ["-q"]]) + args, dir=env.shm, conf=conf)
    what = "%s with %s" % (cmd, conf[0])
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    r.nontrivial = b"emory" in q.err
    if r.nontrivial:
        r.count("memory")
    if cmd == "copy":
        r.check(not q.out, "stdout", "%s: standard output has %r" % (what, q.out[:100]))
        if q.rc == 0:
            r.check(images.read_file(dp) == img.bytes(), "wrong-contents", what)
    elif q.rc == 0:
        for p in bmapref.check_generated(q.out, img):
            r.bad("bmap", "%s: %s" % (what, p))
    else:
        # at most (a part of) the bmap
        r.check(q.out == b"" or q.out.startswith(b"<?xml"), "stdout", "%s: standard output has %r" % (what, q.out[:100]))
    r.key = "%s|%d" % (what, case["seed"])
    r.state("memory", cmd, q.rc, r.nontrivial)
    r.sample = {"memory": what, "status": q.rc}
    return r
