"""C24: the standalone writer agrees with the tool."""
import errno
import os
import random
from vmon import api, bmapref, cli, core, gens, images, sources
from vmon.core import Result

PROP = "C24"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential runs of contrib/bmap_write.py and the tool on the same image and bmap, with injected I/O errors and unusable inputs"
NOTE = ("The script and the tool copy the same image with the same bmap (every format version, layout, block size; sparse images with bmaps made by the "
        "tool's own create command; previous longer or shorter destinations; peculiar file names); both destinations must equal the expected "
        "contents computed independently. Missing, malformed or incomplete inputs and injected errors must give a non-zero status. Sampled.")
RULE = "Sampled works x versions x styles x names x previous contents; fault positions. Non-trivial: the script ran. Distinct by image, ranges and cell."
BATCH = 6
REQUIRE = {"agree": 240, "unusable": 100, "faults": 50, "created": 30}

NAMES = ("img.raw", "image", "some.image.img", "dir.d/image", "dir.d/im.raw", "x.bin", "na me.raw", "-img.raw", ".img.raw", "..raw", "a.tar", "\u00fcber.img", "UPPER.IMG", "a.bmap.raw", "very.long." + "n" * 180 + ".x")
SCRIPT = os.path.join(core.REPO, "contrib", "bmap_write.py")


def cases(ctx):
    out = []
    for i in range(ctx.pick(420, 6000)):
        out.append({"t": "agree"})
    for i in range(ctx.pick(60, 900)):
        out.append({"t": "created"})
    for i in range(ctx.pick(10, 100)):
        for u in UNUSABLE:
            out.append({"t": "unusable", "u": u})
    for i in range(ctx.pick(12, 150)):
        for op, k in (("write", 1), ("write", 2), ("fsync", 1), ("trunc", 1), ("open", 1), ("read", 1), ("seek", 1)):
            out.append({"t": "fault", "op": op, "k": k})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


UNUSABLE = ("noimage", "imagedir", "nobmap", "bmapdir", "empty", "garbage", "truncated", "noblocksize", "badblocksize", "noblockmap", "badrange", "nooutdir",
            "outdir", "noargs", "oneargs", "threeargs")


def script(env, args, conf=None, **kw):
    return cli.run(args, dir=env.shm, conf=conf, prog=[core.PYTHON, "-P", SCRIPT], **kw)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    name = rng.choice(NAMES) if rng.random() < 0.6 else "img.raw"
    if "/" in name:
        os.mkdir(env.path(os.path.dirname(name)))
    ip = env.path(name)
    bp = os.path.splitext(ip)[0] + ".bmap"
    dp = env.path("out.dest")
    dp2 = env.path("tool.dest")
    if case["t"] == "created":
        # a sparse image and the bmap made for it by the tool
        env.dir = env.disk if rng.random() < 0.5 else env.shm
        if "/" in name:
            os.makedirs(env.path(os.path.dirname(name)), exist_ok=True)
        ip = env.path(name)
        bp = os.path.splitext(ip)[0] + ".bmap"
        img = images.gen(rng, maxsize=3 << 20)
        if img.size == 0:
            img = images.Img(777, [(0, b"x" * 777)])
        img.write(ip)
        q = cli.run(["create", "-o", bp] + rng.choice([[], ["--no-checksum"]]) + ["--", ip], dir=env.shm)
        if q.rc:
            r.bad("create", q.brief())
            return r
        want = img.read(0, img.size)
        what = "sparse image of %d bytes with its own bmap" % img.size
        r.count("created")
        w = None
    else:
        w = gens.work(rng, maxbytes=rng.choice([40000, 400000, 4 << 20]), odd=0.25, nonempty=case["t"] == "fault")
        version = rng.choice(bmapref.VERSIONS)
        style = rng.choice(["official", "compact", "airy"])
        sources.put(ip, w.data)
        doc = bmapref.make(w.img, w.bs, w.ranges, version, style=style, rng=rng if rng.random() < 0.5 else None)
        sources.put(bp, doc)
        want = gens.expected(w, b"")
        what = "%s, %d bytes in blocks of %d, %d ranges (%s), bmap %s %s" % (name[:30], w.size, w.bs, len(w.ranges), w.kind, version, style)
    old = rng.choice([None, None, 0, len(want), len(want) + 5000, max(0, len(want) - 1)])
    for d in (dp, dp2):
        if old is not None:
            sources.put(d, b"\x77" * old)
    r.key = "%s|%s|%s|%s" % (what, old, images.sha(want), case.get("u") or case.get("op"))
    if case["t"] == "unusable":
        return unusable(case, env, r, rng, ip, bp, dp, w)
    conf = []
    if case["t"] == "fault":
        role = "image" if case["op"] in ("read",) or (case["op"] in ("open", "seek") and rng.random() < 0.4) else "dest"
        if case["op"] == "open" and role == "image":
            role = rng.choice(["image", "bmap"])
        opn = "openr" if case["op"] == "open" and role != "dest" else "openw" if case["op"] == "open" else case["op"]
        conf = [("track", "image", ip), ("track", "dest", dp), ("track", "bmap", bp),
                ("fault", role, opn, case["k"], 1000, *rng.choice([("err", errno.EIO), ("err", errno.ENOSPC)] if opn != "write" else
                                                                  [("err", errno.EIO), ("err", errno.ENOSPC), ("short", 7)]))]
        what += ", fault %s" % (conf[-1],)
    q = script(env, [ip, dp], conf)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    fired = any(e.op == "fault" for e in q.events)
    got = images.read_file(dp) if os.path.exists(dp) else None
    if case["t"] == "fault":
        if fired:
            r.count("faults")
        else:
            r.nontrivial = False
        if q.rc == 0:
            r.check(got == want, "fault-ignored" if fired else "wrong-contents",
                    "%s: exit status 0, but %s" % (what, images.describe_diff(got, want) if got is not None else "no destination"))
        else:
            r.check(fired, "failed", "%s: %s" % (what, q.brief()))
        r.state("fault", role, opn, case["k"], q.rc)
        r.sample = {"case": what, "status": q.rc}
        return r
    if r.check(q.rc == 0, "failed", "%s: %s" % (what, q.brief())):
        if r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want))):
            r.count("agree")
    if rng.random() < 0.5 or case["t"] == "created":
        if old is not None and os.path.exists(dp2):
            os.unlink(dp2)
        t = cli.run(["copy", "--bmap", bp, "--", ip, dp2], dir=env.shm)
        if r.check(t.rc == 0, "tool-failed", "%s: %s" % (what, t.brief())):
            r.check(images.read_file(dp2) == want, "tool-differs", "%s: %s" % (what, images.describe_diff(images.read_file(dp2), want)))
    r.check(images.sha(images.read_file(ip)) == images.sha(w.data if w else want), "input-changed", what)
    r.state(case["t"], name[:12], w and (version, style, w.kind), old is None)
    r.sample = {"case": what, "status": q.rc}
    return r


def unusable(case, env, r, rng, ip, bp, dp, w):
    u = case["u"]
    args = [ip, dp]
    doc = images.read_file(bp)
    if u == "noimage":
        os.unlink(ip)
    elif u == "imagedir":
        os.unlink(ip)
        os.mkdir(ip)
    elif u == "nobmap":
        os.unlink(bp)
    elif u == "bmapdir":
        os.unlink(bp)
        os.mkdir(bp)
    elif u == "empty":
        sources.put(bp, b"")
    elif u == "garbage":
        sources.put(bp, rng.randbytes(500))
    elif u == "truncated":
        sources.put(bp, doc[:rng.randrange(len(doc) - 8)])
    elif u == "noblocksize":
        sources.put(bp, doc.replace(b"BlockSize>", b"BlockSyze>"))
    elif u == "badblocksize":
        sources.put(bp, doc.replace(b"<BlockSize>", b"<BlockSize>0x"))
    elif u == "noblockmap":
        sources.put(bp, doc.replace(b"BlockMap>", b"BlackMap>"))
    elif u == "badrange":
        sources.put(bp, doc.replace(b"</BlockMap>", rng.choice([b"<Range>x</Range>", b"<Range>1-2-3</Range>", b"<Range/>", b"<Range>5-</Range>", b"<Range>1.5</Range>"]) + b"</BlockMap>"))
    elif u == "nooutdir":
        args[1] = env.path("no/such/out")
    elif u == "outdir":
        os.mkdir(env.path("adir"))
        args[1] = env.path("adir")
    elif u == "noargs":
        args = []
    elif u == "oneargs":
        args = [ip]
    elif u == "threeargs":
        args = [ip, dp, "x"]
    q = script(env, args)
    what = "unusable input (%s)" % u
    r.count("unusable")
    r.check(q.rc not in (0, None), "unusable-accepted", "%s: %s" % (what, q.brief()))
    r.state("unusable", u, q.rc)
    r.sample = {"case": what, "status": q.rc}
    return r
