"""C27: the work depends on the mapped data, not on the size of the image."""
import os
import random
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C27"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: system-call traces of reads, writes and hole queries, space and memory accounting on sparse images up to several TiB"
NOTE = ("The real command line, API and standalone script process sparse images of 512 MiB to several TiB which hold a few MiB of data. The "
        "interposer records every read of the image, every write of the destination and every query about holes; an offline accountant "
        "compares them with the mapped blocks, along with the disk space the destination occupies and the peak memory of creation. Samples "
        "sizes, layouts, block sizes; tmpfs and disk. The allowances (1 MiB of read-ahead per range) are far below the size of the holes.")
RULE = "Sampled sparse images x route. Non-trivial: the image has at least ten times more holes than data. Distinct by layout and route."
BATCH = 4
CPU = 240
REQUIRE = {"copies": 110, "creations": 80, "sparse_destinations": 110, "read_once": 40, "huge": 90, "memory": 12}
MIB = 1 << 20
ROUTES = ("copy-cli", "copy-cli", "copy-api", "copy-bdev", "copy-script", "create-cli", "create-api", "create-nosum", "create-copy")


def cases(ctx):
    out = []
    for i in range(ctx.pick(40, 500)):
        for t in ROUTES:
            out.append({"seed": ctx.sub("r", i, t), "t": t})
    for i in range(ctx.pick(80, 800)):
        out.append({"seed": ctx.sub("d", i), "t": "dense"})
    for i in range(ctx.pick(18, 90)):
        out.append({"seed": ctx.sub("m", i), "t": "mem", "k": MEM[i % len(MEM)]})
    ctx.rng("order").shuffle(out)
    return out


def sparse(rng, big):
    """A sparse image with far more holes than data."""
    size = rng.choice([512, 600, 777, 1024, 2048]) * MIB
    if big:
        size = rng.choice([1 << 33, 1 << 36, (1 << 40) + 5, 3 << 40, (1 << 42) - 4096 * 7, 5 << 40])
    size += rng.choice([0, 0, 1, 511, 4096, 65537])
    n = rng.choice([1, 2, 3, rng.randint(1, 10), rng.randint(1, 20)])
    total = rng.choice([1, 2, 4]) * MIB
    segs, at = [], set()
    for i in range(n):
        k = max(1, rng.choice([4096, 8192, 100, rng.randint(1, 70000), rng.randint(1, 2 * total // n)]))
        k = min(k, 2 * total // n)
        # one slot for each of them
        lo, hi = size // n * i, size // n * (i + 1)
        if rng.random() < 0.3:
            o = lo if i == 0 or rng.random() < 0.5 else hi - k
        else:
            o = rng.randint(lo, hi - k)
        if rng.random() < 0.6:
            o -= o % 4096
        # the segments must not overlap
        if not segs or segs[-1][0] + len(segs[-1][1]) <= o:
            segs.append((o, rng.randbytes(k)))
    if rng.random() < 0.4:
        # it is in the last slot, or there is nothing after it
        o, d = segs[-1]
        segs[-1] = (size - len(d), d)
    img = images.Img(size, segs)
    img.kind = "sparse"
    return img


def mapped(img, bs):
    return images.ranges_of(img.touched(bs))


def bytes_of(ranges, bs, size):
    return sum(min((l + 1) * bs, size) - f * bs for f, l in ranges)


def read_bytes(ev):
    return sum(e.ret for e in ev if e.op == "read" and e.role == "image" and e.ret > 0)


def account_copy(r, what, ev, nbytes, nranges):
    got = read_bytes(ev)
    wr = sum(e.ret for e in gens.writes(ev))
    n = sum(1 for e in ev if e.op in ("read", "write"))
    r.check(got <= 2 * nbytes + nranges * MIB + 4 * MIB, "reads-holes", "%s: %d bytes of the image were read, but only %d are mapped" % (what, got, nbytes))
    r.check(wr <= nbytes * 1.5 + MIB, "writes-too-much", "%s: %d bytes were written, but only %d are mapped" % (what, wr, nbytes))
    r.check(n <= 64 + nbytes // 512 + 256 * nranges, "too-many-transfers", "%s: %d transfers for %d bytes" % (what, n, nbytes)) if nbytes > 512 else None
    if ev:
        r.count("traced")


def occupied(r, what, dp, ranges, bs):
    """Disk space of the destination."""
    pages = set()
    for f, l in ranges:
        pages.update(range(f * bs // 4096, ((l + 1) * bs + 4095) // 4096))
    used = os.stat(dp).st_blocks * 512
    r.check(used <= len(pages) * 4096 + len(ranges) * 8192 + MIB, "not-sparse", "%s: the destination occupies %d bytes, but only %d are mapped" % (
        what, used, len(pages) * 4096))
    r.count("sparse_destinations")


def account_create(r, what, ev, img, ranges, bs, sums):
    nbytes = bytes_of(ranges, bs, img.size)
    got = read_bytes(ev)
    most = (nbytes * 1.5 + len(ranges) * MIB + 4 * MIB) if sums else 2 * MIB
    r.check(got <= most, "reads-holes", "%s: %d bytes of the image were read, but only %d are mapped%s" % (what, got, nbytes, "" if sums else " and no checksums needed"))
    q = sum(1 for e in ev if e.op in ("ioctl", "seekdata", "seekhole") and e.role == "image")
    r.check(q <= 20000 + 16 * len(ranges), "too-many-queries", "%s: %d queries about holes for %d ranges" % (what, q, len(ranges)))
    r.count("queries", q)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    t = case["t"]
    env.dir = env.disk if rng.random() < 0.4 else env.shm
    if t == "dense":
        return run_dense(case, env, r, rng)
    if t == "mem":
        return run_mem(case, env, r, rng)
    big = rng.random() < 0.5
    img = sparse(rng, big)
    ip = img.write(env.path(rng.choice(["image", "image.raw", "im.wic"])))
    what = "%s, image of %d bytes with %d segments, %d bytes of data, %s" % (
        t, img.size, len(img.segs), sum(len(d) for o, d in img.segs), "disk" if env.dir != env.shm else "tmpfs")
    conf = [("track", "image", ip)]
    if big:
        r.count("huge")
    if t.startswith("copy"):
        copy(env, r, rng, t, img, ip, conf, what)
    else:
        create(env, r, rng, t, img, ip, conf, what)
    r.key = what + str(sorted(o for o, d in img.segs)[:5])
    r.state(t, big, env.dir == env.shm, len(img.segs), len(str(img.size)))
    r.sample = {"case": what}
    return r


def copy(env, r, rng, t, img, ip, conf, what):
    bs = rng.choice([512, 4096, 4096, 4096, 16384, 65536]) if img.size < 1 << 34 else rng.choice([4096, 4096, 65536])
    ranges = mapped(img, bs)
    nbytes = bytes_of(ranges, bs, img.size)
    doc = bmapref.make(img, bs, ranges, rng.choice(["2.0", "2.0", "1.3", "1.2"]), rng=rng)
    bp = sources.put(os.path.splitext(ip)[0] + ".bmap" if t == "copy-script" else env.path("the.map"), doc.encode() if isinstance(doc, str) else doc)
    dp = env.path("dest")
    old = None
    if t in ("copy-cli", "copy-script") and rng.random() < 0.4:
        # the old contents occupy much more
        old = rng.choice([3, 9, 12]) * MIB
        sources.put(dp, b"x" * old)
    if t == "copy-bdev":
        with open(dp, "wb") as f:
            f.truncate(img.size + rng.choice([0, 4096]))
    what += ", blocks of %d%s" % (bs, ", old contents" if old else "")
    conf.append(("track", "dest", dp))
    if t in ("copy-cli", "copy-script"):
        if t == "copy-cli":
            q = cli.run(["copy"] + (["--no-verify"] if rng.random() < 0.2 else []) + ["--bmap", bp, ip, dp], dir=env.shm, conf=conf)
        else:
            q = cli.run([ip, dp], dir=env.shm, conf=conf, prog=[core.PYTHON, "-W", "ignore", os.path.join(core.REPO, "contrib/bmap_write.py")])
        ev = q.events
        ok = q.rc == 0 and not q.hang
        why = q.brief()
    else:
        if t == "copy-bdev":
            conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
        with Monitor(env, conf) as m:
            o = api.copy(ip, dp, bp, bdev=t == "copy-bdev", use_trans=rng.random() < 0.5)
        ev = m.events
        ok, why = o.ok, o.brief()
    if not r.check(ok, "failed", "%s: %s" % (what, why)):
        return
    if t == "copy-bdev":
        # the device may be larger than the image
        os.truncate(dp, img.size)
    d = images.sparse_equal(dp, img)
    r.check(d is None, "wrong-contents", "%s: %s" % (what, d))
    account_copy(r, what, ev, nbytes, len(ranges))
    occupied(r, what, dp, ranges, bs)
    r.count("copies")


def create(env, r, rng, t, img, ip, conf, what):
    out = env.path("out.bmap")
    sums = t != "create-nosum" and not (t == "create-api" and rng.random() < 0.2)
    if t == "create-api":
        cs = rng.choice(["sha256", "md5", "sha1", "sha512"])
        with Monitor(env, conf) as m:
            with open(ip, "rb") as fi, open(out, "w+") as fo:
                o = api.create(rng.choice([ip, fi]), fo, cs, sums)
                fo.flush()
        ev, ok, why = m.events, o.ok, o.brief()
    else:
        q = cli.run(["create"] + ([] if sums else ["--no-checksum"]) + ["-o", out, ip], dir=env.shm, conf=conf)
        ev, ok, why = q.events, q.rc == 0 and not q.hang, q.brief()
    if not r.check(ok, "failed", "%s: %s" % (what, why)):
        return
    data = images.read_file(out)
    b = bmapref.parse(data)
    bs = b.block_size
    # the file system may allocate a little more than was written
    most = 2 * bytes_of(mapped(img, bs), bs, img.size) + len(img.segs) * 128 * 1024
    if not r.check(b.mapped_cnt * bs <= most and sum(l - f + 1 for f, l in b.ranges) * bs <= most, "holes-mapped", "%s: %d blocks are mapped" % (what, b.mapped_cnt)):
        return
    bad = bmapref.check_generated(data, img, sums)
    r.check(not bad, "wrong-bmap", "%s: %s" % (what, bad[:2]))
    account_create(r, what, ev, img, b.ranges, bs, sums)
    r.count("creations")
    if t == "create-copy":
        dp = env.path("dest")
        q = cli.run(["copy", "--bmap", out, ip, dp], dir=env.shm, conf=conf + [("track", "dest", dp)])
        if not r.check(q.rc == 0 and not q.hang, "failed", "%s, copy: %s" % (what, q.brief())):
            return
        d = images.sparse_equal(dp, img)
        r.check(d is None, "wrong-contents", "%s: %s" % (what, d))
        account_copy(r, what, q.events, bytes_of(b.ranges, bs, img.size), len(b.ranges))
        occupied(r, what, dp, b.ranges, bs)
        r.count("copies")


def run_dense(case, env, r, rng):
    """Many ranges: every mapped block is read and written about once."""
    w = gens.work(rng, maxbytes=rng.choice([1 << 20, 6 << 20, 12 << 20]), odd=0.25, minblocks=2, nonempty=True)
    ip = sources.put(env.path("image"), w.data)
    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.3", "1.1"]), rng=rng)
    bp = sources.put(env.path("b"), doc.encode() if isinstance(doc, str) else doc)
    dp = env.path("dest")
    what = "dense, %d bytes in blocks of %d, %d ranges, %s" % (w.size, w.bs, len(w.ranges), w.kind)
    conf = [("track", "image", ip), ("track", "dest", dp)]
    if rng.random() < 0.5:
        q = cli.run(["copy", "--bmap", bp, ip, dp], dir=env.shm, conf=conf)
        ev, ok, why = q.events, q.rc == 0 and not q.hang, q.brief()
    else:
        with Monitor(env, conf) as m:
            o = api.copy(ip, dp, bp, use_trans=rng.random() < 0.5)
        ev, ok, why = m.events, o.ok, o.brief()
    if r.check(ok, "failed", "%s: %s" % (what, why)):
        nbytes = sum(e - s for s, e in gens.byte_ranges(w))
        n = len(gens.byte_ranges(w))
        got = read_bytes(ev)
        # buffered reading may fetch some more around each range
        r.check(got <= nbytes * 1.25 + len(w.ranges) * 65536 + MIB, "reads-twice", "%s: %d bytes of the image were read, but only %d are mapped" % (what, got, nbytes))
        wr = sum(e.ret for e in gens.writes(ev))
        r.check(wr <= nbytes * 1.25 + 65536, "writes-twice", "%s: %d bytes were written, but only %d are mapped" % (what, wr, nbytes))
        want = gens.expected(w, b"", w.size)
        got = images.read_file(dp)
        r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
        r.count("read_once")
        r.state("dense", w.bs, n > 10)
    r.key = what + images.sha(w.data)
    r.sample = {"case": what}
    return r


# starts the program and prints its peak memory in KiB
PEAK = ("import resource, subprocess, sys\n"
        "rc = subprocess.call([sys.executable, '-P', '-m', 'bmaptools'] + sys.argv[1:])\n"
        "print(resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss)\n"
        "sys.exit(rc)\n")
MEM = ("create", "create", "range", "range", "nobmap", "packed", "packed", "http", "sums")


def run_mem(case, env, r, rng):
    """Peak memory must not grow with the image."""
    res = {}
    env.dir = env.shm
    k = case["k"]
    ext = rng.choice([".gz", ".bz2", ".xz", ".zst", ".lz4", ".zip", ".tar.gz", ".tar.xz", ".lzo"]) if k == "packed" or (k == "http" and rng.random() < 0.5) else ""
    for label, mib in (("small", 1), ("large", rng.choice([160, 256]))):
        ip = env.path(label + ext)
        dp = env.path("dest." + label)
        if k == "range":
            # one long range of tiny blocks
            bs = rng.choice([512, 512, 1024])
            n = mib * 12000 * 512 // bs
            img = images.Img(n * bs, [(0, b"x" * 5000)])
            img.write(ip)
            doc = bmapref.make(img, bs, [(0, n - 1)], "1.2", rng=rng)
            bp = sources.put(env.path("map"), doc.encode() if isinstance(doc, str) else doc)
            args = ["copy", "--bmap", bp, ip, "/dev/null"]
        else:
            block = rng.randbytes(MIB) if k in ("create", "nobmap") else rng.randbytes(4096) * 256
            data = None
            if k in ("create", "nobmap", "sums"):
                with open(ip, "wb") as f:
                    for i in range(mib):
                        f.write(block)
                        if label == "large" and case["seed"] % 2 and i == mib // 2:
                            f.seek(64 * MIB, 1)
                    f.truncate(f.tell())
            else:
                data = comp.compress(block * mib, ext)
                sources.put(ip, data)
            spec = ip
            if k == "http":
                spec = sources.serve("mem%d.%s%s" % (rng.randrange(1 << 40), label, ext), data, "length")
            if k == "create":
                args = ["create", "-o", env.path("out." + label), ip]
            elif k == "sums":
                size = os.path.getsize(ip)
                img = images.Img(size, [])
                img.write(env.path("zero"))
                # one range with one checksum, which covers everything
                import hashlib
                h = hashlib.sha256()
                with open(ip, "rb") as f:
                    for d in iter(lambda: f.read(MIB), b""):
                        h.update(d)
                doc = bmapref.make(img, 4096, [(0, size // 4096 - 1)], "2.0", digests={0: h.hexdigest()}, rng=rng)
                bp = sources.put(env.path("map"), doc.encode() if isinstance(doc, str) else doc)
                args = ["copy", "--bmap", bp, ip, dp]
            else:
                args = ["copy", "--nobmap", spec, dp]
        q = cli.run(args, dir=env.shm, prog=[core.PYTHON, "-P", "-c", PEAK], preload=False)
        for p in (ip, dp):
            if os.path.exists(p):
                os.unlink(p)
        if q.hang or q.rc != 0:
            r.bad("failed", "%s%s, %d MiB: %s" % (k, ext, mib, q.brief()))
            return r
        res[label] = int(q.out.split()[-1]) << 10
    r.count("memory")
    r.check(res["large"] - res["small"] <= 48 * MIB, "memory-grows", "%s%s: peak memory is %d for a small image, but %d for a large one" % (k, ext, res["small"], res["large"]))
    r.key = "mem%d" % case["seed"]
    r.state("mem", k, ext)
    r.sample = {"case": "memory, " + k + ext, "small": res["small"], "large": res["large"]}
    return r
