"""C02: a copy with a bmap writes exactly the mapped blocks and nothing else."""
import os
import random
from vmon import api, bmapref, cli, core, gens, images
from vmon.core import Monitor, Result

PROP = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: syscall-level write monitor on the destination + byte-exact destination oracle"
NOTE = ("Every write the real code makes to the destination (regular file, emulated block device, huge sparse file) is "
        "logged at the libc boundary and must lie inside a mapped block; afterwards the whole destination is compared "
        "with old contents overlaid by the mapped blocks. Sampled inputs: block sizes 1 byte to 4 MiB, all shapes of "
        "range lists (also out of order), bmaps of all versions written by an independent writer. Trusts the interposer and the kernel.")
RULE = ("Random (block size, image size, range list, bmap version, destination kind, old contents, route); the image "
        "holds data everywhere so that an extra write changes the destination. Non-trivial: the copy succeeded and "
        "at least one write or an empty map was seen; distinct by bmap hash, destination kind and route.")
BATCH = 10
REQUIRE = {"copies": 200, "writes_checked": 1000, "bdev": 40, "cli": 10, "disordered": 60}


def cases(ctx):
    out = [{"seed": ctx.sub("api", i), "t": "api"} for i in range(ctx.pick(1500, 25000))]
    out += [{"seed": ctx.sub("cli", i), "t": "cli"} for i in range(ctx.pick(120, 2000))]
    out += [{"seed": ctx.sub("huge", i), "t": "huge"} for i in range(ctx.pick(40, 500))]
    ctx.rng("order").shuffle(out)
    return out


def check_writes(r, ev, iv, size, what):
    n = 0
    for e in gens.writes(ev):
        n += 1
        if not gens.inside(iv, e.off, e.off + e.ret):
            r.bad("write-outside", "%s: write of bytes %d..%d is not inside the mapped blocks %s" % (
                what, e.off, e.off + e.ret, iv[:20]))
            break
    r.count("writes_checked", n)
    return n


def run_huge(rng, env, r):
    bs = rng.choice([4096, 65536, 1 << 20, 1000, 512])
    size = rng.choice([1 << 32, (1 << 32) + bs + 1, (1 << 33) + 3, (1 << 31) + 5, (5 << 32) + 7])
    nb = (size + bs - 1) // bs
    picks = set()
    for edge in (1 << 31, 1 << 32, 1 << 33, size):
        b = min(nb - 1, edge // bs)
        picks.update(x for x in (b - 1, b, b + 1) if 0 <= x < nb and rng.random() < 0.8)
    picks.update(rng.randrange(nb) for _ in range(3))
    w = gens.Work()
    w.bs, w.size, w.nblocks, w.kind = bs, size, nb, "huge"
    w.ranges = images.ranges_of(picks)
    w.img = images.from_blocks(rng, size, picks, bs)
    ip, bp, dp = env.path("img"), env.path("b"), env.path("dest")
    w.img.write(ip)
    with open(bp, "wb") as f:
        f.write(bmapref.make(w.img, bs, w.ranges, rng.choice(bmapref.VERSIONS), rng=rng))
    bdev = rng.random() < 0.5
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/"))]
    if bdev:
        with open(dp, "wb") as f:
            f.truncate(size)
        conf.append(("bdev", "dest", 240, 9))
    else:
        open(dp, "wb").close()
    with Monitor(env, conf) as m:
        o = api.copy(ip, dp, bp, bdev=bdev)
    if not r.check(o.ok, "copy-failed", "copy of a %d byte image, block size %d: %s" % (size, bs, o.brief())):
        return
    r.count("copies")
    r.count("huge")
    check_writes(r, m.events, gens.byte_ranges(w), size, "huge image")
    why = images.sparse_equal(dp, w.img)
    r.check(why is None, "wrong-contents", "huge image of %d bytes: %s" % (size, why))
    r.state("huge", bs, bdev)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "huge":
        run_huge(rng, env, r)
        return r
    w = gens.work(rng)
    order = "ascending"
    if len(w.ranges) > 0 and rng.random() < 0.2:
        order, w.ranges = gens.disorder(rng, w.ranges)
        r.count("disordered")
    ver = rng.choice(bmapref.VERSIONS + ("2.0", "2.0"))
    style = rng.choice(["official", "official", "compact", "airy"])
    cs = rng.choice(["sha256", "sha1", "md5", "sha512"])
    bm = bmapref.make(w.img, w.bs, w.ranges, ver, cs, style, rng, range_cs=None if rng.random() < 0.8 else set())
    comp = rng.choice(["", "", "", ".gz"]) if order == "ascending" else ""
    ip, bp, dp = env.path("img" + comp), env.path("b.bmap"), env.path("dest")
    data = w.data
    if comp:
        import gzip
        data = gzip.compress(data, 1)
    for p, d in ((ip, data), (bp, bm)):
        with open(p, "wb") as f:
            f.write(d)
    pat = rng.randbytes(257)
    bdev = rng.random() < 0.45
    extra = rng.choice([0, 0, 1, w.bs, 4096, 100000]) if bdev else rng.choice([-w.size // 2, 0, 0, 1, 9999, 1 << 20])
    n = max(0, w.size + extra)
    fill = rng.choice(["pattern", "ff", "same"])
    old = (pat * (n // 257 + 1))[:n] if fill == "pattern" else b"\xff" * n if fill == "ff" else bytes(
        x ^ 0xff for x in w.data[:4096]) .ljust(n, b"\xa5")[:n]
    with open(dp, "wb") as f:
        f.write(old)
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/"))]
    if bdev:
        conf.append(("bdev", "dest", 240, 9))
    verify = rng.random() < 0.8
    what = "bs=%d size=%d v%s %s ranges=%s%s %s" % (w.bs, w.size, ver, style, w.ranges[:12],
                                                    "..." if len(w.ranges) > 12 else "", "bdev" if bdev else "file")
    if case["t"] == "cli":
        r.count("cli")
        args = ["copy", "--bmap", bp] + ([] if verify else ["--no-verify"]) + [ip, dp]
        q = cli.run(args, dir=env.shm, conf=conf)
        ok, brief, ev = q.rc == 0, q.brief(), q.events
        if not bdev:
            old = b""  # the tool truncates regular files
    else:
        with Monitor(env, conf) as m:
            o = api.copy(ip, dp, bp, bdev=bdev, verify=verify, sync=rng.random() < 0.5, mode="r+b",
                         buffering=rng.choice([-1, -1, -1, 0, 1 << 16]) if not bdev else -1)
        ok, brief, ev = o.ok, o.brief(), m.events
    if not r.check(ok, "copy-failed", "%s: %s" % (what, brief)):
        return r
    r.count("copies")
    r.count("bdev", int(bdev))
    got = images.read_file(dp)
    want = gens.expected(w, old, n if bdev else w.size)
    if got != want:
        r.bad("wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    nw = check_writes(r, ev, gens.byte_ranges(w), w.size, what)
    if w.ranges:
        r.check(nw > 0, "wrong-contents", what + ": no write was observed")
    r.nontrivial = True
    r.key = "%s|%s|%s|%d" % (images.sha(bm), bdev, case["t"], n)
    r.state(w.bs, w.kind, order, ver, style, bdev, case["t"], fill)
    r.sample = {"bs": w.bs, "size": w.size, "kind": w.kind, "ranges": len(w.ranges), "version": ver, "bdev": bdev,
                "writes": nw, "old_len": n, "route": case["t"]}
    return r
