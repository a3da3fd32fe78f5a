"""C16: unsynchronized data on a block device stays bounded."""
import gzip
import os
import random
from vmon import api, bmapref, cli, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: online accounting of written but unsynchronized bytes over the recorded system-call trace"
NOTE = ("Real copies of 8 MiB to some hundred MiB to emulated block devices; over the trace of writes and fsyncs on the device the monitor "
        "computes the amount of data written since the last successful synchronization, which must never exceed 6 MiB plus one "
        "batch (the larger of 1 MiB and the block size), and the last write must be followed by a synchronization. Samples "
        "block sizes (512 B to 16 MiB), range layouts, source kinds; measures system-call level, not page cache internals.")
RULE = ("Sampled block size x range layout x size x source x route. Non-trivial: more than the limit was written in total. "
        "Distinct by size, block size, layout, source.")
BATCH = 1
REQUIRE = {"copies": 90, "beyond_limit": 60, "writes": 4000, "fsyncs": 300, "cli": 40, "api": 40}
BUDGET = {"quick": 240, "thorough": 3000}

BS = (512, 1024, 4096, 4096, 65536, 1 << 20, 1000, 777, 5000, 3 << 20, 4 << 20, 6 << 20, (6 << 20) + 1, 8 << 20, 16 << 20, 1572864, 524288)
LAY = ("all", "singles", "runs", "adjacent", "bigruns", "mixed", "nobmap", "nobmap-unknown")
MiB = 1 << 20


def cases(ctx):
    out = []
    for i in range(ctx.pick(150, 700)):
        rng = ctx.rng("c", i)
        out.append({"seed": ctx.sub("c", i), "bs": BS[i % len(BS)], "lay": LAY[(i // 3) % len(LAY)] if i % 3 else rng.choice(LAY),
                    "t": "cli" if i % 2 else "api",
                    "mb": rng.choice([8, 20, 30, 40]) if not ctx.thorough or i % 10 else rng.choice([120, 300])})
    return out


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    bs, lay = case["bs"], case["lay"]
    size = case["mb"] * MiB + rng.choice([0, 1, -1, rng.randrange(MiB)])
    if lay == "singles" and bs < 4096:
        size = min(size, 14 * MiB)     # one write each
    if bs > 4 * MiB:
        size = max(size, 5 * bs + 3)
    if lay.startswith("nobmap"):
        bs = 4096
    nb = (size + bs - 1) // bs
    unit = rng.randbytes(1 << 16)
    data = (unit * (size // len(unit) + 1))[:size]
    ranges, b = [], 0
    if lay == "all" or lay.startswith("nobmap"):
        ranges = [(0, nb - 1)]
    else:
        while b < nb:
            k = {"singles": 1, "runs": rng.randint(1, max(1, (1 << 18) // bs)), "adjacent": rng.randint(1, max(1, (3 << 20) // bs)),
                 "bigruns": rng.randint(1, max(1, (9 << 20) // bs)),
                 "mixed": rng.choice([1, 2, 3, max(1, MiB // bs), max(1, MiB // bs + 1), max(1, 7 * MiB // bs), max(1, (6 << 20) // bs)])}[lay]
            ranges.append((b, min(nb, b + k) - 1))
            b += k + (0 if lay == "adjacent" else rng.choice([1, 1, 2]) if lay != "mixed" else rng.choice([0, 1, 5]))
    src = rng.choice(["raw", "raw", "gz"]) if not lay.endswith("unknown") else rng.choice(["gz", "stdin"])
    blob = gzip.compress(data, 1) if src == "gz" else data
    ip = sources.put(env.path("img" + (".gz" if src == "gz" else "")), blob)
    bp = None
    if not lay.startswith("nobmap"):
        bp = sources.put(env.path("b"), bmapref.make(images.Img(size, [(0, data)]), bs, ranges, rng.choice(["2.0", "1.3", "1.2"]), rng=rng))
    dp = env.path("sdx")
    with open(dp, "wb") as f:
        f.truncate(size + rng.choice([0, 5 * MiB]))
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
    if rng.random() < 0.3:
        conf.append(("jitter", rng.choice(["dest", "image"]), rng.choice(["write", "read"]), 3000, rng.randrange(1 << 30)))
        conf.append(("track", "image", ip))
    what = "%d bytes, block %d, %s (%d ranges) from %s" % (size, bs, lay, len(ranges), src)
    r.count(case["t"])
    if case["t"] == "cli":
        fi = open(ip, "rb") if src == "stdin" else None
        q = cli.run(["copy"] + (["--bmap", bp] if bp else ["--nobmap"]) + (["--no-verify"] if rng.random() < 0.3 and bp else []) + [
            "-" if fi else ip, dp], dir=env.shm, conf=conf, stdin=fi, survivors=False)
        if fi:
            fi.close()
        ok, brief, ev = q.rc == 0, q.brief(), q.events
    else:
        with Monitor(env, conf) as m:
            if src == "stdin":
                with open(ip, "rb", buffering=0) as fi:
                    o = api.copy(ip, dp, bp, bdev=True, image_obj=fi)
            else:
                o = api.copy(ip, dp, bp, bdev=True, passsize=rng.random() < 0.7)
            m.mark("returned")
        ok, brief, ev = o.ok, o.brief(), m.events
    if not r.check(ok, "failed", "%s: %s" % (what, brief)):
        return r
    limit = 6 * MiB + max(MiB, bs)
    pend = worst = total = nf = nw = 0
    ended = False
    for e in ev:
        if e.op == "mark":
            ended = True
        if e.role != "dest":
            continue
        if e.op == "write" and e.ret > 0:
            pend += e.ret
            total += e.ret
            nw += 1
            worst = max(worst, pend)
        elif e.op == "fsync" and e.ret == 0 and not ended:
            pend = 0
            nf += 1
    r.check(worst <= limit, "too-much", "%s: %d bytes (%.1f MiB) were written without synchronization" % (what, worst, worst / MiB))
    r.check(pend == 0, "not-synchronized", "%s: %d bytes at the end are not synchronized" % (what, pend))
    mapped = sum(min(size, (l + 1) * bs) - f * bs for f, l in ranges)
    r.check(total >= mapped, "incomplete", "%s: only %d of %d bytes were written" % (what, total, mapped))
    r.count("copies")
    r.count("writes", nw)
    r.count("fsyncs", nf)
    r.count("beyond_limit", int(total > limit))
    r.nontrivial = total > limit
    r.key = "%d|%d|%s|%s|%d" % (size, bs, lay, src, len(ranges))
    r.state(bs, lay, src, case["t"], worst * 4 // limit)
    r.sample = {"copy": what, "writes": nw, "fsyncs": nf, "worst_unsynchronized": worst, "limit": limit}
    return r
