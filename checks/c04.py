"""C04: any alteration of a checksummed bmap file is refused."""
import os
import random
from vmon import api, bmapref, cli, core, gens, images
from vmon.core import Result

PROP = "C04"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: exhaustive single-byte fault injection into bmap files, verdict and destination oracle"
NOTE = ("For each sampled bmap (generated by the tool and by an independent writer; versions 1.3, 1.4, 2.0; every hash "
        "type) every byte position is altered, deleted, inserted before and truncated at, plus random multi-byte edits; "
        "the real constructor and copy run on each. Exhaustive in the position, sampled in the bmap and in multi-byte "
        "edits.")
RULE = ("Enumeration of (bmap, byte position, edit kind); an evaluation is a batch of positions of one bmap. Non-trivial: "
        "the edited file differs from the original. Distinct by bmap hash, edit kind and position interval.")
BATCH = 1
REQUIRE = {"edits_refused": 20000, "unaltered_accepted": 50, "cli": 30}

KINDS = ("flip", "flip8", "delete", "insert", "trunc", "digit", "multi", "dupline", "append", "case")


def cases(ctx):
    out = []
    for i in range(ctx.pick(26, 300)):
        for k in KINDS:
            out.append({"seed": ctx.sub("b", i), "t": "enum", "kind": k})
    for i in range(ctx.pick(60, 600)):
        out.append({"seed": ctx.sub("cli", i), "t": "cli"})
    for i in range(ctx.pick(4, 20)):
        out.append({"seed": ctx.sub("acc", i), "t": "accept"})
    ctx.rng("order").shuffle(out)
    return out


def make_bmap(rng, env, w, ip, big=False):
    if rng.random() < 0.4:
        # the tool's own
        bp = env.path("gen.bmap")
        cs = rng.choice(bmapref.usable_hashes())
        with open(bp, "w+") as fb:
            o = api.create(ip, fb, cs, rng.random() < 0.7)
        if not o.ok:
            return None, o.brief()
        return images.read_file(bp), "generated/" + cs
    ver = rng.choice(["1.3", "1.4", "2.0"])
    cs = rng.choice(bmapref.usable_hashes())
    style = rng.choice(["official", "compact", "compact", "airy"])
    return bmapref.make(w.img, w.bs, w.ranges, ver, cs, style, rng,
                        range_cs=None if rng.random() < 0.6 else set()), "%s/%s/%s" % (ver, cs, style)


def edits(kind, bm, rng, dense):
    n = len(bm)
    pos = range(n) if dense else sorted(rng.sample(range(n), min(n, 700)))
    if kind == "flip":
        for p in pos:
            yield p, bm[:p] + bytes([bm[p] ^ (1 << rng.randrange(7))]) + bm[p + 1:]
    elif kind == "flip8":
        for p in pos if dense and n < 900 else sorted(rng.sample(range(n), min(n, 120))):
            for b in range(8):
                yield p, bm[:p] + bytes([bm[p] ^ (1 << b)]) + bm[p + 1:]
    elif kind == "delete":
        for p in pos:
            k = rng.choice([1, 1, 1, 2, rng.randint(1, 60)])
            yield p, bm[:p] + bm[p + k:]
    elif kind == "insert":
        for p in list(pos) + [n]:
            c = rng.choice([b" ", b"\n", b"0", b"a", b"\0", b"<", b"-", b"  ", b"\xef\xbb\xbf", bytes([rng.randrange(256)])])
            yield p, bm[:p] + c + bm[p:]
    elif kind == "trunc":
        for p in pos:
            yield p, bm[:p]
    elif kind == "digit":
        # still well-formed: replace digits and hex digits
        for p in pos:
            c = bm[p:p + 1]
            if c.isdigit():
                yield p, bm[:p] + bytes([48 + (bm[p] - 48 + rng.randint(1, 9)) % 10]) + bm[p + 1:]
            elif c in b"abcdef":
                yield p, bm[:p] + rng.choice([x for x in (b"a", b"b", b"c", b"0", b"9") if x != c]) + bm[p + 1:]
    elif kind == "case":
        for p in pos:
            c = bm[p:p + 1]
            if c.isalpha():
                yield p, bm[:p] + c.swapcase() + bm[p + 1:]
            elif c == b" ":
                yield p, bm[:p] + b"\n" + bm[p + 1:]
            elif c == b"\n":
                yield p, bm[:p] + b" " + bm[p + 1:]
    elif kind == "multi":
        for i in range(250):
            d = bytearray(bm)
            for _ in range(rng.randint(2, 8)):
                p = rng.randrange(len(d))
                d[p] = rng.choice([d[p] ^ (1 << rng.randrange(7)), 48 + rng.randrange(10)])
            yield -1, bytes(d)
    elif kind == "dupline":
        lines = bm.split(b"\n")
        for i in range(len(lines)):
            yield i, b"\n".join(lines[:i] + [lines[i]] + lines[i:])
            yield i, b"\n".join(lines[:i] + lines[i + 1:])
            if i + 1 < len(lines):
                yield i, b"\n".join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:])
    elif kind == "append":
        for t in (b"\n", b" ", b"\0", b"<!-- x -->", b"<!-- -->\n", b"\n\n\n", b"x", bm, b"\r\n"):
            yield n, bm + t
        yield 0, b"\n" + bm
        yield 0, bm.replace(b"\n", b"\r\n")
        yield 0, bm.rstrip(b"\n")
        yield 0, bm.upper()
        yield 0, bm.replace(b"    ", b"\t")


def setup_files(rng, env):
    bs = rng.choice([512, 1000, 4096])
    w = gens.work(rng, bs=bs, maxbytes=bs * 14)
    ip, bp, dp = env.path("img"), env.path("b"), env.path("dest")
    # the same data for the tool's own bmap; holes make it interesting
    img = images.gen(rng, "small", rng.choice(["runs", "alternate", "edges", "full"])) if rng.random() < 0.4 else None
    return w, img, ip, bp, dp


def attempt(ip, dp, bp, old, r, what):
    o = api.copy(ip, dp, bp, sync=False, use_trans=False)
    if o.ok:
        r.bad("altered-accepted", "altered bmap accepted: " + what)
        return False
    got = images.read_file(dp)
    if got != old:
        r.bad("altered-written", "altered bmap refused (%s) only after the destination was written to: %s" % (o.brief(), what))
        return False
    return True


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    w = gens.work(rng, bs=rng.choice([512, 1000, 4096]), maxbytes=rng.choice([4096 * 6, 4096 * 14]))
    ip, bp, dp = env.path("img"), env.path("b"), env.path("dest")
    if rng.random() < 0.5:
        w.img.write(ip)
    else:
        w.img = images.gen(rng, "small", rng.choice(["runs", "alternate", "edges", "full"]))
        w.img.write(ip)
        w.size, w.data, w.bs = w.img.size, w.img.bytes(), 4096
        w.ranges = images.ranges_of(w.img.touched())
    if case["t"] == "accept":
        for ver in ("1.3", "1.4", "2.0"):
            for cs in bmapref.usable_hashes():
                for style in ("official", "compact", "airy"):
                    bm = bmapref.make(w.img, w.bs, w.ranges, ver, cs, style, rng)
                    with open(bp, "wb") as f:
                        f.write(bm)
                    o = api.copy(ip, dp, bp, sync=False)
                    r.check(o.ok, "unaltered-refused", "unaltered bmap refused (%s %s %s): %s" % (ver, cs, style, o.brief()))
                    r.count("unaltered_accepted")
                    r.state("accept", ver, cs, style)
        for cs in bmapref.usable_hashes():
            with open(bp, "w+") as fb:
                o = api.create(ip, fb, cs)
            if r.check(o.ok, "unaltered-refused", "create with %s %s" % (cs, o.brief())):
                o = api.copy(ip, dp, bp, sync=False)
                r.check(o.ok, "unaltered-refused", "generated bmap refused (%s): %s" % (cs, o.brief()))
                r.count("unaltered_accepted")
        return r
    bm, kind = make_bmap(rng, env, w, ip)
    if bm is None:
        r.inc("cannot create: " + kind)
        return r
    old = rng.randbytes(w.size + rng.choice([0, 100, 5000]))
    with open(dp, "wb") as f:
        f.write(old)
    with open(bp, "wb") as f:
        f.write(bm)
    if case["t"] == "cli":
        k = rng.choice(KINDS)
        ed = [x for x in edits(k, bm, rng, False) if x[1] != bm]
        p, d = rng.choice(ed)
        with open(bp, "wb") as f:
            f.write(d)
        bdev = rng.random() < 0.4
        conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/"))]
        if bdev:
            conf.append(("bdev", "dest", 240, 9))
        q = cli.run(["copy", "--bmap", bp] + (["--no-verify"] if rng.random() < 0.3 else []) + [ip, dp], dir=env.shm, conf=conf)
        what = "%s bmap, %s at %d of %d: ...%r..." % (kind, k, p, len(bm), d[max(0, p - 20):p + 20])
        r.check(q.rc != 0, "altered-accepted", "altered bmap accepted: " + what)
        ws = gens.writes(q.events)
        r.check(not ws, "altered-written", "%s: data written: %s" % (what, ws[:2]))
        r.count("cli")
        r.state("cli", k, kind, bdev)
        r.key = "%s|%s|%d" % (images.sha(bm), k, p)
        return r
    o = api.copy(ip, dp, bp, sync=False, use_trans=False)
    r.check(o.ok, "unaltered-refused", "unaltered bmap refused (%s): %s" % (kind, o.brief()))
    r.count("unaltered_accepted")
    with open(dp, "wb") as f:
        f.write(old)
    k = case["kind"]
    dense = env.ctx.thorough or len(bm) < 4000
    n = 0
    for p, d in edits(k, bm, rng, dense):
        if d == bm:
            continue
        with open(bp, "wb") as f:
            f.write(d)
        n += 1
        if not attempt(ip, dp, bp, old, r, "%s bmap of %d bytes, %s at %d: ...%r..." % (
                kind, len(bm), k, p, d[max(0, p - 24):p + 24])):
            break
    r.count("edits_refused", n)
    r.key = "%s|%s" % (images.sha(bm), k)
    r.state(k, kind)
    r.sample = {"bmap": kind, "bytes": len(bm), "edit": k, "edits": n}
    return r
