"""C06: every bmap format version is honoured identically."""
import hashlib
import os
import random
from vmon import api, bmapref, cli, core, gens, images
from vmon.core import Monitor, Result

PROP = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential copies with one range list written in all format versions and styles"
NOTE = ("One image and range list is encoded in every supported format version, with single-number and 'first-last' "
        "ranges and several whitespace layouts; all copies must produce the same destination, the same writes' coverage "
        "and honour the range checksums exactly in versions which define them. Sampled.")
RULE = ("Random (image, ranges) x all versions x all styles x hash types; non-trivial: all encodings were copied. Distinct "
        "by range list and encoding set.")
BATCH = 4
REQUIRE = {"copies": 1500, "bad_checksums": 200}


def cases(ctx):
    out = [{"seed": ctx.sub("diff", i), "t": "diff"} for i in range(ctx.pick(160, 4000))]
    out += [{"seed": ctx.sub("cli", i), "t": "cli"} for i in range(ctx.pick(16, 200))]
    out += [{"seed": ctx.sub("cs", i), "t": "cs"} for i in range(ctx.pick(80, 2000))]
    return out


def encode(w, ver, style, cs, rng, **kw):
    """Some more layouts on top of those of the writer."""
    t = bmapref.make(w.img, w.bs, w.ranges, ver, cs, "official" if style in ("pairs", "singles") else style,
                     rng if style == "pairs" else None, **kw)
    return t


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    w = gens.work(rng, maxbytes=rng.choice([60000, 400000]), odd=0.2)
    ip, bp, dp = env.path("img"), env.path("b.bmap"), env.path("dest")
    with open(ip, "wb") as f:
        f.write(w.data)
    if case["t"] == "cs":
        return checksums(rng, env, r, w, ip, bp, dp)
    old = rng.randbytes(w.size)
    want = gens.expected(w, old)
    first = None
    hashes = bmapref.usable_hashes()
    for ver in bmapref.VERSIONS:
        for style in ("official", "compact", "airy", "pairs"):
            if case["t"] == "cli" and style != rng.choice(["official", "compact", "airy", "pairs"]):
                continue
            cs = rng.choice(hashes)
            bm = encode(w, ver, style, cs, rng)
            with open(bp, "wb") as f:
                f.write(bm)
            what = "v%s %s %s bs=%d ranges=%s" % (ver, style, cs, w.bs, w.ranges[:10])
            if case["t"] == "cli":
                q = cli.run(["copy", "--bmap", bp, ip, dp], dir=env.shm)
                ok, brief = q.rc == 0, q.brief()
                exp = gens.expected(w, b"")
            else:
                with open(dp, "wb") as f:
                    f.write(old)
                o = api.copy(ip, dp, bp, sync=False, mode="r+b")
                ok, brief, exp = o.ok, o.brief(), want
                if ok:
                    wr = o.writer
                    geo = (wr.image_size, wr.block_size, wr.blocks_cnt, wr.mapped_cnt)
                    r.check(geo == (w.size, w.bs, w.nblocks, w.mapped), "geometry", "%s: geometry %s" % (what, geo))
            if not r.check(ok, "version-refused", "%s: %s" % (what, brief)):
                return r
            got = images.read_file(dp)
            r.check(got == exp, "version-differs", "%s: %s" % (what, images.describe_diff(got, exp)))
            r.count("copies")
            r.state(ver, style, cs, w.kind)
    r.key = "%d|%d|%s" % (w.size, w.bs, hash(tuple(w.ranges)))
    r.sample = {"bs": w.bs, "size": w.size, "ranges": w.ranges[:5], "encodings": 24}
    return r


def checksums(rng, env, r, w, ip, bp, dp):
    """Range checksums are used in exactly the versions which define them."""
    if not w.ranges:
        return r
    i = rng.randrange(len(w.ranges))
    for ver in bmapref.VERSIONS:
        for cs in [rng.choice(bmapref.usable_hashes()) for _ in range(2)]:
            hn = "sha1" if ver == "1.3" else cs
            bad = hashlib.new(hn, b"something else").hexdigest()
            if bmapref.has_checksums(ver):
                bm = bmapref.make(w.img, w.bs, w.ranges, ver, cs, digests={i: bad})
                with open(bp, "wb") as f:
                    f.write(bm)
                o = api.copy(ip, dp, bp, sync=False)
                r.check(not o.ok, "checksum-ignored", "v%s %s: bad checksum of range %d (%s) accepted" % (ver, cs, i, w.ranges[i]))
                o = api.copy(ip, dp, bp, sync=False, verify=False)
                r.check(o.ok, "noverify-refused", "v%s %s: %s" % (ver, cs, o.brief()))
                r.count("bad_checksums")
            else:
                # such versions have no checksums: nothing to verify
                bm = bmapref.make(w.img, w.bs, w.ranges, ver)
                for a in (b"sha1", b"chksum"):
                    t = bm.replace(b"<Range>", b'<Range %s="%s">' % (a, bad.encode()))
                    with open(bp, "wb") as f:
                        f.write(t)
                    o = api.copy(ip, dp, bp, sync=False)
                    r.check(o.ok, "checksum-invented", "v%s with a '%s' attribute: %s" % (ver, a.decode(), o.brief()))
                    r.count("unversioned_checksums")
            r.state("cs", ver, cs)
    r.key = "cs|%d|%d|%s" % (w.size, w.bs, hash(tuple(w.ranges)))
    return r
