"""C12: generated bmaps are well-formed and truthful."""
import os
import random
from vmon import api, bmapref, cli, core, images
from vmon.core import Result

PROP = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated bmaps of sampled sparse images, recomputed by an independent parser and checksummer"
NOTE = ("Every bmap the real code generates (through paths, file objects in several modes and positions, standard output, -o) "
        "is parsed by an independent strict parser; all numbers, ranges, the coverage and every checksum are recomputed from "
        "the generator's ground truth, routes are compared bytewise, and the image object's position and later reads are "
        "observed. All fixed-length hash types are enumerated. Sampled images; trusts hashlib.")
RULE = ("Sampled (image, hash type, routes). Non-trivial: a bmap was generated. Distinct by bmap hash.")
BATCH = 8
REQUIRE = {"bmaps": 600, "checksums": 1000, "positions": 200, "cli": 60, "hashes": 8, "routes_equal": 200, "long": 2}


def cases(ctx):
    out = [{"seed": ctx.sub("a", i), "t": "api"} for i in range(ctx.pick(450, 9000))]
    out += [{"seed": ctx.sub("c", i), "t": "cli"} for i in range(ctx.pick(70, 1200))]
    out += [{"seed": ctx.sub("h", i, h), "t": "api", "cs": h} for i in range(ctx.pick(2, 10)) for h in bmapref.usable_hashes()]
    out += [{"seed": ctx.sub("b", i), "t": "big"} for i in range(ctx.pick(12, 150))]
    out += [{"seed": ctx.sub("l", i), "t": "cli", "long": True} for i in range(ctx.pick(3, 20))]
    out += [{"seed": ctx.sub("e", i), "t": "empty"} for i in range(4)]
    ctx.rng("order").shuffle(out)
    return out


def judge(r, img, bm, what, cs, with_cs):
    bad = bmapref.check_generated(bm, img, with_cs, cs)
    r.count("bmaps")
    b = bmapref.check_generated.last
    if b:
        r.count("checksums", (len(b.ranges) if with_cs else 0) + 1)
    if bad:
        r.bad("untruthful", "%s: %s" % (what, "; ".join(bad[:4])))
    return not bad


def by_objects(r, rng, env, img, ip, cs, with_cs, what):
    """Image and bmap as file objects; the position must survive."""
    mode = rng.choice(["rb", "rb", "r+b", "raw", "dirty"])
    if img.size > 1 << 28 and mode == "dirty":
        mode = "r+b"
    bp = env.path("b.obj")
    pos = rng.choice([0, 1, rng.randint(0, img.size), img.size, img.size + 5, rng.randint(0, img.size)])
    kw = {"buffering": 0} if mode == "raw" else {}
    with open(ip, "r+b" if mode in ("r+b", "dirty") else "rb", **kw) as fi, open(bp, "w+") as fb:
        if mode == "dirty":
            # not written back yet when the bmap is made
            o = rng.randrange(img.size)
            d = rng.randbytes(min(img.size - o, 1500))
            fi.seek(o)
            fi.write(d)
            whole = bytearray(img.bytes())
            whole[o:o + len(d)] = d
            img = images.Img(img.size, img.segs)
            img.segs = [(0, bytes(whole))]
        fi.seek(pos)
        if mode != "dirty" and rng.random() < 0.3:
            pos += len(fi.read(rng.choice([1, 10, 5000])))
        o = api.create(fi, fb, cs, with_cs)
        if not r.check(o.ok, "create-failed", "%s (file objects, %s): %s" % (what, mode, o.brief())):
            return None, img
        t = fi.tell()
        r.count("positions")
        r.check(t == pos, "position", "%s (%s): the position of the image object is %d after creation, was %d" % (what, mode, t, pos))
        got, want = fi.read(3000), img.read(t, 3000)
        r.check(got == want, "position", "%s (%s): reading on at %d gives wrong data" % (what, mode, t))
        if rng.random() < 0.5:
            fb.flush()
            bm = images.read_file(bp)
        else:
            # after generate() the file must already be complete
            bm = images.read_file(bp)
    r.check(images.read_file(bp) == bm, "not-flushed", "%s: the bmap file changes after generate() has returned" % what)
    return bm, img


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    t = case["t"]
    if t == "empty":
        ip = env.path("img")
        open(ip, "wb").close()
        if rng.random() < 0.5:
            ok = api.create(ip, env.path("b")).ok
        else:
            ok = cli.run(["create", "-o", env.path("b"), ip], dir=env.shm).rc == 0
        r.check(not ok, "empty-accepted", "a bmap was generated for an empty image")
        return r
    ondisk = rng.random() < 0.4
    d = env.disk if ondisk else env.shm
    if t == "big":
        size = rng.choice([1 << 32, (1 << 40) + 1, 10 ** 10, 12345678901, (1 << 31) + 4095, 999 * 4096, 10000 * 4096])
        nb = (size + 4095) // 4096
        bl = set(rng.randrange(nb) for _ in range(rng.randint(0, 40))) | set(x for x in (nb - 1, 0) if rng.random() < 0.5)
        img = images.from_blocks(rng, size, bl)
        d = env.shm
    elif case.get("long"):
        # the bmap is larger than any buffer
        nb = rng.randint(24000, 40000)
        k = rng.choice([0, 1])
        img = images.Img(nb * 4096 - rng.choice([0, 5]), [(i * 4096, b"%9d" % i) for i in range(k, nb, 2)])
        d = env.shm
        img.kind = "alternating"
        r.count("long")
    else:
        img = images.gen(rng, maxsize=3 << 20)
    ip = img.write(os.path.join(d, rng.choice(["img", "my <image> & co", "--x", "i.raw"])))
    cs = case.get("cs") or rng.choice(["sha256", "sha256", "sha1", "md5", "sha512"])
    with_cs = "cs" in case or rng.random() < 0.8
    r.count("hashes", int("cs" in case))
    what = "%s image of %d bytes, %s%s" % (img.kind, img.size, cs, "" if with_cs else ", no range checksums")
    if t == "cli":
        cs = "sha256"
        outs = []
        old = rng.choice([None, b"", b"x" * 100000])
        op = env.path("out.bmap")
        if old is not None:
            with open(op, "wb") as f:
                f.write(old)
        args = ["create"] + ([] if with_cs else ["--no-checksum"])
        tail = [ip] if os.path.isabs(ip) else ["--", ip]
        for how in ("stdout", "out", "stdout-file"):
            fo = open(env.path("so"), "wb") if how == "stdout-file" else None
            q = cli.run(args + (["-o", op] if how == "out" else []) + tail, dir=env.shm, stdout=fo)
            r.count("cli")
            if fo:
                fo.close()
            if not r.check(q.rc == 0, "create-failed", "%s (%s): %s" % (what, how, q.brief())):
                return r
            bm = {"stdout": lambda: q.out, "out": lambda: images.read_file(op),
                  "stdout-file": lambda: images.read_file(env.path("so"))}[how]()
            outs.append((how, bm))
        with open(env.path("api"), "w+") as fb:
            o = api.create(ip, fb, cs, with_cs)
        if o.ok:
            outs.append(("api", images.read_file(env.path("api"))))
    else:
        outs = []
        bp = env.path("b.path")
        if rng.random() < 0.3:
            with open(bp, "wb") as f:
                f.write(b"y" * rng.choice([1, 3000, 100000]))
        o = api.create(ip, bp, cs if rng.random() < 0.8 else cs.upper(), with_cs)
        if not r.check(o.ok, "create-failed", "%s: %s" % (what, o.brief())):
            return r
        # complete as soon as generate() returns
        outs.append(("path", images.read_file(bp)))
        o.writer.__del__()
        r.check(images.read_file(bp) == outs[0][1], "not-flushed", "%s: the bmap changes after generate() returned" % what)
        judge(r, img, outs[0][1], what + " (path)", cs, with_cs)
        for n in range(2):
            bm, img2 = by_objects(r, rng, env, img, ip, cs, with_cs, what)
            if bm is None:
                return r
            if img2 is not img:
                judge(r, img2, bm, what + " (unflushed image object)", cs, with_cs)
                break
            outs.append(("objects", bm))
    ref = outs[0][1]
    if t == "cli":
        judge(r, img, ref, what + " (stdout)", cs, with_cs)
    for how, bm in outs[1:]:
        r.check(bm == ref, "routes-differ", "%s: bmaps written to %s and %s differ at byte %s" % (
            what, outs[0][0], how, images.first_diff(bm, ref)))
        r.count("routes_equal")
    r.key = images.sha(ref)
    b = bmapref.check_generated.last
    r.state(img.kind, cs, with_cs, t, ondisk, len(b.ranges).bit_length() if b else None)
    r.sample = {"image": what, "ranges": len(b.ranges) if b else None, "routes": [h for h, _ in outs]}
    return r
