"""C08: compressed sources are equivalent to the raw image."""
import os
import random
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Result

PROP = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential destination oracle over all extensions, decompressor sets and transports"
NOTE = ("For every compression extension and alias the same image is copied compressed (locally, over HTTP, over a fake "
        "ssh), with and without bmap, with PATHs offering different sets of decompressors; the destination must equal "
        "what the raw image gives, and a missing program must be an error. Extensions and decompressor sets are "
        "enumerated; contents and bmaps sampled.")
RULE = ("Enumeration of (extension, transport, bmap?, tool set) over random contents. Non-trivial: copy ran. Distinct by data "
        "hash and enumeration cell.")
BATCH = 4
REQUIRE = {"equal": 600, "missing_refused": 30, "cli": 200, "decoys": 60}


def cases(ctx):
    out = []
    for i in range(ctx.pick(4, 60)):
        for ext in sorted(comp.EXTS) + [""]:
            for how in ("bmap", "nobmap"):
                for tr in ("file", "http:length", "http:chunked", "ssh"):
                    out.append({"seed": ctx.sub("api", i, ext, how, tr), "t": "api", "ext": ext, "how": how, "tr": tr})
    for i in range(ctx.pick(6, 30)):
        for ext in sorted(comp.EXTS):
            fmt, arch = comp.EXTS[ext]
            alts = [()]
            if len(comp.NEEDS[fmt]) > 1:
                alts += [(comp.NEEDS[fmt][0],)]
                if not arch or fmt != "gz":
                    pass
                alts += [(comp.NEEDS[fmt][1],)] if not arch else []
            for a in alts:
                out.append({"seed": ctx.sub("cli", i, ext, a), "t": "cli", "ext": ext, "without": list(a)})
            miss = [tuple(comp.NEEDS[fmt])] + ([("tar",)] if arch else [])
            for a in miss:
                if i == 0 or ctx.thorough:
                    out.append({"seed": ctx.sub("miss", i, ext, a), "t": "missing", "ext": ext, "without": list(a)})
    for i in range(ctx.pick(60, 1000)):
        out.append({"seed": ctx.sub("odd", i), "t": "odd"})
    ctx.rng("order").shuffle(out)
    return out


def gen_work(rng):
    m = rng.choice([1, 5000, 100000, 1 << 20, 3 << 20])
    w = gens.work(rng, maxbytes=m, odd=0.2)
    k = rng.choice(["rand", "rand", "zero", "text", "sparse"])
    if k == "zero":
        w.data = bytes(w.size)
    elif k == "text":
        w.data = (rng.randbytes(97) * (w.size // 97 + 1))[:w.size]
    elif k == "sparse":
        d = bytearray(w.size)
        for _ in range(4):
            a = rng.randrange(w.size)
            b = min(w.size, a + 3000)
            d[a:b] = rng.randbytes(b - a)
        w.data = bytes(d)
    w.img = images.Img(w.size, [(0, w.data)])
    w.ck = k
    return w


def concat(data, ext, rng):
    """The same data as several concatenated members."""
    k = rng.randint(2, 5)
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(k - 1))
    parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    return b"".join(comp.compress(p, ext) for p in parts)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    w = gen_work(rng)
    dp, bp = env.path("dest"), env.path("b.bmap")
    sources.put(bp, bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.3", "1.0"]), "sha256"))
    t = case["t"]
    if t == "odd":
        return odd(rng, env, r, w, dp, bp)
    ext = case["ext"]
    name = rng.choice(["image.raw", "my image", "x'y", "a.b", "-img", "$(touch x)"]) if t != "api" or case["tr"] == "file" else "image.raw"
    how = case.get("how") or rng.choice(["bmap", "nobmap"])
    want = gens.expected(w, b"") if how == "bmap" else w.data
    if t == "api":
        s = sources.make(rng, env, w.data, case["tr"], ext, name=name)
        with sources.environ(s.env):
            o = api.copy(s.spec, dp, bp if how == "bmap" else None, sync=False)
        ok, brief = o.ok, o.brief()
        what = "%s%s over %s, %s, %s of %d bytes" % ("image", ext, case["tr"], how, w.ck, w.size)
    else:
        r.count("cli")
        # other parts of the path may look like extensions
        base = rng.choice(["image.raw", "image.raw", "backup.tar.d/disk.img", "all.tar.gz.d/image", "x.tgz", "x.zst.d/y.lzo", "img.tar.old", "tar",
                           "d.zip/image.xz.img", "tar.img", "my.tar-1.0/im age", "UP.TAR.D/img", ".d.bz2/.img"])
        os.makedirs(os.path.dirname(env.path(base)), exist_ok=True)
        ip = sources.put(env.path(base + ext), comp.compress(w.data, ext, rng.choice(["image.raw", "./image.raw", "/image.raw",
                                                                                         "d/" * 40 + "x"])))
        tb = comp.toolbox(env.path("tools"), without=case["without"])
        # files called like the missing programs which are not programs
        decoy = rng.choice(["none", "file", "file", "dir", "dangling"]) if case["without"] else "none"
        if decoy != "none":
            dd = env.path("decoys")
            os.makedirs(dd)
            for x in case["without"]:
                if decoy == "file":
                    sources.put(os.path.join(dd, x), b"#!/bin/sh\nexit 0\n")
                    os.chmod(os.path.join(dd, x), 0o644)
                elif decoy == "dir":
                    os.mkdir(os.path.join(dd, x))
                else:
                    os.symlink("nowhere", os.path.join(dd, x))
            tb = rng.choice(["%s:%s", "%s::%s"]) % ((tb, dd) if rng.random() < 0.5 else (dd, tb))
            r.count("decoys")
        args = ["copy"] + (["--bmap", bp] if how == "bmap" else ["--nobmap"])
        q = cli.run(args + [ip, dp], dir=env.shm, env={"PATH": tb}, cwd=env.shm)
        ok, brief = q.rc == 0, q.brief()
        what = base + "%s without programs %s, %s, %s of %d bytes" % (ext, case["without"], how, w.ck, w.size)
        if t == "missing":
            r.check(not ok, "missing-accepted", "success although the program is missing: " + what)
            r.count("missing_refused")
            r.state("missing", decoy, ext, *case["without"])
            return r
    if r.check(ok, "compressed-refused", "%s: %s" % (what, brief)):
        got = images.read_file(dp)
        r.check(got == want, "compressed-differs", "%s: %s" % (what, images.describe_diff(got, want)))
        r.count("equal")
    r.key = "%s|%s|%s" % (images.sha(w.data), ext, how)
    r.state(ext, how, case.get("tr", "file"), case.get("without", ""), w.ck)
    r.sample = {"ext": ext, "how": how, "transport": case.get("tr", "file"), "bytes": w.size, "content": w.ck}
    return r


def odd(rng, env, r, w, dp, bp):
    """Concatenated members, and names which only look compressed."""
    if rng.random() < 0.6:
        ext = rng.choice([".gz", ".bz2", ".xz", ".zst", ".lz4", ".gzip"])
        blob = concat(w.data, ext, rng)
        name = "image" + ext
        want = w.data
    else:
        name = rng.choice(["imagegz", "image.gz.img", "x.gz.d/image", "x.tar.gz/image.img", "x.zip/img", "a.tar.gz.raw", "image.tbz2x", "image.xz~", "zip", "lz4", "image.tar", "tgz"])
        blob = want = comp.compress(w.data, ".gz") if rng.random() < 0.5 else w.data
    os.makedirs(os.path.dirname(env.path(name)), exist_ok=True)
    ip = sources.put(env.path(name), blob)
    for how in ("nobmap", "bmap"):
        if how == "bmap" and want is not w.data:
            continue
        with sources.environ({}):
            o = api.copy(ip, dp, bp if how == "bmap" else None, sync=False, mode="wb")
        if r.check(o.ok, "compressed-refused", "%s (%d bytes), %s: %s" % (name, len(blob), how, o.brief())):
            got = images.read_file(dp)
            exp = want if how == "nobmap" else gens.expected(w, b"")
            r.check(got == exp, "compressed-differs", "%s, %s: %s" % (name, how, images.describe_diff(got, exp)))
            r.count("equal")
    r.state("odd", name)
    r.key = "%s|%s" % (images.sha(blob), name)
    return r
