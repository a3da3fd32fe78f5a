"""C05: malformed, inconsistent or unsupported bmaps are refused."""
import os
import random
import re
from vmon import api, bmapref, cli, core, gens, images
from vmon.core import Monitor, Result

PROP = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: enumerated defects in bmap files, verdict + destination write monitor + error-class oracle"
NOTE = ("A catalogue of header, version, XML and range defects is applied to bmaps of every version and style (with a "
        "correct file checksum, so that only the defect can be the reason), singly and in pairs; the real tool runs on "
        "each through API and CLI, to files and emulated block devices, under a write monitor. Enumerated defects, "
        "sampled base bmaps.")
RULE = ("Enumeration of (defect, version, route) over random base bmaps; non-trivial: the defective bmap differs from the "
        "good one; distinct by bmap hash and route.")
BATCH = 10
REQUIRE = {"header_refused": 400, "range_refused": 150, "cli": 80, "xml_refused": 60, "readable": 800, "odd": 15}

FIELDS = ("ImageSize", "BlockSize", "BlocksCount", "MappedBlocksCount")
GARBAGE = ("abc", "", " ", "-5", "1.5", "0x10", "1e3", "12 34", "12,", "None", "4096 bytes", "nan", "--1", "&lt;")
BADVERS = (None, "", "abc", "3.0", "2", "10.0", "99.9", "-1.0", "2.x", "two", "3.1", " ", "2,0", "100000.0", "0x2.0", "v2.0")


def defects():
    out = []
    for f in FIELDS:
        out.append(("H", "missing", f, None))
        for g in GARBAGE:
            out.append(("H", "garbled", f, g))
        out.append(("H", "child", f, "<b>1</b>"))
    for f in ("ImageSize", "BlockSize", "BlocksCount"):
        out.append(("H", "garbled", f, "0"))
    for k in ("count+1", "count-1", "size+bs", "size-bs", "bs*2", "bs/2", "mapped>count", "mapped>>count", "count*2",
              "size=mapped", "size+image", "size-image", "size*image"):
        out.append(("H", "inconsistent", k, None))
    for v in BADVERS:
        out.append(("V", "version", v, None))
    for t in ("ChecksumType", "BmapFileChecksum", "BmapFileSHA1"):
        out.append(("C", "missing", t, None))
    for t in ("nosuchhash", "sha-256x", "", "0", "sha 256"):
        out.append(("C", "cstype", t, None))
    for k in ("reversed", "beyond1", "beyond", "huge", "text", "empty", "blank", "dash", "dashfirst", "three", "float", "negative",
              "noblockmap", "noranges", "emptyrange", "mapped-1", "mapped+1", "extra", "dropped", "wider", "narrower", "dropall",
              "hex", "comma", "reversed-inplace", "colon-inplace", "space-inplace", "double-inplace", "dots-inplace", "digits", "manydigits", "noname", "text-inplace"):
        out.append(("R", "range", k, None))
    for k in ("empty", "spaces", "trunc", "truncmid", "binary", "zeros", "text", "json", "tagmismatch", "noroot", "image", "twodocs",
              "badentity", "badchar", "unclosed", "badattr", "utf16cut", "gz", "html", "bomb", "quad", "external", "deep", "deepmap"):
        out.append(("X", "xml", k, None))
    return out


def cases(ctx):
    out = []
    rep = ctx.pick(12, 200)
    for i in range(rep):
        for k, d in enumerate(defects()):
            out.append({"seed": ctx.sub("api", i, k), "t": "api", "d": d})
    for i in range(ctx.pick(1, 10)):
        for k, d in enumerate(defects()):
            if i or k % 2 == 0 or d[0] in "VX":
                out.append({"seed": ctx.sub("cli", i, k), "t": "cli", "d": d})
    for i in range(ctx.pick(150, 4000)):
        out.append({"seed": ctx.sub("pair", i), "t": "pair", "d": None})
    for i in range(ctx.pick(30, 300)):
        out.append({"seed": ctx.sub("odd", i), "t": "odd", "d": None})
    ctx.rng("order").shuffle(out)
    return out


def break_it(rng, w, d, ver, over, ranges, digests):
    """
    Apply a defect to the description.  Returns (class, transform of the text
    or None), class None if the defect does not apply here.
    """
    cls, kind, a, b = d
    n, mapped = w.nblocks, w.mapped
    post = None
    if kind in ("missing", "garbled", "child"):
        over[a] = b
        if cls == "C":
            if ver == "1.3" and a != "BmapFileSHA1" or ver in ("1.4", "2.0") and a == "BmapFileSHA1" or not bmapref.has_checksums(ver):
                return None, None
    elif kind == "cstype":
        if ver not in ("1.4", "2.0"):
            return None, None
        over["ChecksumType"] = a
    elif kind == "version":
        over["version"] = a
        if a is None:
            over["version"] = "@@"
            post = lambda t: t.replace(b' version="@@"', b"")
    elif kind == "inconsistent":
        bs, size = w.bs, w.size
        v = {"count+1": ("BlocksCount", n + 1), "count-1": ("BlocksCount", n - 1), "size+bs": ("ImageSize", size + bs),
             "size-bs": ("ImageSize", size - bs), "bs*2": ("BlockSize", bs * 2), "bs/2": ("BlockSize", bs // 2),
             "mapped>count": ("MappedBlocksCount", n + 1), "mapped>>count": ("MappedBlocksCount", n * 1000 + 7),
             "count*2": ("BlocksCount", n * 2), "size=mapped": ("ImageSize", mapped),
             # consistent in itself, but not with the image
             "size+image": ("ImageSize", size + 1), "size-image": ("ImageSize", size - 1),
             "size*image": ("ImageSize", size + bs)}[a]
        if a == "bs*2" and (n < 2 or -(-size // (2 * bs)) == n) or a == "bs/2" and (bs < 2 or -(-size // (bs // 2)) == n):
            return None, None
        if v[1] <= 0 or v[0] == "ImageSize" and a.startswith("size=") and -(-mapped // bs) == n:
            return None, None
        over[v[0]] = str(v[1])
        if a.endswith("image"):
            # keep the header consistent
            nn = -(-v[1] // bs)
            over["BlocksCount"] = str(nn)
            if mapped > nn or (ranges and ranges[-1][1] >= nn):
                return None, None
    elif kind == "range":
        k = a
        last = n - 1
        texts = {"text": "abc", "empty": "", "blank": " ", "dash": "1 -", "dashfirst": "- 1", "three": "1-2-3", "float": "1.5",
                 "negative": "-1", "hex": "0x1", "comma": "1,2",
                 "digits": "9" * 4000, "manydigits": "9" * 9000, "noname": "\N{SUPERSCRIPT TWO}"}
        if k in texts:
            over["extra_ranges"] = "<Range>%s</Range>" % texts[k]
        elif k == "reversed":
            if n < 2:
                return None, None
            over["extra_ranges"] = "<Range> %d - %d </Range>" % (last, last - 1)
        elif k == "beyond1":
            over["extra_ranges"] = "<Range> %d </Range>" % n
            if mapped + 1 <= n and rng.random() < 0.6:
                over["MappedBlocksCount"] = str(mapped + 1)
        elif k == "beyond":
            if not ranges:
                return None, None
            f, l = ranges[-1]
            ranges[-1] = (f, n + rng.randint(0, 3))
            if mapped + ranges[-1][1] - l <= n and rng.random() < 0.6:
                over["MappedBlocksCount"] = str(mapped + ranges[-1][1] - l)
            else:
                over["MappedBlocksCount"] = str(mapped)
            digests[len(ranges) - 1] = None
        elif k.endswith("-inplace"):
            # everything else is right, the file checksum included
            idx = [i for i, (f, l) in enumerate(ranges) if f < l]
            if not idx:
                return None, None
            f, l = ranges[rng.choice(idx)]
            new = {"reversed-inplace": "%d-%d" % (l, f), "colon-inplace": "%d:%d" % (f, l), "space-inplace": "%d %d" % (f, l),
                   "double-inplace": "%d--%d" % (f, l), "dots-inplace": "%d..%d" % (f, l), "text-inplace": "%d-end" % f}[k].encode()
            post = lambda t: re.sub(rb"(<Range[^>]*>\s*)%d\s*-\s*%d(\s*<)" % (f, l), lambda m: m.group(1) + new + m.group(2), t)
        elif k == "huge":
            over["extra_ranges"] = "<Range> %d </Range>" % (1 << 62)
        elif k == "noblockmap":
            if not mapped:
                return None, None
            post = lambda t: re.sub(rb"<BlockMap>.*</BlockMap>", b"", t, flags=re.S)
        elif k == "noranges" or k == "dropall":
            if not mapped:
                return None, None
            del ranges[:]
            over["MappedBlocksCount"] = str(mapped)
        elif k == "emptyrange":
            over["extra_ranges"] = "<Range/>"
        elif k == "mapped-1":
            if not mapped:
                return None, None
            over["MappedBlocksCount"] = str(mapped - 1)
        elif k == "mapped+1":
            if mapped + 1 > n:
                return None, None
            over["MappedBlocksCount"] = str(mapped + 1)
        elif k == "extra":
            over["extra_ranges"] = "<Range> %d </Range>" % rng.randrange(n)
        elif k in ("dropped", "wider", "narrower"):
            if not ranges:
                return None, None
            over["MappedBlocksCount"] = str(mapped)
            i = rng.randrange(len(ranges))
            f, l = ranges[i]
            if k == "dropped":
                del ranges[i]
            elif k == "narrower":
                if f == l:
                    return None, None
                ranges[i] = (f, l - 1)
            else:
                if l + 1 >= n or (i + 1 < len(ranges) and ranges[i + 1][0] <= l + 1):
                    return None, None
                ranges[i] = (f, l + 1)
    elif kind == "xml":
        def post(t, k=a):
            import gzip
            return {"empty": b"", "spaces": b"   \n", "trunc": t[:-max(3, len(t) // 20)], "truncmid": t[:len(t) // 2],
                    "binary": rng.randbytes(300), "zeros": bytes(4096), "text": b"this is not a bmap\n", "json": b'{"bmap": 1}',
                    "tagmismatch": t.replace(b"</BlockSize>", b"</BlockSiz>"), "noroot": b'<?xml version="1.0" ?>\n',
                    "image": w.data[:5000], "twodocs": t + t, "badentity": t.replace(b"<ImageSize>", b"<ImageSize>&foo;", 1),
                    "badchar": t.replace(b"<ImageSize>", b"<ImageSize>\x01", 1), "unclosed": t.replace(b"</bmap>", b""),
                    "badattr": t.replace(b"<bmap version=", b"<bmap version"), "utf16cut": t.decode("latin-1").encode("utf-16")[:-41],
                    # entities which expand to gigabytes, or read other files
                    "bomb": entity(t, b"<!DOCTYPE b [<!ENTITY a0 'x'>%s]>" % b"".join(b"<!ENTITY a%d '%s'>" % (i + 1, b"&a%d;" % i * 20) for i in range(12)), b"&a12;"),
                    "quad": entity(t, b"<!DOCTYPE b [<!ENTITY a '%s'>]>" % (b"1" * 200000), b"&a;" * 5000),
                    "external": entity(t, b"<!DOCTYPE b [<!ENTITY a SYSTEM 'file:///etc/hostname'>]>", b"&a;"),
                    "deep": t.replace(b"<ImageSize>", b"<a>" * 100000 + b"</a>" * 100000 + b"<ImageSiz>", 1).replace(b"</ImageSize>", b"</ImageSiz>"),
                    "deepmap": t.replace(b"<BlocksCount>", b"<b>" * 100000, 1).replace(b"</BlocksCount>", b"</b>" * 100000, 1),
                    "gz": gzip.compress(t), "html": b"<html><body><p>404<br></body></html>"}[k]
    return cls, post


def entity(t, decl, use):
    """Use an entity in a range."""
    t = re.sub(rb"<bmap", lambda m: decl + b"<bmap", t, count=1)
    return t.replace(b"<MappedBlocksCount>", b"<MappedBlocksCount>" + use, 1)


def run_odd(case, env, r, rng):
    """Absurd, but consistent block sizes: right contents, or a readable error."""
    size = rng.choice([1, 511, 8192, 100000])
    bs = rng.choice([1 << 31, 1 << 32, (1 << 40) + 1, 1 << 62, (1 << 63) - 1, 1 << 63, 1 << 64, 1 << 70, 10 ** 30, 10 ** 4000])
    data = rng.randbytes(size)
    img = images.Img(size, [(0, data)])
    ip, bp, dp = env.path("img"), env.path("b"), env.path("dest")
    img.write(ip)
    ver = rng.choice(bmapref.VERSIONS)
    bm = bmapref.make(img, bs, [(0, 0)], ver, rng=rng)
    with open(bp, "wb") as f:
        f.write(bm if isinstance(bm, bytes) else bm.encode())
    q = cli.run(["copy", "--bmap", bp, ip, dp], dir=env.shm, limit_as=3 << 30, survivors=False, preload=False)
    what = "one block of %s bytes, image of %d bytes, v%s" % ("10^%d" % (bs.bit_length() / 3.3219) if bs > 1 << 100 else bs, size, ver)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
    elif q.rc == 0:
        r.check(images.read_file(dp) == data, "wrong-contents", "%s: success, but not the image" % what)
    else:
        r.check("ERROR" in q.text() or "memory" in q.text(), "unreadable-error", "%s: no readable error but a crash: %s" % (what, q.brief()))
    r.count("odd")
    r.key = what
    r.state("odd", bs.bit_length(), ver)
    r.sample = {"case": what, "result": q.rc}
    return r


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "odd":
        return run_odd(case, env, r, rng)
    w = gens.work(rng, bs=rng.choice([512, 1024, 4096, 1000, 65536]), maxbytes=rng.choice([20000, 200000]))
    ver = rng.choice(bmapref.VERSIONS + ("2.0",))
    cs = rng.choice(["sha256", "sha1", "md5", "sha512"])
    style = rng.choice(["official", "official", "compact", "airy"])
    ds = [tuple(case["d"])] if case["d"] else [rng.choice(defects()) for _ in range(2)]
    over, digests, posts, classes = {}, {}, [], []
    ranges = list(w.ranges)
    for d in ds:
        if d[0] == "R" and (any(x == "R" for x in classes) or "MappedBlocksCount" in over):
            continue  # two of these defects may cancel out
        if case["d"] is None and (d[1] in ("inconsistent",) or d[2] in ("MappedBlocksCount",) or "mapped" in str(d[2])) and classes:
            continue
        for _ in range(40):
            cls, post = break_it(rng, w, d, ver, over, ranges, digests)
            if cls is not None or case["d"] is None:
                break
            # the defect does not apply to this bmap: another one
            w = gens.work(rng, bs=rng.choice([512, 1024, 4096]), maxbytes=100000, minblocks=3, nonempty=True)
            ver = rng.choice(bmapref.VERSIONS + ("2.0", "1.3", "2.0"))
            over.clear(), digests.clear()
            ranges = list(w.ranges)
        if cls is None:
            continue
        classes.append(cls)
        if post:
            posts.append(post)
    if not classes:
        r.nontrivial = False
        return r
    digests = {i: "0" * 40 for i in digests}
    rcs = None if not digests else set(range(len(ranges))) - set(digests)
    try:
        if w.mapped != sum(l - f + 1 for f, l in ranges):
            over.setdefault("MappedBlocksCount", str(w.mapped))
        bm = bmapref.make(w.img, w.bs, ranges, ver, cs, style, rng, rcs, over)
        for p in posts:
            bm2 = p(bm)
            if bm2 == bm:
                r.nontrivial = False
                return r
            bm = bm2
        if posts and classes == ["R"] and bmapref.has_checksums(ver):
            # recompute the file checksum
            tag = b"BmapFileSHA1" if ver == "1.3" else b"BmapFileChecksum"
            m = re.search(rb"<" + tag + rb">\s*([0-9a-f]+)\s*<", bm)
            import hashlib
            h = m.group(1)
            bm = bm.replace(h, b"0" * len(h), 1)
            bm = bm.replace(b"0" * len(h), hashlib.new("sha1" if ver == "1.3" else cs, bm).hexdigest().encode(), 1)
    except Exception as e:
        r.inc("cannot make the bmap %s: %s" % (ds, e))
        return r
    header = any(c in "HVCX" for c in classes)
    ext = rng.choice(["", "", ".gz"])
    if any(d[1] == "inconsistent" and d[2].endswith("image") for d in ds):
        ext = ""
    ip, bp, dp = env.path("img" + ext), env.path("b.bmap"), env.path("dest")
    import gzip
    with open(ip, "wb") as f:
        f.write(gzip.compress(w.data, 1) if ext else w.data)
    with open(bp, "wb") as f:
        f.write(bm)
    old = rng.randbytes(w.size + 5000)
    with open(dp, "wb") as f:
        f.write(old)
    bdev = rng.random() < 0.4
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/"))]
    if bdev:
        conf.append(("bdev", "dest", 240, 9))
    verify = rng.random() < 0.5
    use_cli = case["t"] == "cli" or (case["t"] == "pair" and rng.random() < 0.15)
    if use_cli:
        r.count("cli")
        q = cli.run(["copy", "--bmap", bp] + ([] if verify else ["--no-verify"]) + [ip, dp], dir=env.shm, conf=conf)
        ok, ev, brief = q.rc == 0, q.events, q.brief()
        readable = "ERROR" in q.text()
    else:
        with Monitor(env, conf) as m:
            o = api.copy(ip, dp, bp, bdev=bdev, verify=verify, sync=False, use_trans=True, passsize=True)
        ok, ev, brief = o.ok, m.events, o.brief()
        readable = not o.ok and isinstance(o.error, api.KNOWN_ERRORS)
    what = "%s, v%s %s, %s, %s" % (ds, ver, style, "block device" if bdev else "file", "CLI" if use_cli else "API")
    r.check(not ok, "defect-accepted", "defective bmap led to success: %s" % what)
    if not ok:
        r.check(readable, "unreadable-error", "%s: no readable error but a crash: %s" % (what, brief))
        r.count("readable")
    if header:
        ws = gens.writes(ev)
        r.check(not ws, "header-written", "%s: the header is at fault but data were written (%s); %s" % (what, ws[:2], brief))
        r.count("header_refused")
        if "X" in classes:
            r.count("xml_refused")
    else:
        r.count("range_refused")
    r.key = "%s|%s|%s" % (images.sha(bm), bdev, use_cli)
    r.state(*[x for d in ds for x in d], ver)
    r.sample = {"defects": ds, "version": ver, "outcome": brief[-160:]}
    return r
