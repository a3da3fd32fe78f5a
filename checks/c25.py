"""C25: reported sizes, counts, percentages and times are accurate."""
import os
import random
import re
import time
from fractions import Fraction
from bmaptools import BmapCopy, BmapCreate, BmapHelpers
from vmon import api, bmapref, cli, core, gens, images, sources
from vmon.core import Result

PROP = "C25"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every reported number (API attributes, formatted strings, bmap comments, messages of the tool) is parsed back and "
             "compared with exact rational arithmetic on the known truth; clocks are monitored and manipulated at the libc boundary")
NOTE = ("Sizes of all magnitudes up to exabytes are formatted and parsed back; attributes are compared with the truth right after construction "
        "(synthetic bmaps of images up to exabytes), after copying (with and without bmap, known and unknown size), after creating bmaps for sparse "
        "images up to terabytes, and in the comments and messages. Durations are produced by delaying I/O and by moving the clocks. Sampled.")
RULE = "Sampled sizes, durations, layouts, sources. Non-trivial: at least one report was compared. Distinct by the numbers involved."
BATCH = 4
REQUIRE = {"sizes": 20000, "times": 8000, "parsed": 150, "copied": 100, "created": 60, "messages": 40, "durations": 8}

UNITS = {"KiB": 1, "MiB": 2, "GiB": 3, "TiB": 4, "PiB": 5, "EiB": 6, "ZiB": 7, "YiB": 8}


def cases(ctx):
    out = []
    for i in range(ctx.pick(24, 300)):
        out.append({"t": "size"})
    for i in range(ctx.pick(12, 150)):
        out.append({"t": "time"})
    for i in range(ctx.pick(300, 6000)):
        out.append({"t": "bmap"})
    for i in range(ctx.pick(200, 3000)):
        out.append({"t": "copy"})
    for i in range(ctx.pick(120, 2000)):
        out.append({"t": "create"})
    for i in range(ctx.pick(40, 500)):
        out.append({"t": "cli"})
    for i in range(ctx.pick(20, 200)):
        out.append({"t": "cli-bdev"})
    for i in range(ctx.pick(20, 200)):
        out.append({"t": "cli-create"})
    for i in range(ctx.pick(24, 240)):
        out.append({"t": "duration", "how": ("delay", "slow", "clock")[i % 3]})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


def size_ok(text, size):
    """Does 'text' denote 'size' with the displayed precision?  None or why not."""
    m = re.fullmatch(r"(\d+) (byte|bytes)", text)
    size = Fraction(size)
    if m:
        if (m.group(1) == "1") != (m.group(2) == "byte"):
            return "'%s' is not good English" % text
        if abs(int(m.group(1)) - size) >= 1:
            return "'%s' instead of %s bytes" % (text, float(size))
        return None
    m = re.fullmatch(r"(\d+)\.(\d) (\w+)", text)
    if not m or m.group(3) not in UNITS:
        return "'%s' cannot be understood" % text
    unit = 1024 ** UNITS[m.group(3)]
    v = Fraction(int(m.group(1) + m.group(2)), 10) * unit
    tol = Fraction(unit, 20) + size / 10 ** 12
    if abs(v - size) > tol:
        return "'%s' instead of %s bytes, which is %.4f %s" % (text, size, size / unit, m.group(3))
    if abs(v - size) > size * Fraction(11, 100):
        return "'%s' for %s bytes is too coarse" % (text, size)
    return None


def time_ok(text, secs, tol=Fraction(0)):
    m = re.fullmatch(r"(?:(\d+)h )?(?:(\d+)m )?(\d+\.\d)s", text)
    if not m:
        return "'%s' cannot be understood" % text
    h, mi, s = int(m.group(1) or 0), int(m.group(2) or 0), Fraction(m.group(3))
    v = h * 3600 + mi * 60 + s
    if abs(v - Fraction(secs)) > Fraction(1, 20) + Fraction(1, 10 ** 6) + tol:
        return "'%s' instead of %s s" % (text, float(secs))
    if s > 60 or mi > 59:
        return "'%s': minutes or seconds out of range" % text
    return None


def a_size(rng):
    k = rng.random()
    if k < 0.15:
        return rng.randint(1, 2000)
    if k < 0.35:
        u = 1024 ** rng.randint(0, 6)
        return max(1, u * rng.choice([1, 1, 10, 100, 512, 1000, 1023, 1024]) + rng.choice([0, 0, 1, -1, rng.randint(-u // 8, u // 8)]))
    if k < 0.55:
        return 1 << rng.randint(0, 69)
    if k < 0.65:
        return 10 ** rng.randint(0, 20) * rng.randint(1, 9)
    return rng.randint(1, 1 << rng.randint(1, 70))


def geometry(r, what, w, size, bs, mapped=None, percent=None, partial=None, written=True):
    """Compare the attributes of a writer or creator with the truth."""
    nb = (size + bs - 1) // bs

    def eq(name, want):
        got = getattr(w, name)
        r.check(got in want if isinstance(want, tuple) else got == want, name, "%s: %s is %r instead of %r" % (what, name, got, want))
        r.count("attributes")
    eq("image_size", size)
    eq("block_size", bs)
    eq("blocks_cnt", nb)
    hum = [("image_size_human", (size,))]
    if mapped is not None:
        # mapped size: of the blocks, or clipped at the end of the image
        msizes = (mapped * bs, partial) if partial is not None else (mapped * bs,)
        eq("mapped_cnt", mapped)
        eq("mapped_size", msizes)
        hum.append(("mapped_size_human", msizes))
    if size == 0:
        # nothing is promised about the format of "nothing"
        hum = []
    for name, wants in hum:
        got = getattr(w, name)
        why = None
        if not isinstance(got, str):
            r.bad(name, "%s: %s is %r" % (what, name, got))
            continue
        for want in wants:
            why = size_ok(got, want) if want else None
            if why is None:
                break
        r.check(why is None, name, "%s: %s: %s" % (what, name, why))
        r.count("attributes")
    if percent is not None:
        got = w.mapped_percent
        r.check(isinstance(got, (int, float)) and abs(Fraction(got) - percent) <= Fraction(1, 10 ** 6), "mapped_percent",
                "%s: mapped_percent is %r instead of %s" % (what, got, float(percent)))


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    return globals()["run_" + case["t"].replace("-", "_")](case, env, r, rng)


def run_size(case, env, r, rng):
    lst = []
    for i in range(1500):
        s = a_size(rng)
        if rng.random() < 0.2:
            s = float(s)
        t = BmapHelpers.human_size(s)
        why = size_ok(t, s)
        r.check(why is None, "human_size", "human_size(%r): %s" % (s, why))
        r.count("sizes")
        r.state("magnitude", len(str(int(s))), t.split()[1])
        lst.append(s)
    r.key = "size%d" % case["seed"]
    r.sample = {"sizes": [str(x) for x in lst[:3]]}
    return r


def run_time(case, env, r, rng):
    for i in range(1500):
        k = rng.random()
        if k < 0.3:
            s = rng.choice([0, 1, 59, 60, 61, 119, 120, 3599, 3600, 3601, 3660, 7199, 86399, 86400, 360000]) + rng.choice([0, 0, 0.25, -0.25, 0.5, 0.01, 0.9])
        elif k < 0.6:
            s = rng.uniform(0, 10 ** rng.randint(-2, 7))
        else:
            s = rng.randint(0, 10 ** rng.randint(1, 7))
        s = max(0, s)
        t = BmapHelpers.human_time(s)
        why = time_ok(t, s)
        r.check(why is None, "human_time", "human_time(%r): %s" % (s, why))
        r.count("times")
        r.state("time", len(str(int(s))), t.count(" "))
    r.key = "time%d" % case["seed"]
    r.sample = {"last": [s, t]}
    return r


class _F:
    """Just a name: constructing a BmapCopy object must not need the image."""

    def __init__(self, path):
        self.name = path


def run_bmap(case, env, r, rng):
    # geometry known from the bmap alone, images of all magnitudes
    version = rng.choice(bmapref.VERSIONS)
    bs = gens.pick_bs(rng)
    # no file is larger
    size = min(a_size(rng), (1 << 63) - 1 - rng.choice([0, 0, 1, 4096]))
    nb = (size + bs - 1) // bs
    if nb > 2000 and rng.random() < 0.8:
        ranges, b = [], 0
        while b < nb and len(ranges) < 30:
            f = min(nb - 1, b + rng.randint(0, max(1, nb // rng.choice([2, 10, 40]))))
            l = min(nb - 1, f + rng.randint(0, max(1, nb // rng.choice([2, 10, 40, 100000]))))
            ranges.append((f, l))
            b = l + 2
        ranges = [(f, l) for f, l in ranges]
    else:
        ranges = rng.choice([[], [(0, nb - 1)], [(0, 0)], [(nb - 1, nb - 1)], [(nb // 2, nb - 1)], [(0, nb // 3)]])
    img = images.Img(size, [])
    doc = bmapref.make(img, bs, ranges, version, digests={i: "0" * 40 for i in range(len(ranges))}, style=rng.choice(["official", "compact", "airy"]))
    bp = env.path("b.bmap")
    sources.put(bp, doc)
    dp = env.path("dest")
    what = "bmap %s of %d bytes, blocks of %d, ranges %s" % (version, size, bs, ranges[:4])
    mapped = sum(l - f + 1 for f, l in ranges)
    last = bool(ranges) and ranges[-1][1] == nb - 1
    partial = mapped * bs - (nb * bs - size if last else 0)
    given = rng.choice([None, None, 0, size])
    with open(dp, "w+b") as fd, open(bp, "rb") as fb:
        try:
            w = BmapCopy.BmapCopy(_F("img"), fd, fb, given)
        except BmapCopy.Error as e:
            r.bad("refused", "%s: %s" % (what, e))
            return r
        geometry(r, what, w, size, bs, mapped, Fraction(100 * mapped, nb), partial)
        r.check(w.bmap_version == version, "bmap_version", "%s: %r" % (what, w.bmap_version))
        r.check((w.bmap_version_major, w.bmap_version_minor) == tuple(int(x) for x in version.split(".")), "bmap_version_major",
                "%s: %r.%r" % (what, w.bmap_version_major, w.bmap_version_minor))
    r.count("parsed")
    r.key = what
    r.state("bmap", version, len(str(size)), last, size % bs == 0)
    r.sample = {"bmap": what}
    return r


def run_copy(case, env, r, rng):
    w = gens.work(rng, maxbytes=rng.choice([3000, 40000, 1500000]), odd=0.3)
    how = rng.choice(["plain", "plain", "gz", "unknown", "pipe", "bare"])
    usebmap = rng.random() < 0.45
    doc = None
    bp = None
    if usebmap:
        bp = env.path("b.bmap")
        version = rng.choice(bmapref.VERSIONS)
        sources.put(bp, bmapref.make(w.img, w.bs, w.ranges, version))
    ip = env.path("img")
    data = w.data
    if not usebmap and rng.random() < 0.05:
        data = b""
    use_trans, passsize, size = True, True, None
    if how == "gz":
        import gzip
        ip = env.path("img.gz")
        sources.put(ip, gzip.compress(data, 1))
    else:
        sources.put(ip, data)
        if how == "unknown":
            passsize = False
        elif how == "bare":
            use_trans = False
            size = len(data) if rng.random() < 0.5 else None
        elif how == "pipe":
            use_trans = False
    obj = None
    if how == "pipe":
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(wr)
        from bmaptools import TransRead
        save = os.dup(0)
        os.dup2(rd, 0)
        os.close(rd)
        obj = os.fdopen(0, "rb", closefd=False)
        obj = _Seq(obj, "-")
    known = size is not None or (passsize and how == "plain")
    what = "%d bytes %s, %s" % (len(data), how, "bmap %s blocks of %d ranges %s" % (version, w.bs, w.ranges[:4]) if usebmap else "no bmap")
    o = api.copy(ip, env.path("dest"), bmap=bp, size=size, use_trans=use_trans, passsize=passsize, image_obj=obj, sync=False)
    if how == "pipe":
        os.dup2(save, 0)
        os.close(save)
        os.waitpid(pid, 0)
    if not r.check(o.ok, "failed", "%s: %s" % (what, o.brief())):
        return r
    wr = o.writer
    if usebmap:
        nb = w.nblocks
        last = bool(w.ranges) and w.ranges[-1][1] == nb - 1
        partial = w.mapped * w.bs - (nb * w.bs - w.size if last else 0)
        geometry(r, what, wr, w.size, w.bs, w.mapped, Fraction(100 * w.mapped, nb), partial)
    else:
        nb = (len(data) + wr.block_size - 1) // wr.block_size
        geometry(r, what, wr, len(data), wr.block_size, nb, Fraction(100), len(data))
        r.check(wr.bmap_version == 0, "bmap_version", "%s: %r" % (what, wr.bmap_version))
    r.count("copied")
    r.state("copy", how, usebmap, known, len(data) % wr.block_size == 0, len(str(len(data))))
    r.key = what + images.sha(data)
    r.sample = {"copy": what}
    return r


class _Seq:
    """A source which can only be read."""

    def __init__(self, f, name):
        self._f, self.name, self._pos = f, name, 0

    def read(self, n=-1):
        b = self._f.read(n)
        self._pos += len(b)
        return b

    def tell(self):
        return self._pos

    def seek(self, off, whence=0):
        while off > self._pos:
            if not self.read(min(off - self._pos, 65536)):
                break


def sparse(rng, env):
    """A sparse image, sometimes huge; returns path, size, allocated blocks."""
    env.dir = env.disk if rng.random() < 0.5 else env.shm
    p = env.path("img")
    bsz = os.statvfs(env.dir).f_bsize
    k = rng.random()
    lim = (15 << 40) if env.dir == env.disk else (1 << 50)
    if k < 0.35:
        size = min(lim, rng.randint(1, 1 << rng.randint(1, 22)))
    elif k < 0.6:
        size = rng.choice([1, 511, 512, 1023, 1024, 4095, 4096, 4097, 1 << 20, (1 << 20) - 1, (1 << 20) + 1, (1 << 30), 10 << 30, 1 << 40])
    else:
        size = min(lim, rng.randint(1 << 22, 1 << rng.randint(23, 49)))
    nb = (size + bsz - 1) // bsz
    blocks = set()
    kind = rng.choice(["none", "all", "few", "few", "few", "ends", "allbut"])
    if kind == "all" and nb <= 2000:
        blocks = set(range(nb))
    elif kind == "allbut" and 1 < nb <= 4000:
        blocks = set(range(nb)) - {rng.randrange(nb)}
    elif kind == "ends":
        blocks = {0, nb - 1}
    elif kind != "none":
        for i in range(rng.randint(1, 5)):
            a = rng.randrange(nb)
            blocks.update(range(a, min(nb, a + rng.randint(1, 40))))
    fd = os.open(p, os.O_RDWR | os.O_CREAT)
    os.ftruncate(fd, size)
    for f, l in images.ranges_of(blocks):
        os.pwrite(fd, b"\x5a" * (min(size, (l + 1) * bsz) - f * bsz), f * bsz)
    if env.dir == env.disk:
        os.fsync(fd)
    os.close(fd)
    return p, size, bsz, blocks, nb


def comments(r, what, doc, size, mapped, bs, nb, partial):
    """Numbers in the commentaries."""
    text = doc.decode()
    m = re.search(r"<!-- Image size in bytes: (.*?)\s*-->", text)
    if m:
        why = size_ok(m.group(1), size)
        r.check(why is None, "comment-size", "%s: %s" % (what, why))
        r.count("comments")
    m = re.search(r"<!-- Count of mapped blocks: (.*?) or (\S*?)%\s*-->", text)
    if m:
        whys = [size_ok(m.group(1), x) if x else (None if m.group(1).startswith("0") else m.group(1)) for x in {mapped * bs, partial}]
        r.check(None in whys, "comment-mapped", "%s: %s" % (what, whys))
        try:
            ok = abs(Fraction(m.group(2)) - Fraction(100 * mapped, nb)) <= Fraction(51, 1000)
        except ValueError:
            ok = False
        r.check(ok, "comment-percent", "%s: '%s%%' instead of %.3f%%" % (what, m.group(2), 100 * mapped / nb))
        r.count("comments")
    elif re.search("Count of mapped blocks:", text):
        r.bad("comment-mapped", "%s: %r" % (what, re.search("<!-- Count of mapped blocks:.{0,80}", text, re.S).group(0)))


def truth(size, bs, nb, blocks):
    mapped = len(blocks)
    return mapped, mapped * bs - (nb * bs - size if nb - 1 in blocks else 0)


def run_create(case, env, r, rng):
    p, size, bs, blocks, nb = sparse(rng, env)
    bp = env.path("out.bmap")
    mapped, partial = truth(size, bs, nb, blocks)
    what = "create for %d bytes, blocks of %d, %d mapped" % (size, bs, mapped)
    o = api.create(p, bp, include=len(blocks) < 5000 and rng.random() < 0.7)
    if not r.check(o.ok, "failed", "%s: %s" % (what, o.brief())):
        return r
    del o.writer.filemap  # done with it
    doc_w = o.writer
    geometry(r, what, doc_w, size, bs, mapped, Fraction(100 * mapped, nb), partial)
    doc_w._f_bmap.flush()
    doc = images.read_file(bp)
    b = bmapref.parse(doc)
    r.check((b.image_size, b.block_size, b.blocks_cnt, b.mapped_cnt) == (size, bs, nb, mapped), "bmap-fields",
            "%s: fields are %s" % (what, (b.image_size, b.block_size, b.blocks_cnt, b.mapped_cnt)))
    comments(r, what, doc, size, mapped, bs, nb, partial)
    r.count("created")
    r.key = what + str(images.ranges_of(blocks)[:5])
    r.state("create", len(str(size)), size % bs == 0, mapped in (0, nb))
    r.sample = {"create": what}
    return r


def run_cli(case, env, r, rng):
    w = gens.work(rng, maxbytes=rng.choice([3000, 40000, 4000000]), odd=0.3)
    ip, bp, dp = env.path("img"), env.path("img.bmap"), env.path("out")
    version = rng.choice(bmapref.VERSIONS)
    sources.put(ip, w.data)
    sources.put(bp, bmapref.make(w.img, w.bs, w.ranges, version))
    what = "%d bytes, blocks of %d, ranges %s" % (w.size, w.bs, w.ranges[:4])
    q = cli.run(["copy", ip, dp], dir=env.shm)
    if not r.check(q.rc == 0, "failed", "%s: %s" % (what, q.brief())):
        return r
    t = q.text()
    last = bool(w.ranges) and w.ranges[-1][1] == w.nblocks - 1
    partial = w.mapped * w.bs - (w.nblocks * w.bs - w.size if last else 0)
    m = re.search(r"(\d+) blocks of size (\d+) \((.*?)\), mapped (\d+) blocks \((.*?) or (\S+?)%\)", t)
    if m:
        r.check((int(m.group(1)), int(m.group(2)), int(m.group(4))) == (w.nblocks, w.bs, w.mapped), "message-counts", "%s: %s" % (what, m.group(0)))
        why = size_ok(m.group(3), w.size)
        r.check(why is None, "message-size", "%s: %s" % (what, why))
        if w.mapped:
            whys = [size_ok(m.group(5), x) for x in (w.mapped * w.bs, partial)]
            r.check(None in whys, "message-mapped", "%s: %s" % (what, whys))
        else:
            r.check(m.group(5).startswith("0"), "message-mapped", "%s: %s" % (what, m.group(5)))
        r.check(abs(Fraction(m.group(6)) - Fraction(100 * w.mapped, w.nblocks)) <= Fraction(51, 1000), "message-percent", "%s: %s" % (what, m.group(0)))
        r.count("messages")
    m = re.search(r"format version (\S+)", t)
    if m:
        r.check(m.group(1) == version, "message-version", "%s: %s, not %s" % (what, m.group(1), version))
        r.count("messages")
    if not m:
        r.nontrivial = False
    r.key = what
    r.state("cli", version, len(str(w.size)))
    r.sample = {"cli": what}
    return r


def run_cli_bdev(case, env, r, rng):
    # image does not fit the block device
    w = gens.work(rng, maxbytes=rng.choice([3000, 40000, 4000000]), odd=0.3)
    while w.size < 2:
        w = gens.work(rng, maxbytes=40000)
    ip, bp, dp = env.path("img"), env.path("img.bmap"), env.path("dev")
    sources.put(ip, w.data)
    cap = rng.randint(1, w.size - 1)
    old = rng.randbytes(cap)
    sources.put(dp, old)
    args = ["copy"]
    if rng.random() < 0.5:
        sources.put(bp, bmapref.make(w.img, w.bs, w.ranges))
    else:
        args.append("--nobmap")
    what = "%d bytes on a device of %d" % (w.size, cap)
    q = cli.run(args + [ip, dp], dir=env.shm, conf=[("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)])
    r.check(q.rc not in (0, None), "not-refused", "%s: %s" % (what, q.brief()))
    m = re.search(r"has size (\d[\d.]* \w+).*?which has (\d[\d.]* \w+) capacity", q.text(), re.S)
    if m:
        for got, want in ((m.group(1), w.size), (m.group(2), cap)):
            why = size_ok(got, want)
            r.check(why is None, "message-fit", "%s: %s" % (what, why))
        r.count("messages")
    else:
        r.nontrivial = False
    r.check(images.read_file(dp) == old, "device-changed", what)
    r.key = what
    r.state("fit", len(str(w.size)), len(str(cap)))
    r.sample = {"bdev": what}
    return r


def run_cli_create(case, env, r, rng):
    p, size, bs, blocks, nb = sparse(rng, env)
    mapped, partial = truth(size, bs, nb, blocks)
    what = "create for %d bytes, %d of %d blocks mapped" % (size, mapped, nb)
    q = cli.run(["create", p] + (["--no-checksum"] if rng.random() < 0.4 or mapped > 5000 else []), dir=env.shm)
    if not r.check(q.rc == 0, "failed", "%s: %s" % (what, q.brief())):
        return r
    comments(r, what, q.out, size, mapped, bs, nb, partial)
    m = re.search(r"all (\d[\d.]* \w+) are mapped", q.text())
    if m:
        r.check(mapped == nb, "false-warning", "%s: %s" % (what, m.group(0)))
        why = size_ok(m.group(1), size)
        r.check(why is None, "message-all-mapped", "%s: %s" % (what, why))
        r.count("messages")
    elif mapped == nb and size:
        r.count("no-warning")
    r.key = what
    r.state("cli-create", len(str(size)), mapped == nb)
    r.sample = {"create": what}
    return r


def run_duration(case, env, r, rng):
    """How long the copy took, and its speed."""
    w = gens.work(rng, maxbytes=rng.choice([3000, 400000, 4000000]), odd=0.2, nonempty=True)
    ip, bp, dp = env.path("img"), env.path("img.bmap"), env.path("out")
    sources.put(ip, w.data)
    args = ["copy"]
    nobmap = rng.random() < 0.3
    if nobmap:
        args.append("--nobmap")
    else:
        sources.put(bp, bmapref.make(w.img, w.bs, w.ranges))
    how = case["how"]
    # the last fsync() happens in the final synchronization
    op = rng.choice(["write", "fsync"])
    if how == "delay":
        lo = rng.choice([0.2, 0.5, 1.2])
        conf = [("fault", "dest", op, 1, 1, "delay", int(lo * 1000000))]
    elif how == "slow":
        lo = rng.choice([3, 59, 60, 61, 119, 3599, 3600, 3725, 86400, 400000]) + rng.choice([0, 0, rng.randint(0, 5000)])
        conf = [("fault", "dest", op, 1, 1, "slow", lo)]
    else:
        # the wall clock gets set while copying
        lo = 0
        conf = [("fault", "dest", op, 1, 1, "clock", rng.choice([-1, -60, -3600, -86400, -5000000, 60, 3600, 1000000000]))]
    what = "%d bytes%s, %s" % (w.size, " without bmap" if nobmap else "", conf[0])
    t0 = time.monotonic()
    q = cli.run(args + [ip, dp], dir=env.shm, conf=[("track", "dest", dp)] + conf)
    hi = time.monotonic() - t0 + (lo if how == "slow" else 0)
    if not r.check(q.rc == 0, "failed", "%s: %s" % (what, q.brief())):
        return r
    m = re.search(r"copying time: (.*?), copying speed (.*?)/sec", q.text())
    if not m:
        r.nontrivial = False
        return r
    mt = re.fullmatch(r"(?:(-?\d+)h )?(?:(-?\d+)m )?(-?\d+\.\d)s", m.group(1))
    if not r.check(mt is not None, "time-format", "%s: %s" % (what, m.group(1))):
        return r
    secs = int(mt.group(1) or 0) * 3600 + int(mt.group(2) or 0) * 60 + float(mt.group(3))
    if r.check(lo - 0.06 <= secs <= hi + 0.06, "copying-time", "%s: reported '%s', but it took from %.2f to %.2f s" % (what, m.group(1), lo, hi)):
        total = w.size if nobmap else w.mapped * w.bs
        smallest = w.size if nobmap else sum(e - s for s, e in gens.byte_ranges(w))
        tmin, tmax = max(lo, secs - 0.051), min(hi, secs + 0.051)
        sp = parse_size(m.group(2))
        if r.check(sp is not None, "speed-format", "%s: %s" % (what, m.group(2))):
            lim = (smallest / tmax * 0.94 - 1.5, total / tmin * 1.06 + 1.5 if tmin > 0 else float("inf"))
            r.check(lim[0] <= sp <= lim[1], "copying-speed", "%s: '%s' for %d bytes in %s" % (what, m.group(2), total, m.group(1)))
    r.count("durations")
    r.key = what
    r.state("duration", how, op, len(str(int(secs))))
    r.sample = {"duration": what, "reported": m.group(0)}
    return r


def parse_size(t):
    m = re.fullmatch(r"(\d+) bytes?", t)
    if m:
        return int(m.group(1))
    m = re.fullmatch(r"(\d+\.\d) (\w+)", t)
    if m and m.group(2) in UNITS:
        return float(m.group(1)) * 1024 ** UNITS[m.group(2)]
    return None
