"""C10: reported mapped ranges cover all data and partition the file."""
import bisect
import os
import random
from bmaptools import Filemap
from vmon import api, core, images
from vmon.core import Monitor, Result

PROP = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: oracle over recorded query/answer histories of both hole-detection classes on real and emulated maps"
NOTE = ("Histories of window queries, per-block queries and interleaved iterations on real sparse files (ext4 FIEMAP, ext4 and "
        "tmpfs SEEK_HOLE) and on files whose FIEMAP or SEEK_HOLE answers are emulated at the libc boundary (many extents, split "
        "extents, clipped or unclipped replies, fine granularity) are compared with the generator's ground truth. Sampled; "
        "trusts the kernel's maps and the emulation.")
RULE = ("An evaluation is one file with one class and a history of up to 60 queries. Non-trivial: the class could be used "
        "on the file. Distinct by file layout, class and window list.")
BATCH = 12
REQUIRE = {"windows": 5000, "block_queries": 5000, "interleaved": 200, "many_extents": 4, "real_fiemap": 60}


def cases(ctx):
    out = [{"seed": ctx.sub("a", i), "t": t} for i in range(ctx.pick(260, 5000))
           for t in ("seek-tmpfs", "seek-emul", "fiemap-emul")]
    out += [{"seed": ctx.sub("d", i), "t": t} for i in range(ctx.pick(70, 900)) for t in ("fiemap-ext4", "seek-ext4")]
    out += [{"seed": ctx.sub("m", i), "t": "many", "on": on} for i in range(ctx.pick(3, 20)) for on in ("emul", "ext4")]
    ctx.rng("order").shuffle(out)
    return out


class Truth:
    """mapped: blocks reported as mapped by the file system; data: blocks with non-zero bytes."""


def truth_of(img, bs, ext=None):
    t = Truth()
    t.n = (img.size + bs - 1) // bs
    t.data = set()
    for o, d in img.segs:
        for b in range(o // bs, (o + len(d) - 1) // bs + 1) if d else ():
            s, e = max(o, b * bs), min(o + len(d), (b + 1) * bs)
            if d[s - o:e - o].count(0) != e - s:
                t.data.add(b)
    t.mapped = set()
    for o, n in ext if ext is not None else [(o, len(d)) for o, d in img.segs]:
        o, e = max(0, o), min(o + n, img.size)
        if e > o:
            t.mapped.update(range(o // bs, (e - 1) // bs + 1))
    return t


def judge(r, what, kind, got, want_all, start, count):
    """A list of ranges must be ascending, disjoint, non-empty and inside the window."""
    prev = start - 1
    blocks = set()
    for x in got:
        try:
            f, l = x
        except (TypeError, ValueError):
            return r.bad("bad-range", "%s: %s yielded %r" % (what, kind, x))
        if f > l or f <= prev or l > start + count - 1 or not isinstance(f, int) or not isinstance(l, int):
            r.bad("bad-range", "%s: %s ranges of window (%d, %d) are %s" % (what, kind, start, count, got[:20]))
            return None
        blocks.update(range(f, l + 1))
        prev = l
    return blocks


def windows(rng, n, k):
    out = [(0, n)]
    for _ in range(k):
        s = rng.randrange(n)
        out.append((s, rng.choice([1, 1, 2, rng.randint(1, n - s), n - s]) if rng.random() < 0.9 else n - s))
    return [(s, min(c, n - s)) for s, c in out]


def history(r, rng, fm, t, exact, what, nw=14):
    n = t.n
    if not r.check(fm.blocks_cnt == n, "blocks-count", "%s: blocks_cnt %s instead of %d" % (what, fm.blocks_cnt, n)):
        return
    for start, count in windows(rng, n, nw):
        mode = rng.choice(["plain", "plain", "plain", "blocks", "both"])
        mi, ui = fm.get_mapped_ranges(start, count), fm.get_unmapped_ranges(start, count)
        if mode == "plain":
            m = list(mi)
            u = list(ui)
        elif mode == "blocks":
            # per-block queries while iterating
            m = []
            for x in mi:
                m.append(x)
                fm.block_is_mapped(rng.randrange(n))
            u = []
            for x in ui:
                u.append(x)
                fm.block_is_unmapped(rng.randrange(n))
            r.count("interleaved")
        else:
            # two iterations side by side, another window in between
            m, u = [], []
            its = [(iter(mi), m), (iter(ui), u)]
            other = None
            while its:
                k = rng.randrange(len(its))
                try:
                    its[k][1].append(next(its[k][0]))
                except StopIteration:
                    its.pop(k)
                if rng.random() < 0.2:
                    s = rng.randrange(n)
                    other = fm.get_mapped_ranges(s, n - s)
                    next(iter(other), None)
            r.count("interleaved")
        r.count("windows")
        w = "%s, window (%d, %d), %s" % (what, start, count, mode)
        bm, bu = judge(r, w, "mapped", m, t, start, count), judge(r, w, "unmapped", u, t, start, count)
        if bm is None or bu is None:
            return
        win = set(range(start, start + count))
        if bm & bu:
            return r.bad("overlap", "%s: blocks %s are reported mapped and unmapped" % (w, sorted(bm & bu)[:5]))
        if bm | bu != win:
            return r.bad("not-covered", "%s: blocks %s are in neither list" % (w, sorted(win - bm - bu)[:5]))
        lost = (t.data & win) - bm
        if lost:
            return r.bad("data-unmapped", "%s: blocks %s hold data but are reported unmapped" % (w, sorted(lost)[:5]))
        if exact and bm != t.mapped & win:
            return r.bad("hole-mapped", "%s: holes %s are reported mapped, data %s unmapped" % (
                w, sorted(bm - t.mapped)[:5], sorted((t.mapped & win) - bm)[:5]))
        qs = [rng.randrange(start, start + count) for _ in range(6)] + [start, start + count - 1]
        for f, l in rng.sample(m, min(2, len(m))) + rng.sample(u, min(2, len(u))):
            qs += [f, l]
        for b in qs:
            x, y = fm.block_is_mapped(b), fm.block_is_unmapped(b)
            r.count("block_queries")
            if bool(x) != (b in bm) or bool(y) == (b in bm):
                return r.bad("block-query", "%s: block_is_mapped(%d)=%s, block_is_unmapped=%s, the ranges say %s" % (
                    w, b, x, y, b in bm))


def put_ext(env, name, ext):
    p = env.path(name)
    with open(p, "w") as f:
        for o, n in ext:
            f.write("%d %d 0\n" % (o, n))
    return p


def split(rng, ext, unit):
    """Split extents into adjacent ones at multiples of unit."""
    out = []
    for o, n in ext:
        while n > unit and rng.random() < 0.5:
            k = unit * rng.randint(1, max(1, min(n // unit, 8)))
            if k >= n:
                break
            out.append((o, k))
            o, n = o + k, n - k
        out.append((o, n))
    return out


def use(r, cls, path, byobj):
    f = None
    try:
        if byobj:
            f = open(path, "rb")
            return cls(f), f
        return cls(path), None
    except Filemap.ErrorNotSupp as e:
        r.inc("%s is not supported here: %s" % (cls.__name__, e))
        return None, f


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    t = case["t"]
    byobj = rng.random() < 0.3
    if t == "many":
        # more extents than fit one FIEMAP reply, and block numbers well beyond 2^16
        n = rng.choice([9400, 4681 * 2, 14100, 9359])
        bs = 4096
        blocks = range(0, 2 * n, 2)
        size = 2 * n * bs - rng.choice([0, 1, bs])
        if case["on"] == "ext4":
            p = os.path.join(env.disk, "img")
            fd = os.open(p, os.O_CREAT | os.O_RDWR, 0o644)
            os.ftruncate(fd, size)
            for b in blocks:
                if b * bs < size:
                    os.pwrite(fd, b"x", b * bs)
            os.close(fd)
            conf = [("track", "image", p)]
        else:
            p = env.path("img")
            with open(p, "wb") as f:
                f.truncate(size)
            conf = [("track", "image", p), ("fiemap", "image", rng.choice(["emul", "clip"]),
                                            put_ext(env, "ext", [(b * bs, bs) for b in blocks if b * bs < size]))]
        img = images.Img(size, [(b * bs, b"x") for b in blocks if b * bs < size])
        tr = truth_of(img, bs)
        with Monitor(env, conf) as m:
            fm, f = use(r, Filemap.FilemapFiemap, p, byobj)
            if fm:
                history(r, rng, fm, tr, True, "%d extents (%s)" % (n, case["on"]), 4)
        r.count("many_extents")
        r.state("many", case["on"], n)
        r.key = "%s|%d|%s" % (case["on"], n, size)
        return r
    img = images.gen(rng, maxsize=3 << 20)
    ondisk = t.endswith("ext4")
    p = img.write(os.path.join(env.disk if ondisk else env.shm, "img"))
    conf = [("track", "image", p)]
    bs, exact, ext, what = 4096, True, None, t
    if t == "seek-emul":
        gran = rng.choice([1, 512, 512, 1024, 4096, 4096, 65536, 1000])
        bs = rng.choice([512, 1024, 2048, 4096, 4096, 8192, 16384, 65536, 131072])
        ext = []
        for o, d in img.segs:
            s, e = o // gran * gran, -(-(o + len(d)) // gran) * gran
            if ext and ext[-1][0] + ext[-1][1] >= s:
                ext[-1][1] = max(e, ext[-1][0] + ext[-1][1]) - ext[-1][0]
            else:
                ext.append([s, e - s])
        conf += [("figetbsz", "image", bs), ("trackdir", "dir", env.shm), ("holes", "image", "emul", put_ext(env, "ext", ext))]
        what = "seek-emul granularity %d block size %d size %d" % (gran, bs, img.size)
    elif t == "fiemap-emul":
        bs = rng.choice([512, 1024, 4096, 4096, 4096, 8192, 65536])
        ext = []
        for o, d in img.segs:
            s, e = o // bs * bs, -(-(o + len(d)) // bs) * bs
            if ext and ext[-1][0] + ext[-1][1] >= s:
                ext[-1] = (ext[-1][0], max(e, ext[-1][0] + ext[-1][1]) - ext[-1][0])
            else:
                ext.append((s, e - s))
        if rng.random() < 0.2:
            # preallocated beyond the end
            e = -(-img.size // bs) * bs
            ext.append((e, bs * rng.randint(1, 5)))
        sp = split(rng, ext, bs) if rng.random() < 0.6 else ext
        conf += [("figetbsz", "image", bs), ("fiemap", "image", rng.choice(["emul", "clip"]), put_ext(env, "ext", sp))]
        what = "fiemap-emul block size %d size %d" % (bs, img.size)
    elif t == "seek-tmpfs":
        pass
    elif t == "fiemap-ext4" and rng.random() < 0.4:
        # preallocated (unwritten) extents, also beyond the end of the file
        fd = os.open(p, os.O_RDWR)
        o = rng.randrange(img.size)
        n = rng.randint(1, 300000)
        try:
            os.posix_fallocate(fd, o, min(n, img.size - o))
            exact = False
        except OSError:
            pass
        os.close(fd)
    cls = Filemap.FilemapSeek if t.startswith("seek") else Filemap.FilemapFiemap
    with Monitor(env, conf) as m:
        fm, f = use(r, cls, p, byobj)
        if fm:
            if not r.check(fm.block_size == bs, "block-size", "%s: block size is %s" % (what, fm.block_size)):
                return r
            tr = truth_of(img, bs, ext)
            history(r, rng, fm, tr, exact, "%s %s" % (what, img.kind))
            if t == "fiemap-ext4":
                r.count("real_fiemap")
    r.count("fiemap_calls", sum(1 for e in m.events if e.op == "ioctl" and e.extra.startswith("fiemap")))
    r.count("seek_calls", sum(1 for e in m.events if e.op in ("seekdata", "seekhole")))
    r.key = "%s|%s|%s" % (t, img.size, images.sha(repr([(o, len(d)) for o, d in img.segs]).encode()))
    r.state(t, bs, img.kind, byobj)
    r.sample = {"class": cls.__name__, "map": t, "block_size": bs, "size": img.size, "kind": img.kind}
    return r
