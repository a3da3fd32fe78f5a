"""C21: progress reports are truthful and purely decorative."""
import errno
import os
import random
import re
import select
import stat
import threading
import time
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C21"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: online checker comparing each reported percentage with the blocks handed to the destination so far"
NOTE = ("API copies with a recording progress file and a counting destination: every percentage is compared with the fraction of mapped blocks "
        "written at that very moment. Command-line copies on a pseudo terminal and with psplash pipes that are read, full, unread, closed "
        "midway, removed, failing, missing or of the wrong type; reports must be monotonic within 0..100 and end with 100, and "
        "verdict and destination must be the same as without the pipe. Samples images, block sizes, ranges and sources.")
RULE = ("Sampled works x indicator kind x pipe state x ending. Non-trivial: at least one report was possible. Distinct by image, layout, cell.")
BATCH = 6
REQUIRE = {"reports": 2000, "compared": 1200, "complete": 200, "tty": 60, "psplash_lines": 70, "psplash_bad": 70, "unknown": 40}

PIPES = ("read", "read", "slow", "unread", "full", "closed-midway", "removed", "missing", "regular", "directory", "symlink", "dangling", "null",
         "open-eacces", "write-epipe", "write-eagain", "open-enoent", "close-eio", "loop")


def cases(ctx):
    out = []
    for i in range(ctx.pick(700, 6000)):
        out.append({"seed": ctx.sub("a", i), "t": "api"})
    for i in range(ctx.pick(150, 1500)):
        out.append({"seed": ctx.sub("t", i), "t": "tty"})
    for i in range(ctx.pick(10, 120)):
        for p in PIPES:
            out.append({"seed": ctx.sub("p", i, p), "t": "pipe", "pipe": p, "cli": i % 3 != 2})
    ctx.rng("order").shuffle(out)
    return out


class Dest:
    """Counts what is handed to it."""

    def __init__(self, f):
        self.f, self.name, self.nbytes, self.last = f, f.name, 0, 0

    def write(self, b):
        self.last = self.nbytes
        n = self.f.write(b)
        self.nbytes += len(b)
        return n

    def writelines(self, bufs):
        for b in bufs:
            self.write(b)

    def __getattr__(self, n):
        return getattr(self.f, n)


class Progress:
    """What the indicator writes, together with the state of the destination."""

    def __init__(self, dest):
        self.dest, self.text, self.log = dest, "", []

    def write(self, s):
        self.text += s
        self.log.append((s, self.dest.nbytes, self.dest.last))

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def sequence(r, what, pct, complete, mapped):
    for a, b in zip(pct, pct[1:]):
        if b < a:
            r.bad("decreasing", "%s: %d%% after %d%%" % (what, b, a))
            break
    for x in pct:
        if not 0 <= x <= 100:
            r.bad("out-of-range", "%s: %d%%" % (what, x))
            break
    r.count("reports", len(pct))
    if complete and mapped:
        if not pct or pct[-1] != 100:
            r.bad("incomplete", "%s: the copy succeeds, but the last report is %s" % (what, pct[-1] if pct else "missing"))
        else:
            r.count("complete")


def blocks(n, w):
    """Number of blocks for bytes written."""
    return (n + w.bs - 1) // w.bs


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    w = gens.work(rng, maxbytes=rng.choice([50000, 1 << 20, 6 << 20]), odd=0.3, nonempty=rng.random() < 0.95)
    w.ip = sources.put(env.path("img"), w.data)
    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "2.0", "1.3", "1.2"]), rng=rng)
    bp = env.path("b")
    with open(bp, "wb") as f:
        f.write(doc.encode() if isinstance(doc, str) else doc)
    if case["t"] == "api":
        return run_api(case, env, r, rng, w, bp)
    if case["t"] == "tty":
        return run_tty(case, env, r, rng, w, bp)
    return run_pipe(case, env, r, rng, w, bp)


def run_api(case, env, r, rng, w, bp):
    from bmaptools import BmapCopy
    how = rng.choice(["bmap", "bmap", "bmap", "nobmap", "unknown", "corrupt"])
    if how in ("nobmap", "unknown"):
        w.bs = 4096
        w.nblocks = (w.size + 4095) // 4096
        w.ranges = [(0, w.nblocks - 1)]
        w.mapped = w.nblocks
    if how == "corrupt" and w.ranges:
        b = bytearray(w.data)
        b[gens.byte_ranges(w)[-1][1] - 1] ^= 1
        sources.put(w.ip, bytes(b))
    bdev = rng.random() < 0.25
    dp = env.path("dest")
    sources.put(dp, b"\0" * w.size)
    fmt = rng.choice([None, None, "Copied %d%%", "%d", "progress: %d of 100", "[%3d%%] <img>"])
    conf = [("track", "image", w.ip)]
    if rng.random() < 0.4:
        conf.append(("jitter", "image", "read", 3000, rng.randrange(1 << 30)))
    if bdev:
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/"))]
    ok, err = False, ""
    with Monitor(env, conf):
        with open(w.ip, "rb") as fi, open(dp, "r+b") as fo, open(bp, "rb") as fb:
            d = Dest(fo)
            p = Progress(d)
            try:
                cls = BmapCopy.BmapBdevCopy if bdev else BmapCopy.BmapCopy
                wr = cls(fi, d, fb if how in ("bmap", "corrupt") else None, w.size if how == "nobmap" else None)
                wr.set_progress_indicator(p, fmt)
                wr.copy(False, rng.random() < 0.8 or how == "corrupt")
                ok = True
            except BmapCopy.Error as e:
                err = str(e)
    what = "%s, %d bytes in blocks of %d, %d ranges, %d blocks mapped" % (how, w.size, w.bs, len(w.ranges), w.mapped)
    r.check(ok or how == "corrupt", "failed", "%s: %s" % (what, err))
    m = re.fullmatch(r"(.*)%3?d(.*)", (fmt or "Copied %d%%").replace("%%", "\0"))
    pre, post = (x.replace("\0", "%") for x in m.groups())
    rx = re.compile(r"(?<![\[\d])" + re.escape(pre) + r" *(-?\d+)(?![\dA])" + re.escape(post))
    pct = []
    if ok and w.mapped and not d.nbytes:
        r.inc("%s: the writes were not seen" % what)
        return r
    for s, now, last in p.log:
        m = rx.search(s)
        if not m:
            continue
        x = int(m.group(1))
        pct.append(x)
        if w.mapped and how != "unknown":
            hi = blocks(now, w) * 100 / w.mapped if how != "nobmap" else max(now / w.size * 100, blocks(now, w) * 100 / w.mapped)
            lo = (last // w.bs) * 100 / w.mapped
            r.count("compared")
            if x >= 100 and how != "nobmap" and (blocks(now, w) < w.mapped):
                r.bad("untruthful", "%s: reported %d%% when %d of %d blocks were written" % (what, x, blocks(now, w), w.mapped))
                break
            if not lo - 1.001 <= x <= hi + 0.001 and not (now and x <= hi + 1 and x >= lo - 1.001):
                r.bad("untruthful", "%s: reported %d%% when %.2f%% were written (%d bytes)" % (what, x, hi, now))
                break
    if how == "unknown":
        r.count("unknown")
        r.check(not pct or (ok and pct[-1] <= 100), "percentage-of-unknown", "%s: reports %s" % (what, pct[:5]))
        early = [x for x in pct if x]
        r.check(not early, "percentage-of-unknown", "%s: reports %s although the size is not known" % (what, early[:5]))
    else:
        sequence(r, what, pct, ok, w.mapped)
        if how == "corrupt" and not ok and len(pct) > w.mapped:
            r.bad("too-many", what)
    r.nontrivial = bool(w.mapped)
    r.key = "%s|%s" % (what, images.sha(w.data))
    r.state("api", how, bdev, fmt, len(pct) > 1, ok)
    r.sample = {"case": what, "reports": pct[:8], "last": pct[-1:] or None}
    return r


def parse_tty(raw):
    return [int(x) for x in re.findall(rb"(-?\d+)% copied", raw)]


def run_tty(case, env, r, rng, w, bp):
    kind = rng.choice(["bmap", "bmap", "nobmap", "gz-bmap", "gz-nobmap", "corrupt", "quiet", "debug"])
    data = w.data
    if kind == "corrupt" and w.ranges:
        b = bytearray(data)
        b[gens.byte_ranges(w)[-1][1] - 1] ^= 1
        data = bytes(b)
        doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
        with open(bp, "wb") as f:
            f.write(doc.encode() if isinstance(doc, str) else doc)
    ext = ".gz" if kind.startswith("gz") else ""
    ip = sources.put(env.path("image" + ext), comp.compress(data, ext))
    usebmap = "nobmap" not in kind
    dp = env.path("dest")
    args = (["-q"] if kind == "quiet" else ["-d"] if kind == "debug" else []) + ["copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + [ip, dp]
    q = cli.run(args, dir=env.shm, conf=[], tty=True, survivors=False)
    r.count("tty")
    what = "%s on a terminal, %d bytes in blocks of %d, %d blocks mapped" % (kind, w.size, w.bs, w.mapped)
    if q.hang:
        r.bad("hang", what + ": " + q.hang)
        return r
    want_ok = not (kind == "corrupt" and w.ranges)
    r.check((q.rc == 0) == want_ok, "failed", "%s: rc=%s %s" % (what, q.rc, q.err[-300:]))
    pct = parse_tty(q.err)
    known = usebmap or kind in ("nobmap", "quiet", "debug")
    mapped = w.mapped if usebmap else 1
    if kind in ("quiet", "debug"):
        r.check(not pct or kind == "debug", "not-quiet", "%s: %r" % (what, q.err[:200]))
    elif known:
        sequence(r, what, pct, q.rc == 0, mapped)
    else:
        r.count("unknown")
        r.check(not pct, "percentage-of-unknown", "%s: %s" % (what, pct[:4]))
    if q.rc == 0:
        got = images.read_file(dp)
        want = gens.expected(w, b"", w.size) if usebmap else data
        r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    r.nontrivial = bool(w.mapped)
    r.key = "%s|%s" % (what, images.sha(w.data))
    r.state("tty", kind, q.rc)
    r.sample = {"case": what, "reports": pct[:8], "last": pct[-1:] or None}
    return r


class Reader(threading.Thread):
    """The psplash end of the pipe."""

    def __init__(self, path, slow=False, until=None, unlink=False):
        super().__init__(daemon=True)
        self.fd = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        self.data, self.stop, self.slow, self.until, self.path, self.rm = b"", False, slow, until, path, unlink

    def run(self):
        while True:
            rd, _, _ = select.select([self.fd], [], [], 0.01)
            if rd:
                try:
                    b = os.read(self.fd, 20 if self.slow else 4096)
                except BlockingIOError:
                    b = b""
                self.data += b
                if not b:
                    if self.stop:
                        break
                    time.sleep(0.002)
            elif self.stop:
                break
            if self.until is not None and len(self.data) >= self.until:
                if self.rm:
                    os.unlink(self.path)
                break
            if self.slow:
                time.sleep(0.002)
        os.close(self.fd)


def run_pipe(case, env, r, rng, w, bp):
    k = case["pipe"]
    path = env.path("psplash_fifo")
    conf, rd, keep, before = [], None, None, None
    good = k in ("read", "slow", "symlink")
    if k in ("regular",):
        sources.put(path, b"some file\n")
        before = images.read_file(path)
    elif k == "directory":
        os.mkdir(path)
    elif k == "dangling":
        os.symlink(env.path("nowhere"), path)
    elif k == "loop":
        os.symlink(path, path)
    elif k == "null":
        path = "/dev/null"
    elif k == "symlink":
        os.mkfifo(env.path("real"))
        os.symlink(env.path("real"), path)
    elif k != "missing":
        os.mkfifo(path)
    if k in ("read", "slow", "symlink"):
        rd = Reader(path, k == "slow")
    elif k in ("closed-midway", "removed"):
        rd = Reader(path, until=rng.choice([1, 11, 30]), unlink=k == "removed")
    elif k == "full":
        keep = os.open(path, os.O_RDWR | os.O_NONBLOCK)
        try:
            while True:
                os.write(keep, b"x" * 4096)
        except BlockingIOError:
            pass
        if rng.random() < 0.5:
            os.read(keep, rng.choice([1, 4096, 8000]))
    elif k.startswith(("open-", "write-", "close-")):
        keep = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        op, e = k.split("-")
        conf = [("track", "fifo", path), ("fault", "fifo", op, rng.choice([1, 1, 2]), 1000, "err", getattr(errno, e.upper()))]
    if rd:
        rd.start()
    dp = env.path("dest")
    what = "psplash pipe %s, %d bytes in blocks of %d, %d blocks mapped" % (k, w.size, w.bs, w.mapped)
    usebmap = rng.random() < 0.8
    if case["cli"]:
        q = cli.run(["copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + ["--psplash-pipe", path, w.ip, dp], dir=env.shm, conf=conf, survivors=False)
        ok, brief, hang = q.rc == 0, q.brief(), q.hang
    else:
        with Monitor(env, conf):
            o = api.copy(w.ip, dp, bp if usebmap else None, psplash=path)
        ok, brief, hang = o.ok, o.brief(), None
    if rd:
        rd.stop = True
        rd.join(20)
    if hang:
        r.bad("hang", "%s: %s" % (what, hang))
    elif r.check(ok, "pipe-fails-copy", "%s: %s" % (what, brief)):
        got = images.read_file(dp)
        want = gens.expected(w, b"", w.size) if usebmap else w.data
        r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    if good:
        m = re.fullmatch(rb"(PROGRESS -?\d+\n)*", rd.data)
        if r.check(m, "bad-message", "%s: %r" % (what, rd.data[:100])):
            pct = [int(x) for x in re.findall(rb"PROGRESS (-?\d+)", rd.data)]
            r.count("psplash_lines", len(pct))
            # a slow reader may miss some
            sequence(r, what, pct, ok and (k != "slow" or len(pct) < 500), w.mapped if usebmap else 1)
    else:
        r.count("psplash_bad")
        if k == "regular":
            r.check(images.read_file(path) == before, "file-changed", "%s: the regular file has been changed" % what)
        elif k in ("missing",):
            r.check(not os.path.lexists(path), "file-created", "%s: %s has been created" % (what, path))
        elif k == "dangling":
            r.check(not os.path.lexists(env.path("nowhere")), "file-created", "%s: the target has been created" % what)
    if keep is not None:
        os.close(keep)
    r.key = "%s|%s|%s" % (what, case["cli"], images.sha(w.data))
    r.state("pipe", k, case["cli"], usebmap, ok)
    r.nontrivial = bool(w.mapped)
    r.sample = {"case": what, "ok": ok, "received": len(rd.data) if rd else None}
    return r
