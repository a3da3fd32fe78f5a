"""C22: result and memory use do not depend on reader/writer timing."""
import errno
import os
import random
import subprocess
import threading
import time
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Result

PROP = "C22"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring under forced schedules: instrumented image and destination objects (and an LD_PRELOAD interposer for the real command) "
             "stall, delay or fail either side at chosen moments while an online monitor tracks data read but not written, the order and the result")
NOTE = ("Image and destination objects which hold back either side until the other one cannot get further (maximal read-ahead, starved writer), in "
        "lockstep, in bursts or with random delays, and raise errors at a chosen transfer of either or both sides while the other side is ahead, "
        "waiting or blocked. Monitors: bytes read but not yet written at every moment (at most 16 MiB), ascending writes, final contents, the error "
        "which surfaces. The command line runs with delays injected into its system calls, including peak memory for large images. "
        "Schedules are forced or sampled, not enumerated; blocks above 1 MiB are judged by contents only.")
RULE = ("Works x schedule x fault. Non-trivial: at least two transfers were observed on each side. Distinct by schedule signature "
        "(the interleaving of reads and writes) and layout.")
BATCH = 4
WORKERS = 6
REQUIRE = {"transfers": 6000, "stalled_full": 60, "starved": 40, "errors": 120, "both": 6, "beyond_bound": 60, "cli": 40, "memory": 8, "interleavings": 180, "long_stalls": 8}

BOUND = 16 << 20
SCHEDULES = ("free", "stall-writer", "stall-writer", "stall-reader", "lockstep", "burst", "jitter", "slow-writer", "slow-reader", "stall-both")
ERRS = ("read", "write", "seek", "iseek", "both", "mem-read", "odd-read", "odd-write", "eof", "read-blocked-writer", "write-blocked-reader", "fsync", "cksum")


def cases(ctx):
    out = []
    for i in range(ctx.pick(22, 260)):
        for s in SCHEDULES:
            out.append({"t": "api", "sched": s, "big": i % 2 == 0})
    for i in range(ctx.pick(12, 120)):
        for e in ERRS:
            out.append({"t": "err", "err": e})
    for i in range(ctx.pick(80, 700)):
        out.append({"t": "cli"})
    for i in range(ctx.pick(16, 60)):
        out.append({"t": "mem"})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    # each of these opens a batch of its own
    for n, secs in enumerate(ctx.pick([66], [66, 128, 200])):
        out.insert(n * BATCH, {"t": "long", "secs": secs, "seed": ctx.sub("long", n)})
    return out


class State:
    def __init__(self):
        self.lock = threading.Lock()
        self.read = self.written = self.peak = 0
        self.nread = self.nwrite = 0
        self.sig = []
        self.last = time.monotonic()
        self.done = False
        self.bad = []
        self.pos = 0
        self.full = self.starved = False

    def tick(self, what):
        self.last = time.monotonic()
        self.sig.append(what)

    def idle(self, secs=0.04, most=6.0):
        """Wait until nothing moves any more."""
        t0 = time.monotonic()
        me = len(self.sig)
        while not self.done:
            time.sleep(0.004)
            now = time.monotonic()
            if now - self.last > secs and now - t0 > secs:
                return True
            if now - t0 > most:
                return False
        return True


class Plan:
    """When to hold back and when to fail."""

    def __init__(self, rng, sched, err=None, n=1):
        self.rng, self.sched, self.err = rng, sched, err
        self.kr = rng.randint(1, max(1, n))
        self.kw = rng.randint(1, max(1, n))
        self.stalls = set(rng.randint(1, max(1, n)) for _ in range(rng.choice([1, 1, 2, 3])))
        self.rstalls = set(rng.randint(1, max(1, n)) for _ in range(rng.choice([1, 1, 2, 3])))
        self.burst = rng.randint(1, 12)
        self.fired = False
        self.token = "token-%08x" % rng.getrandbits(32)
        self.token2 = "token-%08x" % rng.getrandbits(32)


class Image:
    def __init__(self, data, st, plan, name):
        self.data, self.st, self.plan, self.name, self.pos = data, st, plan, name, 0

    def seek(self, off, whence=0):
        p = self.plan
        if p.err == "iseek" and self.st.nread >= p.kr:
            p.fired = True
            raise OSError(errno.EIO, p.token)
        self.pos = off + (0, self.pos, len(self.data))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def read(self, n=-1):
        st, p = self.st, self.plan
        k = st.nread + 1
        s = p.sched
        if s in ("stall-reader", "stall-both") and k in p.rstalls:
            if st.idle():
                st.starved = True
        elif s == "lockstep":
            t0 = time.monotonic()
            while st.nwrite < st.nread and not st.done and time.monotonic() - t0 < 5:
                time.sleep(0.0005)
        elif s == "burst" and k % p.burst == 0:
            t0 = time.monotonic()
            while st.nwrite < st.nread and not st.done and time.monotonic() - t0 < 5:
                time.sleep(0.0005)
        elif s == "jitter" and p.rng.random() < 0.5:
            time.sleep(p.rng.random() * 0.003)
        elif s == "slow-reader":
            time.sleep(0.002)
        if k >= p.kr:
            if p.err in ("read", "both"):
                st.idle(0.03, 1) if p.rng.random() < 0.5 else None
                p.fired = True
                raise OSError(errno.EIO, p.token)
            if p.err == "mem-read":
                p.fired = True
                raise MemoryError(p.token)
            if p.err == "odd-read":
                p.fired = True
                raise LookupError(p.token)
            if p.err == "eof":
                p.fired = self.pos < len(self.data)
                return b""
            if p.err == "read-blocked-writer":
                p.fired = True
                raise OSError(errno.EIO, p.token)
            if p.err == "write-blocked-reader" and k == p.kr:
                # nothing comes for as long as the copy goes on
                t0 = time.monotonic()
                while not st.done and time.monotonic() - t0 < 4:
                    time.sleep(0.005)
        buf = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        buf = bytes(buf)
        self.pos += len(buf)
        with st.lock:
            st.nread += 1
            st.read += len(buf)
            st.peak = max(st.peak, st.read - st.written)
            st.tick("r")
        return buf


class Dest:
    def __init__(self, f, st, plan):
        self.f, self.st, self.plan, self.name = f, st, plan, f.name
        self.end = 0

    def fileno(self):
        return self.f.fileno()

    def __getattr__(self, name):
        # a file object in all the other respects
        return getattr(self.f, name)

    def writelines(self, bufs):
        for b in bufs:
            self.write(b)

    def seek(self, off, whence=0):
        p = self.plan
        if p.err == "seek" and self.st.nwrite >= p.kw:
            p.fired = True
            raise OSError(errno.ENOSPC, self.plan.token)
        return self.f.seek(off, whence)

    def write(self, b):
        st, p = self.st, self.plan
        k = st.nwrite + 1
        s = p.sched
        if (s in ("stall-writer", "stall-both") and k in p.stalls) or (p.err == "read-blocked-writer" and k == p.kw):
            if st.idle():
                st.full = True
        elif s == "jitter" and p.rng.random() < 0.5:
            time.sleep(p.rng.random() * 0.003)
        elif s == "slow-writer":
            time.sleep(0.002)
        if k >= p.kw:
            if p.err in ("write", "both", "write-blocked-reader"):
                st.idle(0.03, 1) if p.rng.random() < 0.5 and p.err != "write-blocked-reader" else None
                p.fired = True
                raise OSError(errno.ENOSPC, p.token2 if p.err == "both" else p.token)
            if p.err == "odd-write":
                p.fired = True
                raise LookupError(p.token)
        off = self.f.tell()
        if off < self.end:
            st.bad.append("write at %d after data up to %d had been written" % (off, self.end))
        n = self.f.write(b)
        self.end = off + len(b)
        with st.lock:
            st.nwrite += 1
            st.written += len(b)
            st.tick("w")
        return n


def big_work(rng, mib):
    bs = rng.choice([4096, 4096, 8192, 65536, 1 << 20, 1000, 524288, 3 << 18])
    w = gens.Work()
    w.bs = bs
    w.size = mib * (1 << 20) - rng.choice([0, 1, rng.randint(0, bs)])
    w.nblocks = (w.size + bs - 1) // bs
    w.kind = rng.choice(["all", "mostly", "mostly", "few"])
    if w.kind == "all":
        w.ranges = [(0, w.nblocks - 1)]
    else:
        w.ranges, b = [], 0
        step = max(2, w.nblocks // (rng.randint(2, 12) if w.kind == "few" else rng.randint(20, 200)))
        while b < w.nblocks:
            k = rng.randint(1, step)
            w.ranges.append((b, min(w.nblocks - 1, b + k - 1)))
            b += k + rng.randint(1, max(1, step // 8))
    w.data = rng.randbytes(w.size)
    w.img = images.Img(w.size, [(0, w.data)])
    w.mapped = sum(l - f + 1 for f, l in w.ranges)
    return w


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "cli":
        return run_cli(case, env, r, rng)
    if case["t"] == "mem":
        return run_mem(case, env, r, rng)
    if case["t"] == "long":
        return run_long(case, env, r, rng)
    return run_api(case, env, r, rng)


def run_api(case, env, r, rng):
    from bmaptools import BmapCopy
    err = case.get("err")
    sched = case.get("sched") or rng.choice(SCHEDULES)
    if err or not case.get("big"):
        w = gens.work(rng, maxbytes=rng.choice([200000, 4 << 20, 12 << 20]), odd=0.3, nonempty=True)
    else:
        w = big_work(rng, rng.choice([18, 24, 32]))
    how = rng.choice(["bmap", "bmap", "nobmap", "unknown"])
    if err == "cksum":
        how = "bmap"
    if how != "bmap":
        w.bs, w.ranges = 4096, [(0, (w.size + 4095) // 4096 - 1)]
        w.nblocks = w.mapped = w.ranges[0][1] + 1
    batch = max(1 << 20, w.bs)
    n = sum(-(-min(e, w.size) // batch) - s // batch for s, e in gens.byte_ranges(w))
    st = State()
    plan = Plan(rng, sched, err, max(1, n))
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    bp = sources.put(env.path("bmap"), doc.encode() if isinstance(doc, str) else doc)
    data = w.data
    if err == "cksum":
        data = bytearray(data)
        rr = rng.choice(gens.byte_ranges(w))
        data[rng.randrange(*rr)] ^= 0x10
    bdev = rng.random() < 0.3
    dp = sources.put(env.path("dest"), b"\0" * w.size if bdev else b"")
    image = Image(memoryview(data), st, plan, env.path("image"))
    exc = None
    conf = [("track", "dest", dp)]
    if err == "fsync":
        conf.append(("fault", "dest", "fsync", 1, 1000, "err", errno.EIO))
    conf.append(("redirect", "/sys/dev/block/", env.path("nosys/")))
    with core.Monitor(env, conf):
        with open(dp, "r+b", buffering=rng.choice([-1, 0, 4096])) as f, open(bp, "rb") as fb:
            d = Dest(f, st, plan)
            cls = BmapCopy.BmapBdevCopy if bdev else BmapCopy.BmapCopy
            try:
                c = cls(image, d, fb if how == "bmap" else None, w.size if how == "nobmap" else None)
                c.copy(True, True)
            except Exception as e:
                exc = e
            st.done = True
    what = "%s, %s schedule%s: %d bytes in blocks of %d, %d ranges, %s%s" % (
        how, sched, ", %s error at read %d, write %d" % (err, plan.kr, plan.kw) if err else "", w.size, w.bs, len(w.ranges), w.kind, ", block device" if bdev else "")
    r.count("transfers", st.nread + st.nwrite)
    if st.full:
        r.count("stalled_full")
    if st.starved:
        r.count("starved")
    if st.written > BOUND or (not err and w.size > BOUND):
        r.count("beyond_bound")
    for b in st.bad[:1]:
        r.bad("out-of-order", "%s: %s" % (what, b))
    if w.bs <= 1 << 20:
        r.check(st.peak <= BOUND, "read-ahead-unbounded", "%s: %d bytes have been read but not written" % (what, st.peak))
    if not err:
        if r.check(exc is None, "failed", "%s: %s: %s" % (what, type(exc).__name__, exc)):
            got = images.read_file(dp)
            want = gens.expected(w, b"", w.size)
            r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
            if got == want and st.written < sum(b - a for a, b in gens.byte_ranges(w)):
                r.inc("%s: the writes were not seen" % what)
    else:
        r.count("errors")
        if err == "both":
            r.count("both")
        due = err in ("fsync", "cksum") or (plan.fired and not (err == "eof" and how == "unknown"))
        if exc is None:
            if due:
                r.bad("error-lost", "%s: the copy succeeds" % what)
            elif err != "eof":
                got = images.read_file(dp)
                want = gens.expected(w, b"", w.size)
                r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
            r.nontrivial = False
        elif not due:
            r.bad("failed", "%s: %s: %s" % (what, type(exc).__name__, exc))
        elif err in ("eof", "cksum"):
            r.check(isinstance(exc, BmapCopy.Error), "wrong-error", "%s: %s: %s" % (what, type(exc).__name__, exc))
            if err == "cksum":
                r.check("checksum" in str(exc), "wrong-error", "%s: %s: %s" % (what, type(exc).__name__, exc))
        elif err == "fsync":
            r.check("ync" in str(exc) or "error" in str(exc).lower(), "wrong-error", "%s: %s: %s" % (what, type(exc).__name__, exc))
        else:
            t = "%s %s" % (exc, getattr(exc, "args", ""))
            r.check(plan.token in t or (err == "both" and plan.token2 in t), "wrong-error", "%s: %s: %s" % (what, type(exc).__name__, t[:300]))
    sig = compact("".join(st.sig))
    r.count("interleavings", 1)
    r.key = "%s|%s|%s|%d" % (sched, err, sig, w.size)
    r.state(sched, err, how, bdev, st.full, st.starved, sig[:24])
    if st.nread < 2 or st.nwrite < 2:
        r.nontrivial = r.nontrivial and bool(err)
    r.sample = {"case": what, "interleaving": sig[:80], "peak_read_ahead": st.peak, "error": str(exc)[:120] if exc else None}
    return r


def compact(s):
    """rrrwwr -> r3w2r"""
    out, i = [], 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]:
            j += 1
        out.append(s[i] + (str(j - i) if j - i > 1 else ""))
        i = j
    return "".join(out)


def run_cli(case, env, r, rng):
    mib = rng.choice([2, 5, 20, 28])
    w = big_work(rng, mib)
    kind = rng.choice(["file", "file", "file", "gz", "stdin", "http:slow", "http:length", "zst", "tgz"])
    usebmap = rng.random() < 0.7
    ext = {"gz": ".gz", "zst": ".zst", "tgz": ".tar.gz"}.get(kind, "")
    src = sources.make(rng, env, w.data, "file" if ext else kind, ext)
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    bp = sources.put(env.path("the.bmap"), doc.encode() if isinstance(doc, str) else doc)
    dp = env.path("dest")
    bdev = rng.random() < 0.3
    old = b"\x11" * w.size if bdev else b""
    sources.put(dp, old)
    conf = [("track", "dest", dp)]
    raw = kind == "file"
    if raw:
        conf.append(("track", "image", src.spec))
    if bdev:
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
    j = rng.choice(["slow-writer", "slow-writer", "slow-reader", "both", "hiccup", "none"])
    if j in ("slow-writer", "both"):
        conf.append(("jitter", "dest", "write", rng.choice([2000, 8000]), rng.randrange(1 << 30)))
    if j in ("slow-reader", "both") and raw:
        conf.append(("jitter", "image", "read", rng.choice([2000, 8000]), rng.randrange(1 << 30)))
    if j == "hiccup":
        conf.append(("fault", "dest", "write", rng.randint(1, 4), 1, "delay", 300000))
    fault = rng.choice([None, None, None, ("dest", "write", errno.ENOSPC), ("image", "read", errno.EIO), ("dest", "fsync", errno.EIO)])
    if fault and (fault[0] != "image" or raw):
        conf.append(("fault", fault[0], fault[1], rng.randint(1, 3), 1000, "err", fault[2]))
    else:
        fault = None
    fi = open(src.stdin, "rb") if src.stdin else None
    q = cli.run(["copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + [src.spec, dp], env=src.env, dir=env.shm, conf=conf, stdin=fi)
    if fi:
        fi.close()
    what = "command line, %s, %s, %d bytes in blocks of %d, %d ranges%s, fault %s" % (kind, j, w.size, w.bs, len(w.ranges), ", block device" if bdev else "", fault)
    r.count("cli")
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    fired = any(e.op == "fault" and e.err for e in q.events) or any(e.err and e.role in ("dest", "image") and e.op in ("write", "read", "fsync") for e in q.events)
    out = peak = end = 0
    sig = []
    total = 0
    for e in q.events:
        if e.role == "image" and e.op == "read" and e.ret > 0:
            out += e.ret
            total += e.ret
            peak = max(peak, out)
            sig.append("r")
        elif e.role == "dest" and e.op == "write" and e.ret > 0:
            if raw:
                out = max(0, out - e.ret)
            if e.off < end:
                r.bad("out-of-order", "%s: write at %d after data up to %d had been written" % (what, e.off, end))
                break
            end = e.off + e.ret
            sig.append("w")
    if raw:
        r.check(peak <= BOUND, "read-ahead-unbounded", "%s: %d bytes have been read but not written" % (what, peak))
        if total > BOUND:
            r.count("beyond_bound")
    if fault and fired:
        r.count("errors")
        r.check(q.rc != 0, "error-lost", "%s: %s" % (what, q.brief()))
        r.check(os.strerror(fault[2]) in q.text(), "wrong-error", "%s: %s" % (what, q.brief()))
    elif not fault:
        if r.check(q.rc == 0, "failed", "%s: %s" % (what, q.brief())):
            got = images.read_file(dp)
            want = gens.expected(w, old, w.size) if usebmap else w.data
            r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    r.count("transfers", len(sig))
    r.count("interleavings")
    r.key = "cli|%s|%s|%s" % (what, j, compact("".join(sig)))
    r.state("cli", kind, j, bdev, usebmap, bool(fault), q.rc)
    r.sample = {"case": what, "interleaving": compact("".join(sig))[:80], "peak_read_ahead": peak, "result": q.rc}
    return r


LONG = ("write", "write-bdev", "watermark", "fsync", "read", "stdin", "http", "http-gz", "write-http-gz", "gz-write")


def run_long(case, env, r, rng):
    """Copies during which one side makes no progress for over a minute."""
    secs = case["secs"]
    us = int(secs * 1e6)
    core.set_subreaper()
    jobs = []
    for i, kind in enumerate(LONG):
        w = big_work(rng, rng.choice([20, 26]))
        usebmap = rng.random() < 0.6
        wdir = env.path("long%d" % i)
        os.mkdir(wdir)
        doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
        bp = sources.put(os.path.join(wdir, "the.bmap"), doc.encode() if isinstance(doc, str) else doc)
        dp = os.path.join(wdir, "dest")
        bdev = "bdev" in kind or kind == "watermark"
        old = b"\x22" * w.size if bdev else b""
        sources.put(dp, old)
        ip = os.path.join(wdir, "image.raw")
        blob = w.data
        if "gz" in kind:
            ip += ".gz"
            blob = comp.compress(blob, ".gz")
        at = rng.randint(1 << 20, len(blob) // 2)
        conf = [("track", "dest", dp), ("track", "image", ip)]
        if bdev:
            conf += [("redirect", "/sys/dev/block/", os.path.join(wdir, "nosys/")), ("bdev", "dest", 240, 9)]
        k = rng.randint(1, 4)
        if "write" in kind:
            conf.append(("fault", "dest", "write", k, 1, "delay", us))
        elif kind in ("watermark", "fsync"):
            conf.append(("fault", "dest", "fsync", 1, 1, "delay", us))
        elif kind == "read":
            conf.append(("fault", "image", "read", k, 1, "delay", us))
        stdin = subprocess.DEVNULL
        spec = ip
        if kind == "stdin":
            stdin, spec = subprocess.PIPE, "-"
        elif "http" in kind:
            spec = sources.serve("long%d" % i + os.path.basename(ip), blob, "length" if "write" in kind else "pause:%d:%d" % (at, secs))
        if "http" not in kind and kind != "stdin":
            sources.put(ip, blob)
        cpath = os.path.join(wdir, "conf")
        core.write_conf(cpath, conf, os.path.join(wdir, "log"))
        e = dict(cli.BASE_ENV, PYTHONPATH=core.REPO, LD_PRELOAD=cli.libpath(), VMON_CONF=cpath)
        err = open(os.path.join(wdir, "err"), "wb")
        p = subprocess.Popen([core.PYTHON, "-P", "-m", "bmaptools", "copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + [spec, dp],
                             env=e, cwd=wdir, stdin=stdin, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        err.close()
        cli.keep(p.pid)
        p.t0 = time.monotonic()
        if kind == "stdin":
            threading.Thread(target=feed, args=(p.stdin, blob, at, secs), daemon=True).start()
        jobs.append((kind, w, usebmap, wdir, dp, old, p))
    t0 = time.monotonic()
    left = list(jobs)
    took = {}
    while left and time.monotonic() - t0 < secs + 120:
        time.sleep(0.1)
        for j in list(left):
            if j[-1].poll() is not None:
                left.remove(j)
                took[j[0]] = time.monotonic() - j[-1].t0
    for kind, w, usebmap, wdir, dp, old, p in jobs:
        what = "command line, %s: no progress for %d s, %d bytes in blocks of %d, %d ranges, %s" % (
            kind, secs, w.size, w.bs, len(w.ranges), "with a bmap" if usebmap else "without bmap")
        err = images.read_file(os.path.join(wdir, "err")).decode(errors="replace")
        if p.poll() is None:
            core.kill_tree(p.pid)
            p.wait()
            r.bad("hang", "%s: not finished after %d s: %s" % (what, time.monotonic() - t0, err[-300:]))
            continue
        r.count("long")
        if took[kind] > secs - 1:
            r.count("long_stalls")
        if r.check(p.returncode == 0, "failed", "%s: rc=%s after %d s: %s" % (what, p.returncode, took[kind], err[-400:])):
            got = images.read_file(dp)
            want = gens.expected(w, old, w.size) if usebmap else w.data
            r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
        r.state("long", kind, usebmap)
    r.key = "long|%d" % secs
    r.sample = {"case": "no progress for %d s" % secs, "took": {k: round(v, 1) for k, v in took.items()}}
    return r


def feed(f, blob, at, secs):
    try:
        f.write(blob[:at])
        f.flush()
        time.sleep(secs)
        f.write(blob[at:])
        f.close()
    except OSError:
        pass


def hwm(env, ip, dp, bp, usebmap, us):
    best = [0]

    def tick(p):
        try:
            with open("/proc/%d/status" % p.pid) as f:
                for line in f:
                    if line.startswith("VmHWM"):
                        best[0] = max(best[0], int(line.split()[1]) << 10)
        except OSError:
            pass

    conf = [("track", "dest", dp), ("jitter", "dest", "write", us, 7), ("fault", "dest", "fsync", 1, 1, "delay", 200000)]
    q = cli.run(["-q", "copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + [ip, dp], dir=env.shm, conf=conf, on_tick=tick)
    return q, best[0]


def run_mem(case, env, r, rng):
    """Peak memory must not grow with the image."""
    kind = rng.choice(["", "", ".gz", ".zst"])
    usebmap = rng.random() < 0.6
    res = {}
    for label, mib in (("small", 1), ("large", rng.choice([96, 128]))):
        bs = 4096
        size = mib << 20
        block = rng.randbytes(1 << 20)
        ip = env.path(label + ".raw")
        with open(ip, "wb") as f:
            for i in range(mib):
                f.write(block)
        if kind:
            data = images.read_file(ip)
            os.unlink(ip)
            ip = sources.put(ip + kind, comp.compress(data, kind))
            del data
        n = size // bs
        doc = ("<?xml version='1.0'?>\n<bmap version='1.2'><ImageSize>%d</ImageSize><BlockSize>%d</BlockSize><BlocksCount>%d</BlocksCount>"
               "<MappedBlocksCount>%d</MappedBlocksCount><BlockMap><Range>0-%d</Range></BlockMap></bmap>" % (size, bs, n, n, n - 1))
        bp = sources.put(env.path(label + ".map"), doc.encode())
        dp = env.path("dest." + label)
        q, m = hwm(env, ip, dp, bp, usebmap, 1500)
        if q.hang or q.rc != 0:
            r.bad("failed", "%d MiB: %s" % (mib, q.brief()))
            return r
        with open(dp, "rb") as f:
            for i in range(mib):
                if f.read(1 << 20) != block:
                    r.bad("wrong-contents", "%d MiB image differs in MiB %d" % (mib, i))
                    break
        os.unlink(dp)
        os.unlink(ip)
        res[label] = m
    grow = res["large"] - res["small"]
    r.count("memory")
    r.check(grow <= BOUND + (16 << 20), "memory-grows", "peak memory is %d for a small image, but %d for a large one (%s)" % (res["small"], res["large"], kind))
    r.key = "mem|%s|%s|%d" % (kind, usebmap, case["seed"])
    r.state("mem", kind, usebmap)
    r.sample = {"case": "memory %s" % kind, "small": res["small"], "large": res["large"]}
    return r
