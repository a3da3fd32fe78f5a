"""C28: operations in one process, and processes side by side, do not interfere."""
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
from vmon import api, bmapref, cli, comp, core, gens, httpd, images, sources
from vmon.core import Monitor, Result

PROP = "C28"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: concurrent and interleaved API histories with forced thread switches, each operation compared with its outcome in isolation"
NOTE = ("Sampled sets of operations (copies of all kinds with and without bmap, creations, hole queries, streams; healthy and failing) run in one "
        "process: in threads with a switch interval of a few microseconds and jittered system calls, interleaved step by step in one thread, or one "
        "after another after failures. Each must have exactly the outcome it has on its own: contents, verdict, attributes, progress, positions. "
        "The state of the process (working directory, environment, signals, limits, ...) is compared before and after, and half of the operations use "
        "relative names. Several command lines run side by side on the same inputs. Interleavings are sampled.")
RULE = "Sampled sets of operations x schedules. Non-trivial: at least two operations overlapped or followed each other. Distinct by operations and schedule."
BATCH = 4
REQUIRE = {"operations": 700, "concurrent": 60, "interleaved": 40, "sequential": 40, "failing": 80, "side_by_side": 15, "overlaps": 60, "states_compared": 150}
EXTS = ("", ".gz", ".bz2", ".xz", ".lzo", ".lz4", ".zst", ".zip", ".tar.gz", ".tar.xz", ".tgz")


def cases(ctx):
    out = []
    for i in range(ctx.pick(100, 1500)):
        out.append({"seed": ctx.sub("t", i), "t": "threads"})
    for i in range(ctx.pick(60, 900)):
        out.append({"seed": ctx.sub("i", i), "t": "steps"})
    for i in range(ctx.pick(60, 900)):
        out.append({"seed": ctx.sub("s", i), "t": "seq"})
    for i in range(ctx.pick(25, 300)):
        out.append({"seed": ctx.sub("p", i), "t": "procs"})
    ctx.rng("order").shuffle(out)
    return out


class Buf(io.StringIO):
    def isatty(self):
        return False


class Op:
    """One operation: run() never raises; problems() judges the outcome."""

    def __init__(self, env, rng, i, kind, shared):
        self.kind, self.i, self.rng = kind, i, random.Random(rng.random())
        self.env, self.shared = env, shared
        self.started = self.ended = 0
        # (the working directory is env.dir)
        self.relative = rng.random() < 0.5
        self.sub = rng.choice(["", "sub%d" % i, "sub"])
        os.makedirs(os.path.join(env.dir, self.sub), exist_ok=True)
        self.error = None
        self.prepare(rng)

    def path(self, n):
        n = os.path.join(self.sub, "op%d.%s" % (self.i, n))
        return n if self.relative else os.path.join(self.env.dir, n)

    def prepare(self, rng):
        k = self.kind
        self.fails = k in ("corrupt", "badbmap", "missing", "forbidden", "truncated")
        if k == "create" or k == "filemap":
            self.img = images.gen(rng, maxsize=1 << 20) if not self.shared.get("img") or rng.random() < 0.5 else self.shared["img"]
            self.shared["img"] = self.img
            self.ip = self.img.write(self.path("sparse"))
            self.what = "%s of %d bytes (%s)" % (k, self.img.size, self.img.kind)
            return
        if self.shared.get("w") is not None and rng.random() < 0.4:
            self.w = self.shared["w"]
        else:
            self.w = gens.work(rng, maxbytes=rng.choice([20000, 300000, 2 << 20]), odd=0.3, nonempty=True)
            self.shared["w"] = self.w
        w = self.w
        data = w.data
        if k == "corrupt":
            b = bytearray(data)
            s, e = gens.byte_ranges(w)[-1]
            b[rng.randrange(s, e)] ^= 1 << rng.randrange(8)
            data = bytes(b)
        self.ext = rng.choice(EXTS) if k not in ("rawbdev",) else ""
        how = rng.choice(["file", "file", "http", "auth", "fileurl"])
        if k == "forbidden":
            how = "auth"
        name = "op%d.image%s" % (self.i, self.ext)
        blob = comp.compress(data, self.ext)
        if k == "truncated":
            self.ext = rng.choice([".gz", ".xz", ".bz2", ".zst"])
            blob = comp.compress(data, self.ext)
            blob = blob[:len(blob) * 2 // 3]
            name = "op%d.image%s" % (self.i, self.ext)
            how = rng.choice(["file", "http"])
        if how == "file" or how == "fileurl":
            self.spec = sources.put(self.path("image" + self.ext), blob)
            if how == "fileurl":
                self.spec = "file://" + os.path.abspath(self.spec)
        else:
            auth = None
            if how == "auth":
                auth = ("user%d" % self.i, "pw%d" % rng.randrange(10))
            u = sources.serve(name + ".%d" % rng.randrange(1 << 30) + self.ext, blob, rng.choice(["length", "chunked", "slow"]), auth)
            if auth and k != "forbidden":
                u = u.replace("http://", "http://%s:%s@" % auth)
            elif auth and rng.random() < 0.5:
                u = u.replace("http://", "http://%s:%s@" % (auth[0], "wrong"))
            self.spec = u
        if k == "missing":
            self.spec = self.path("no-such-file" + self.ext)
        self.usebmap = k in ("copy", "corrupt", "badbmap", "rawbdev") or (k in ("missing", "forbidden") and rng.random() < 0.5)
        self.known = k == "sized"
        doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "2.0", "1.3"]) if k == "corrupt" else rng.choice(["2.0", "1.3", "1.2"]), rng=rng)
        doc = doc.encode() if isinstance(doc, str) else doc
        if k == "badbmap":
            doc = doc[:len(doc) * 3 // 4]
        self.bp = sources.put(self.path("map"), doc)
        self.what = "%s of %d bytes in blocks of %d%s from %s" % (k, w.size, w.bs, " (bmap)" if self.usebmap else "", self.spec[-60:])

    def steps(self):
        """A generator which performs the operation piece by piece."""
        from bmaptools import BmapCopy, BmapCreate, Filemap, TransRead
        k = self.kind
        if k == "create":
            with open(self.ip, "rb") as fi, open(self.path("out"), "w+") as fo:
                pos = self.rng.randint(0, self.img.size)
                fi.seek(pos)
                yield
                c = BmapCreate.BmapCreate(fi, fo, "sha256")
                yield
                c.generate()
                self.pos_ok = fi.tell() == pos
                yield
            return
        if k == "filemap":
            f = Filemap.filemap(self.ip)
            f2 = Filemap.FilemapSeek(self.ip)
            yield
            n = f.blocks_cnt
            got = []
            for one in (f, f2):
                m = []
                for x in one.get_mapped_ranges(0, n):
                    m.append(x)
                    yield
                u = []
                for x in one.get_unmapped_ranges(0, n):
                    u.append(x)
                    yield
                got.append((m, u))
            self.got = got, n, f.block_size
            return
        t = TransRead.TransRead(self.spec)
        try:
            yield
            if k == "stream":
                out, n = bytearray(), 0
                rng = self.rng
                while True:
                    d = t.read(rng.choice([1, 100, 4096, 65536, 1 << 20]))
                    if t.tell() != n + len(d):
                        raise AssertionError("tell() says %d after %d bytes" % (t.tell(), n + len(d)))
                    out += d
                    n += len(d)
                    yield
                    if not d:
                        break
                self.data = bytes(out)
                return
            with open(self.path("dest"), "wb+") as fo, open(self.bp, "rb") as fb:
                yield
                c = BmapCopy.BmapCopy(t, fo, fb if self.usebmap else None, self.w.size if self.known else None)
                self.prog = Buf()
                c.set_progress_indicator(self.prog, "op%d %%d%%%%" % self.i)
                yield
                c.copy(self.rng.random() < 0.5, True)
                self.attrs = (c.image_size, c.block_size, c.blocks_cnt, c.mapped_cnt)
                yield
        finally:
            t.close()

    def run(self):
        self.started = time.monotonic()
        try:
            for _ in self.steps():
                pass
        except BaseException as e:
            self.error = e
        self.ended = time.monotonic()

    def problems(self):
        k = self.kind
        e = self.error
        if self.fails:
            if e is None:
                return "succeeds although it must fail (%s)" % self.kind
            return None
        if e is not None:
            return "fails: %s: %s" % (type(e).__name__, str(e)[:300])
        if k == "create":
            bad = bmapref.check_generated(images.read_file(self.path("out")), self.img, True, "sha256")
            if not self.pos_ok:
                bad.append("the position of the image is not restored")
            return "bmap: %s" % bad[:2] if bad else None
        if k == "filemap":
            got, n, bs = self.got
            for m, u in got:
                every = sorted(m + u)
                nxt = 0
                for a, b in every:
                    if a != nxt or b < a:
                        return "ranges %s are no partition" % every[:8]
                    nxt = b + 1
                if nxt != n:
                    return "ranges end at block %d of %d" % (nxt, n)
                cov = set()
                for a, b in m:
                    cov.update(range(a, b + 1))
                lost = [b for b in self.img.touched(bs) - cov if self.img.read(b * bs, bs).strip(b"\0")]
                if lost:
                    return "block %d holds data but is not mapped" % lost[0]
            return None
        w = self.w
        if k == "stream":
            d = images.describe_diff(self.data, w.data, "data")
            return d
        got = images.read_file(self.path("dest"))
        want = gens.expected(w, b"", w.size) if self.usebmap else w.data
        d = images.describe_diff(got, want)
        if d:
            return d
        bs = w.bs if self.usebmap else 4096
        nb = (w.size + bs - 1) // bs
        attrs = (w.size, bs, nb, w.mapped if self.usebmap else nb)
        if self.attrs != attrs:
            return "attributes are %s instead of %s" % (self.attrs, attrs)
        text = self.prog.getvalue()
        other = [x for x in text.split() if x.startswith("op") and x != "op%d" % self.i]
        if other:
            return "progress shows another operation: %r" % text[:100]
        if (self.usebmap or self.known) and "100%" not in text and attrs[3]:
            return "progress ends with %r" % text[-30:]
        return None


class State:
    """What belongs to the whole process: an operation must leave it alone."""

    def __init__(self):
        mask = os.umask(0o22)
        os.umask(mask)
        root = logging.getLogger()
        d = {"working directory": os.getcwd(), "umask": oct(mask), "environment": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL),
             "socket timeout": socket.getdefaulttimeout(), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "excepthook": sys.excepthook,
             "stdin": sys.stdin, "stdout": sys.stdout, "stderr": sys.stderr, "path": list(sys.path), "argv": list(sys.argv), "priority": os.getpriority(os.PRIO_PROCESS, 0),
             "logging": (root.level, list(root.handlers), logging.root.manager.disable), "random state": random.getstate(), "affinity": os.sched_getaffinity(0),
             "temporary directory": tempfile.gettempdir(), "integer digits": sys.get_int_max_str_digits(), "collector": (gc.isenabled(), gc.get_threshold()),
             "process group": (os.getpgrp(), os.getsid(0)), "trace": (sys.gettrace(), sys.getprofile()), "user": (os.getresuid(), os.getresgid())}
        for n in ("CPU", "FSIZE", "NOFILE", "AS", "CORE", "DATA", "STACK", "NPROC"):
            d["limit " + n] = resource.getrlimit(getattr(resource, "RLIMIT_" + n))
        for n in signal.valid_signals():
            d["signal %d" % n] = signal.getsignal(n)
        d["signal mask"] = signal.pthread_sigmask(signal.SIG_BLOCK, [])
        d["timer"] = signal.getitimer(signal.ITIMER_REAL)
        # helper programs are children, but reaped or not they are gone
        self.d = d

    def changes(self, other):
        return ["%s: %.150r instead of %.150r" % (k, other.d[k], self.d[k]) for k in self.d if self.d[k] != other.d[k]]


KINDS = ("copy", "copy", "copy", "nobmap", "sized", "stream", "stream", "create", "create", "filemap", "corrupt", "badbmap", "missing", "forbidden", "truncated")


def judge(r, what, ops):
    for o in ops:
        p = o.problems()
        r.check(p is None, "interference", "%s: operation %d (%s) %s" % (what, o.i, o.what, p))
        r.count("operations")
        if o.fails:
            r.count("failing")


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "procs":
        return run_procs(case, env, r, rng)
    shared = {}
    home = os.getcwd()
    os.chdir(env.dir)
    try:
        return run_ops(case, env, r, rng, shared)
    finally:
        os.chdir(home)


def run_ops(case, env, r, rng, shared):
    n = rng.randint(2, 6)
    ops = [Op(env, rng, i, rng.choice(KINDS), shared) for i in range(n)]
    what = "%s: %s" % (case["t"], ", ".join(o.kind for o in ops))
    before = State()
    if case["t"] == "threads":
        old = sys.getswitchinterval()
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
        # (no system-call monitor here: the operations share the process)
        ts = [threading.Thread(target=o.run, daemon=True) for o in ops]
        for t in ts:
            t.start()
            if rng.random() < 0.4:
                time.sleep(rng.random() * 0.01)
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        r.count("concurrent")
        lap = sum(1 for a in ops for b in ops if a.i < b.i and a.started < b.ended and b.started < a.ended)
        r.count("overlaps", lap)
        r.nontrivial = lap > 0
    elif case["t"] == "steps":
        live = [(o, o.steps()) for o in ops]
        sched = []
        while live:
            k = rng.randrange(len(live))
            o, g = live[k]
            sched.append(str(o.i))
            try:
                for _ in range(rng.choice([1, 1, 2, 10])):
                    next(g)
            except StopIteration:
                live.pop(k)
            except BaseException as e:
                o.error = e
                live.pop(k)
        what += ", schedule " + "".join(sched)[:60]
        r.count("interleaved")
        r.state("schedule", "".join(sched)[:24])
    else:
        for o in ops:
            o.run()
            r.count("states_compared")
            for x in before.changes(State()):
                r.bad("process-state", "%s: after operation %d (%s), %s" % (what, o.i, o.what, x))
        r.count("sequential")
    r.count("states_compared")
    if not r.viols:
        for x in before.changes(State()):
            r.bad("process-state", "%s: %s" % (what, x))
    os.chdir(env.dir)
    judge(r, what, ops)
    r.key = what + str(case["seed"])
    r.state(case["t"], *sorted(o.kind for o in ops))
    r.sample = {"case": what}
    return r


def run_procs(case, env, r, rng):
    """Command lines side by side, sharing inputs and directories."""
    w = gens.work(rng, maxbytes=rng.choice([100000, 2 << 20]), odd=0.3, nonempty=True)
    ext = rng.choice(EXTS)
    tmp = env.path("tmp")
    os.mkdir(tmp)
    d = env.path("in")
    os.mkdir(d)
    ip = sources.put(os.path.join(d, "image" + ext), comp.compress(w.data, ext))
    raw = w.img.write(os.path.join(d, "raw"))
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    bp = sources.put(os.path.join(d, "image.bmap"), doc.encode() if isinstance(doc, str) else doc)
    jobs = []
    for i in range(rng.randint(3, 6)):
        k = rng.choice(["found", "bmap", "nobmap", "create", "http", "corrupt"])
        dp = env.path("dest%d" % i)
        if k == "found":
            a = ["copy", ip, dp]
        elif k == "bmap":
            a = ["copy", "--bmap", bp, ip, dp]
        elif k == "nobmap":
            a = ["copy", "--nobmap", ip, dp]
        elif k == "http":
            u = sources.serve("side%d" % rng.randrange(1 << 40) + ext, images.read_file(ip), rng.choice(["length", "chunked"]))
            bu = sources.serve("side%d.map" % rng.randrange(1 << 40), images.read_file(bp))
            a = ["copy", "--bmap", bu, u, dp]
        elif k == "create":
            a = ["create", "-o", dp, raw]
        else:
            b = bytearray(w.data)
            s, e = gens.byte_ranges(w)[0]
            b[s] ^= 255
            bad = sources.put(os.path.join(d, "bad%d%s" % (i, ext)), comp.compress(bytes(b), ext))
            a = ["copy", "--bmap", bp, bad, dp]
        jobs.append((k, a, dp))
    what = "side by side: %s%s" % (", ".join(k for k, a, dp in jobs), ext)
    # the processes are started by a shell, which also waits for them
    args = []
    script = []
    for i, (k, a, dp) in enumerate(jobs):
        args += [str(len(a))] + a
    driver = ("import subprocess, sys\n"
              "v = sys.argv[1:]\nps = []\n"
              "while v:\n    n = int(v[0])\n    ps.append(subprocess.Popen([sys.executable, '-P', '-m', 'bmaptools'] + v[1:n + 1], stderr=subprocess.DEVNULL))\n    v = v[n + 1:]\n"
              "print(' '.join(str(p.wait()) for p in ps))\n")
    q = cli.run(args, dir=env.shm, conf=[("jitter", "-", "read", 500, rng.randrange(1 << 30))] if False else [], prog=[core.PYTHON, "-P", "-c", driver], env={"TMPDIR": tmp}, cwd=d)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.brief()))
        return r
    rcs = [int(x) for x in q.out.split()]
    if len(rcs) != len(jobs):
        r.inc("%s: %s" % (what, q.brief()))
        return r
    for (k, a, dp), rc in zip(jobs, rcs):
        if k == "corrupt":
            r.check(rc != 0, "interference", "%s: the corrupt copy succeeds" % what)
            r.count("failing")
            continue
        if not r.check(rc == 0, "interference", "%s: %s exits with %d" % (what, k, rc)):
            continue
        got = images.read_file(dp)
        if k == "create":
            bad = bmapref.check_generated(got, w.img, True)
            r.check(not bad, "interference", "%s: create: %s" % (what, bad[:2]))
        else:
            want = w.data if k == "nobmap" else gens.expected(w, b"", w.size)
            r.check(got == want, "interference", "%s: %s: %s" % (what, k, images.describe_diff(got, want)))
    r.check(not os.listdir(tmp), "left-over", "%s: %s" % (what, os.listdir(tmp)))
    r.count("side_by_side")
    r.count("operations", len(jobs))
    r.key = what + str(case["seed"])
    r.state("procs", *sorted(k for k, a, dp in jobs))
    r.sample = {"case": what}
    return r
