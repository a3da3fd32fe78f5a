"""C23: every copy terminates and cleans up its helpers."""
import errno
import json
import os
import random
import signal
import time
from vmon import bmapref, cli, comp, core, gens, httpd, images, sources
from vmon.core import Result

PROP = "C23"
LEVEL = "fault_enumeration"
TECHNIQUE = ("runtime monitoring with fault injection: progress-based hang/spin detection on the whole process tree and a census of surviving processes "
             "after every ending of real commands and streams")
NOTE = ("Real commands with every source kind (files, stdin, http, ssh, all decompressors, archives) times every ending: success, a bmap needing only the "
        "beginning of a long stream, checksum errors, I/O errors at enumerated transfers, dying or missing decompressors, interrupted and stalled "
        "transfers (with an error or an interrupt on the other side), refused bmaps. Streams are closed, dropped or abandoned at enumerated points. A hang is "
        "a process tree without a single context switch for 8 s, a spin is 90 s of CPU time; afterwards no descendant may remain. Images are up to 24 MiB.")
RULE = ("Sources x endings (+ fault positions), streams x closing points. Non-trivial: every case. Distinct by source, ending and position.")
BATCH = 3
WORKERS = 16
REQUIRE = {"ended": 500, "failed": 250, "ok": 100, "stalled": 60, "streams": 110, "early": 60, "interrupted": 10}

LOCAL = ("", ".gz", ".bz2", ".xz", ".lzo", ".lz4", ".zst", ".zip", ".tar.gz", ".tar.bz2", ".tar.xz", ".tar.zst", ".tar.lz4", ".tzo")
KINDS = [("file", x) for x in LOCAL] + [("stdin", ""), ("stdinopen", "")] + \
        [("http:length", x) for x in ("", ".gz", ".xz", ".tar.gz", ".zst", ".zip")] + [("http:chunked", x) for x in ("", ".bz2", ".tar.zst")] + \
        [("ssh", x) for x in ("", ".gz", ".tar.xz", ".lz4", ".tbz2")] + [("fileurl", ""), ("fileurl", ".gz")]
ENDS = ("ok", "start-only", "start-only", "start-cksum", "late-cksum", "write", "write", "write-late", "fsync", "trunc", "seek", "badbmap", "small", "died", "killed", "dead", "nodest", "imgread")
STALLED = [("http", x) for x in ("", ".gz", ".bz2", ".tar.gz", ".zst", ".tar.xz")] + [("ssh", x) for x in ("", ".gz", ".tar.zst", ".xz")] + [("stdin", "")]
SENDS = ("start-only", "write", "sigint", "sigint", "start-cksum", "fsync")
MIB = 1 << 20
SIZE = 24 * MIB


def setup(ctx):
    rng = ctx.rng("image")
    unit = rng.randbytes(96 << 10)
    data = (unit * (SIZE // len(unit) + 1))[:SIZE]
    d = os.path.join(ctx.shm, "src")
    os.mkdir(d)
    blobs = {}
    from concurrent.futures import ThreadPoolExecutor
    exts = sorted(set(x for _, x in KINDS) | set(x for _, x in STALLED))
    with ThreadPoolExecutor(8) as ex:
        for x, b in zip(exts, ex.map(lambda x: comp.compress(data, x), exts)):
            sources.put(os.path.join(d, "image.raw" + x), b)
            blobs[x] = len(b)
    # incompressible, so that a decompressor has much to do for every extension
    ctx.shared.update(data=data, src=d, blobs=blobs)


def cases(ctx):
    out = []
    for i in range(ctx.pick(1, 8)):
        for k, x in KINDS:
            for e in ENDS:
                if e in ("died", "killed", "dead") and not x:
                    continue
                if e == "imgread" and (k != "file" or x):
                    continue
                out.append({"t": "cli", "kind": k, "ext": x, "end": e})
        for k, x in STALLED:
            for e in SENDS:
                if (k, e) != ("stdin", "nothing"):
                    out.append({"t": "stall", "kind": k, "ext": x, "end": e})
        for k, x in KINDS:
            if not k.startswith("stdin"):
                for how in ("close", "del", "exit", "twice"):
                    out.append({"t": "stream", "kind": k, "ext": x, "how": how})
        for k, x in STALLED[:-1]:
            for how in ("close", "del", "exit"):
                out.append({"t": "stream", "kind": k + ":stall", "ext": x, "how": how})
        for k, x in KINDS:
            if not k.startswith("stdin"):
                out.append({"t": "api", "kind": k, "ext": x, "how": ("close", "del", "exit")[len(out) % 3]})
        for e in ("ok", "read", "write", "noimage", "sigint", "full"):
            out.append({"t": "create", "end": e})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


REAL = "/usr/local/bin:/usr/bin:/bin"


def wrappers(env, mode, n):
    """Decompressors which die."""
    d = env.path("dying")
    os.mkdir(d)
    for t in ("pigz", "gzip", "pbzip2", "bzip2", "xz", "lzop", "lz4", "zstd", "funzip"):
        p = os.path.join(d, t)
        real = next((os.path.join(x, t) for x in REAL.split(":") if os.path.exists(os.path.join(x, t))), None)
        if real is None:
            continue
        with open(p, "w") as f:
            if mode == "dead":
                f.write("#!/bin/sh\nexit 1\n")
            else:
                f.write("#!/bin/sh\n%s \"$@\" | head -c %d\n%s\n" % (real, n, "exit 1" if mode == "died" else "kill -9 $$"))
        os.chmod(p, 0o755)
    return d + ":/opt/venv/bin:" + REAL


def locate(env, kind, ext, e):
    """Where the image is: (spec, stdin path or None)."""
    path = os.path.join(env.shared["src"], "image.raw" + ext)
    if kind == "file":
        return path, None
    if kind.startswith("stdin"):
        return "-", path
    if kind == "fileurl":
        return "file://" + path, None
    if kind.startswith("http"):
        mode = kind[5:] or "length"
        with open(path, "rb") as f:
            return sources.serve("%s%s" % ("image.raw", ext), f.read(), mode), None
    e["PATH"] = (e["PATH"].partition(":")[0] + ":" if "PATH" in e else "") + sources.bindir(env)
    if ":" in kind:
        e["FAKE_SSH_CAT"] = kind.partition(":")[2]
    return "ssh://host" + path, None


def make_bmap(rng, env, which):
    """Returns (path, ranges, bs)."""
    data = env.shared["data"]
    bs = 4096
    n = SIZE // bs
    if which in ("start-only", "start-cksum"):
        ranges = [(rng.choice([0, 0, 3]), rng.choice([3, 20, 300]))]
        if rng.random() < 0.3:
            ranges.append((ranges[0][1] + 2, ranges[0][1] + 9))
    elif which == "none":
        ranges = []
    else:
        ranges = rng.choice([[(0, n - 1)], [(5, 1000), (1010, n - 1)], [(i * 100, i * 100 + 90) for i in range(n // 100)]])
    img = images.Img(SIZE, [(0, data)])
    body = bytearray(data)
    if which == "start-cksum":
        body[ranges[0][1] * bs] ^= 1
    elif which == "late-cksum":
        body[ranges[-1][1] * bs] ^= 1
    img = images.Img(SIZE, [(0, bytes(body))]) if which.endswith("cksum") else img
    doc = bmapref.make(img, bs, ranges, "2.0", rng=rng)
    doc = doc.encode() if isinstance(doc, str) else doc
    if which == "badbmap":
        doc = doc.replace(b"<MappedBlocksCount>", b"<MappedBlocksCount>9") if rng.random() < 0.5 else doc[:-30]
    return sources.put(env.path("the.bmap"), doc), ranges, bs


def check_dest(r, what, env, dp, ranges, bs):
    data = env.shared["data"]
    with open(dp, "rb") as f:
        size = os.fstat(f.fileno()).st_size
        r.check(size == SIZE, "wrong-contents", "%s: size %d" % (what, size))
        for a, b in ranges:
            f.seek(a * bs)
            if f.read((b - a + 1) * bs) != data[a * bs:(b + 1) * bs]:
                r.bad("wrong-contents", "%s: blocks %d-%d" % (what, a, b))
                return


def judge(r, what, q):
    if q.hang:
        r.bad("hang:" + q.hang, "%s: never ends (%s); %s" % (what, q.hang, q.text()[-200:]))
        return False
    r.count("ended")
    if q.survivors:
        r.bad("survivors", "%s: left behind: %s" % (what, "; ".join(q.survivors)[:400]))
    r.count("ok" if q.rc == 0 else "failed")
    return True


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    r.nontrivial = True
    return {"cli": run_cli, "stall": run_cli, "stream": run_stream, "api": run_stream, "create": run_create}[case["t"]](case, env, r, rng)


def run_cli(case, env, r, rng):
    kind, ext, end = case["kind"], case["ext"], case["end"]
    stall = case["t"] == "stall"
    e = {}
    total = env.shared["blobs"][ext]
    given = None
    if end in ("died", "killed", "dead"):
        e["PATH"] = wrappers(env, end, rng.choice([0, 1, 5000, 300000, 5 * MIB]))
    if stall:
        given = min(total - 1, rng.choice([total // 2, total // 2, 3 * MIB, total - 1]))
        if end in ("sigint",):
            given = rng.choice([0, 1, given, given])
        k2 = kind if kind == "stdin" else "%s:stall:%d" % (kind, given)
    else:
        k2 = kind
    spec, stdin = locate(env, k2, ext, e)
    bp, ranges, bs = make_bmap(rng, env, end)
    usebmap = end not in ("ok", "write", "write-late", "died", "killed", "dead", "fsync", "seek", "imgread", "sigint") or rng.random() < 0.6
    dp = env.path("dest")
    conf = [("track", "dest", dp)]
    if kind == "file":
        conf.append(("track", "image", spec))
    k = 0
    want = None
    if end in ("write", "write-late"):
        k = rng.choice([1, 1, 2, 3]) if end == "write" else rng.choice([6, 9, 12])
        conf.append(("fault", "dest", "write", k, 100000, "err", errno.ENOSPC))
        want = False
        if stall:
            k = 1
            conf[-1] = ("fault", "dest", "write", 1, 100000, "err", errno.EIO)
            want = None
    elif end in ("fsync", "trunc", "seek"):
        k = rng.choice([1, 1, 2])
        conf.append(("fault", "dest", end, k, 100000, "err", errno.EIO))
    elif end == "imgread":
        conf.append(("fault", "image", "read", rng.choice([1, 2, 9]), 100000, "err", errno.EIO))
        want = False
    elif end == "small":
        sources.put(dp, b"1" * (SIZE - 1))
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
        want = False
    elif end == "nodest":
        dp = env.path("no/dest")
        want = False
    elif end in ("badbmap", "start-cksum", "late-cksum", "dead"):
        want = False
    elif end in ("ok", "start-only"):
        want = True
    if end == "fsync" and stall:
        # a device which gets synchronized while the source stalls
        sources.put(dp, b"1" * SIZE)
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
    fi = wfd = th = None
    state = {}
    if stdin:
        if stall or kind == "stdinopen":
            rfd, wfd = os.pipe()
            fi = rfd
            import threading

            def feed():
                left = given if stall else SIZE
                try:
                    with open(stdin, "rb") as f:
                        while left:
                            b = f.read(min(left, 65536))
                            left -= len(b)
                            os.write(wfd, b)
                except OSError:
                    pass
                if not stall:
                    # everything was sent; close it so that the end can be seen
                    os.close(wfd)
                    state["closed"] = True
            th = threading.Thread(target=feed, daemon=True)
            th.start()
        else:
            fi = open(stdin, "rb")
    t0 = time.monotonic()
    # a stalled source provides no end: without an error nothing but waiting is right
    fires = end in ("start-only", "start-cksum", "sigint") or not stall

    def tick(p):
        now = time.monotonic() - t0
        if end == "sigint" and not state.get("sent") and now > state.setdefault("when", rng.choice([0.5, 0.8, 1.5])):
            state["sent"] = True
            os.kill(p.pid, signal.SIGINT)
    q = cli.run(["copy"] + (["--bmap", bp] if usebmap else ["--nobmap"]) + [spec, dp], dir=env.shm, conf=conf, env=e, stdin=fi, on_tick=tick,
                cwd=env.shm, quiet=5.0 if stall else 8.0, wall=60 if stall else 300)
    if fi is not None:
        os.close(fi) if isinstance(fi, int) else fi.close()
    if wfd is not None and not state.get("closed"):
        try:
            if not th.is_alive():
                os.close(wfd)
        except OSError:
            pass
    fired = [ev for ev in q.events if ev.op == "fault"]
    what = "%s%s from %s, %s%s%s" % ("stalled " if stall else "", "image" + ext, k2, end, " at %d" % k if k else "", ", with bmap" if usebmap else "")
    wrote = sum(ev.ret for ev in q.events if ev.role == "dest" and ev.op == "write" and ev.ret > 0)
    due = fired if end in ("write", "fsync") else wrote >= sum(b - a + 1 for a, b in (ranges if end == "start-only" else ranges[:1])) * bs
    if stall and end != "sigint" and not due:
        # not everything needed has come, so waiting for the source is right
        r.nontrivial = False
        r.count("waiting")
        r.state("waiting", kind, ext, end)
        if q.hang:
            r.key = what
            r.count("stalled")
            return r
    r.key = "%s|%s|%s" % (what, given, ranges[:2])
    r.state(case["t"], kind, ext, end, usebmap, q.rc)
    r.sample = {"case": what, "result": q.rc, "survivors": q.survivors}
    if stall:
        r.count("stalled")
    if end == "sigint":
        r.count("interrupted")
    if not judge(r, what, q):
        return r
    if end.startswith("start-only"):
        r.count("early")
        if stall:
            # enough was delivered in the first place?
            need = (ranges[-1][1] + 1) * bs
            want = None if ext or given < need + 2 * MIB else True
    if want is not None:
        r.check((q.rc == 0) == want, "verdict", "%s: %s" % (what, q.brief()))
    if end == "sigint":
        r.check(q.rc != 0, "verdict", "%s: %s" % (what, q.brief()))
    if q.rc == 0 and os.path.exists(dp):
        check_dest(r, what, env, dp, ranges if usebmap else [(0, SIZE // bs - 1)], bs)
    return r


def run_stream(case, env, r, rng):
    kind, ext, how = case["kind"], case["ext"], case["how"]
    e = {}
    total = env.shared["blobs"][ext]
    stalled = kind.endswith(":stall")
    k2 = kind
    if stalled:
        k2 = kind + ":%d" % rng.choice([0, total // 2, min(total - 1, MIB), total - 1])
    spec, _ = locate(env, k2, ext, e)
    steps = []
    d = {"path": spec, "end": how, "steps": steps}
    if case["t"] == "api":
        which = rng.choice(["start-cksum", "start-only", "late-cksum", "write"])
        bp, ranges, bs = make_bmap(rng, env, which)
        d["copy"] = {"dest": env.path("dest"), "bmap": bp, "wait": rng.random() < 0.5}
        what = "API copy, %s%s, %s, %s" % (k2, ext, which, how)
    else:
        pos = 0
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            if stalled:
                steps.append(["sleep", rng.choice([0, 0.1])])
                continue
            n = rng.choice([1, 100, 70000, MIB, 5 * MIB])
            steps.append(rng.choice([["read", n], ["read", n], ["seek", pos + n]]))
            pos += n
        if not stalled and rng.random() < 0.15:
            steps.append(["read", -1])
        if ext and rng.random() < 0.15:
            steps.append(["kill"])
        what = "stream %s%s, %s, then %s" % (k2, ext, steps, how)
    conf = [("track", "dest", env.path("dest"))]
    if case["t"] == "api" and which == "write":
        conf.append(("fault", "dest", "write", rng.choice([1, 2]), 100000, "err", errno.EIO))
    q = cli.run([json.dumps(d)], dir=env.shm, conf=conf, env=e, prog=[core.PYTHON, "-P", os.path.join(core.HERE, "stream_driver.py")], cwd=env.shm)
    r.key = what
    r.count("streams")
    if stalled:
        r.count("stalled")
    r.state("stream", kind, ext, how, case["t"], len(steps), q.rc)
    r.sample = {"case": what, "report": q.out.decode(errors="replace")[:300]}
    if not judge(r, what, q):
        return r
    try:
        rep = json.loads(q.out.decode().splitlines()[-1])
    except (ValueError, IndexError):
        r.bad("crash", "%s: %s" % (what, q.brief()))
        return r
    if how in ("close", "twice"):
        r.check(not rep["kids"], "children-after-close", "%s: processes %s remain" % (what, rep["kids"]))
        if case["t"] != "api":
            r.check(rep["threads"] == 1, "threads-after-close", "%s: %d threads remain" % (what, rep["threads"]))
            r.check(rep["fds"] <= 0, "descriptors-after-close", "%s: %d pipes or sockets remain" % (what, rep["fds"]))
    r.check("close_error" not in rep, "close-fails", "%s: %s" % (what, rep.get("close_error")))
    r.check(q.rc == 0, "crash", "%s: %s" % (what, q.brief()))
    if case["t"] == "api" and which in ("start-cksum", "late-cksum", "write"):
        r.check(rep["error"], "verdict", "%s: no error" % what)
    return r


def run_create(case, env, r, rng):
    end = case["end"]
    ip = os.path.join(env.shared["src"], "image.raw")
    out = env.path("out")
    conf = [("track", "image", ip), ("track", "out", out)]
    if end in ("read", "sigint"):
        conf.append(("fault", "image", "read", rng.choice([1, 5, 20]), 1000, *(("err", errno.EIO) if end == "read" else ("sig", 2))))
    elif end in ("write", "full"):
        conf.append(("fault", "out", "write", 1, 1000, "err", errno.ENOSPC))
    if end == "noimage":
        ip += ".nothere"
    q = cli.run(["create", "-o", out, ip], dir=env.shm, conf=conf, cwd=env.shm)
    what = "create, %s" % end
    r.key = "%s|%d" % (what, case["seed"])
    r.state("create", end, q.rc)
    if judge(r, what, q):
        r.check((q.rc == 0) == (end == "ok"), "verdict", "%s: %s" % (what, q.brief()))
    return r
