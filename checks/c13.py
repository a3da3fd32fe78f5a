"""C13: success is reported only after data is safely on the destination."""
import errno
import gzip
import os
import random
import resource
import signal
from vmon import api, bmapref, cli, core, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C13"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: enumerated system-call fault injection with a durability trace checker and a destination oracle"
NOTE = ("For each scenario (copy with/without bmap, raw/compressed, regular file/emulated block device, create to file/stdout) a "
        "dry run counts every open/read/seek/write/truncate/fsync/ioctl/close on image, bmap, destination, output and sysfs; "
        "then each call is made to fail (EIO, ENOSPC, EINTR, short transfer), the process is interrupted at it, allocations "
        "fail, or file size limits apply. Success is judged by destination contents and the recorded trace: no failed "
        "write/truncate/fsync, and an fsync after the last write. Enumerates single faults of sampled scenarios, with caps on "
        "long call sequences; power loss itself is not simulated, fsync is trusted.")
RULE = ("Scenario x role x operation x fault kind x position. Non-trivial: the fault fired. Distinct by scenario seed, role, "
        "operation, kind and position.")
BATCH = 1
REQUIRE = {"runs": 1200, "fired": 900, "fault_failed": 500, "success_durable": 60, "sigint": 100, "api": 200}
BUDGET = {"quick": 300, "thorough": 3000}

SCEN = ("bmap-file", "psplash-bmap-file", "bmap-bdev", "whole-file", "gz-bmap-file", "gz-whole-file", "gz-whole-bdev", "create-out", "create-stdout",
        "api-bmap", "api-whole", "api-raw", "api-bdev", "api-create",
        "bmap-bigbdev", "api-bmap-bigbdev", "whole-bigbdev")
NEED = {"dest": ("write", "trunc", "fsync"), "out": ("write", "trunc")}


def cases(ctx):
    out = []
    for i in range(ctx.pick(1, 6)):
        for s in SCEN:
            for role in ("dest", "image", "bmap", "out", "sched", "ratio", "fifo"):
                if s.startswith(("create", "api-create")) != (role == "out") and role != "image":
                    continue
                if role in ("sched", "ratio") and "bdev" not in s:
                    continue
                if role == "fifo" and "psplash" not in s:
                    continue
                if "big" in s and role != "dest":
                    continue
                if role == "bmap" and "bmap" not in s and s != "api-raw" and s != "api-bdev":
                    continue
                for part in range(2 if s.startswith("api") else 3):
                    out.append({"seed": ctx.sub("s", i, s), "t": "enum", "scen": s, "role": role, "part": part,
                                "parts": 2 if s.startswith("api") else 3, "x": i})
        for s in SCEN:
            if "big" in s:
                continue
            out.append({"seed": ctx.sub("m", i, s), "t": "mem", "scen": s})
            if s != "api-bdev":
                out.append({"seed": ctx.sub("l", i, s), "t": "limit", "scen": s})
    for i in range(ctx.pick(20, 200)):
        out.append({"seed": ctx.sub("r", i), "t": "devs"})
    ctx.rng("order").shuffle(out)
    return out


class Scen:
    pass


def build(case, env, rng):
    s = Scen()
    k = case["scen"]
    s.kind, s.cli = k, not k.startswith("api")
    s.create = "create" in k
    s.bdev = k.endswith("bdev")
    s.useb = "bmap" in k or k in ("api-raw", "api-bdev")
    if s.create:
        img = images.gen(rng, kind=rng.choice(["runs", "runs", "alternate", "edges"]), maxsize=2 << 20)
        s.img = img
        s.ip = img.write(env.path("img"))
        s.out = env.path("out")
        s.roles = {"image": s.ip, "out": s.out}
        return s
    w = gens.work(rng, maxbytes=4 << 20, odd=0.2, minblocks=2, nonempty=True)
    while "big" in k and w.mapped * w.bs < 13 << 20:
        # several synchronizations on the way
        w = gens.work(rng, bs=rng.choice([8192, 12288, 65536, 1 << 20]), maxbytes=24 << 20, minblocks=20)
    s.w = w
    data = gzip.compress(w.data, 1) if k.startswith("gz") else w.data
    s.ip = sources.put(env.path("img" + (".gz" if k.startswith("gz") else "")), data)
    s.bp = sources.put(env.path("b"), bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng))
    s.dp = env.path("dest")
    s.roles = {"image": s.ip, "bmap": s.bp, "dest": s.dp}
    s.oldlen = w.size + rng.choice([0, 1, 70000]) if s.bdev else rng.choice([0, w.size // 2, w.size, w.size + 9999])
    s.old = b"\xd5" * s.oldlen
    if "psplash" in k:
        s.roles["fifo"] = env.path("fifo")
        os.mkfifo(s.roles["fifo"])
        s.reader = os.open(s.roles["fifo"], os.O_RDONLY | os.O_NONBLOCK)
    if s.bdev:
        q = env.path("sys/240:9")
        os.makedirs(q + "/queue")
        os.makedirs(q + "/bdi")
        s.roles["sched"], s.roles["ratio"] = q + "/queue/scheduler", q + "/bdi/max_ratio"
    return s


def reset(s, env):
    if s.create:
        sources.put(s.out, b"")
        return
    sources.put(s.dp, s.old)
    if s.bdev:
        sources.put(s.roles["sched"], b"[mq-deadline] kyber none\n")
        sources.put(s.roles["ratio"], b"100\n")


def conf_of(s, env, faults):
    c = [("track", r, p) for r, p in s.roles.items()]
    if not s.create:
        c.append(("redirect", "/sys/dev/block/", env.path("sys/")))
    if s.bdev:
        c += [("bdev", "dest", 240, 9), ("sysfs", "sched", "list", "mq-deadline", "kyber", "none"), ("sysfs", "ratio", "int")]
    return c + faults


def execute(s, env, faults, **kw):
    """-> (ok, brief, events)"""
    reset(s, env)
    conf = conf_of(s, env, faults)
    if s.cli:
        if s.create:
            args = ["create"] + (["-o", s.out] if s.kind == "create-out" else []) + [s.ip]
            if s.kind == "create-stdout":
                # the file is inherited as descriptor 1
                conf.append(("trackfd", "out", 1))
                with open(s.out, "wb") as f:
                    q = cli.run(args, dir=env.shm, conf=conf, stdout=f, **kw)
                return q.rc == 0, q.brief(), q.events, q
        else:
            args = ["copy"] + (["--bmap", s.bp] if s.useb else ["--nobmap"]) + (
                ["--psplash-pipe", s.roles["fifo"]] if "fifo" in s.roles else []) + [s.ip, s.dp]
        q = cli.run(args, dir=env.shm, conf=conf, **kw)
        return q.rc == 0, q.brief(), q.events, q
    o = api.Outcome()
    fb = None
    m = Monitor(env, conf)
    with m:
        try:
            if s.create:
                fb = open(s.out, "w+")
                o = api.create(s.ip, fb)
            else:
                o = api.copy(s.ip, s.dp, s.bp if s.useb else None, bdev=s.bdev, sync=True, keep_open=True,
                             buffering=0 if s.kind == "api-raw" else -1)
            m.mark("returned")
        except (KeyboardInterrupt, OSError) as e:
            o.exc, o.text = type(e).__name__, str(e)
    # what is there although the file objects have not been closed yet
    s.snap = images.read_file(s.out if s.create else s.dp)
    for f in (fb,) + getattr(o, "kept", ()):
        try:
            if f is not None:
                f.close()
        except OSError:
            pass
    o.kept = ()
    return o.ok, o.brief(), m.events, o


def judge(r, s, env, ok, brief, ev, what, fault=None):
    """Success must mean success."""
    r.count("runs")
    if not s.cli:
        r.count("api")
    fired = [e for e in ev if e.op == "fault"]
    if fired:
        r.count("fired", 1)
    if not ok:
        if fired:
            r.count("fault_failed")
        return
    data = s.snap if not s.cli else images.read_file(s.out if s.create else s.dp)
    if s.create:
        bad = bmapref.check_generated(data, s.img, True, "sha256")
        if bad:
            r.bad("false-success", "%s: success, but the bmap is bad: %s" % (what, "; ".join(bad[:3])))
        role = "out"
    else:
        old = s.old if s.bdev or not s.cli else b""
        want = gens.expected(s.w, old, s.oldlen if s.bdev else s.w.size) if s.useb else (
            s.w.data + (s.old[s.w.size:] if s.bdev else b""))
        if data != want:
            r.bad("false-success", "%s: success, but %s" % (what, images.describe_diff(data, want)))
        role = "dest"
        wr = [e.seq for e in ev if e.role == "dest" and e.op in ("write", "trunc", "fallocate") and e.ret >= 0 and e.err == 0]
        fs = [e.seq for e in ev if e.role == "dest" and e.op == "fsync" and e.ret == 0]
        mk = [e.seq for e in ev if e.op == "mark"]
        if not s.cli and mk:
            fs = [x for x in fs if x < mk[0]]
        if wr and (not fs or fs[-1] < wr[-1]):
            r.bad("not-synchronized", "%s: success without fsync after the last write" % what)
    for e in ev:
        if e.role == role and e.op in NEED[role] and e.ret < 0 and e.err not in (errno.EINTR, errno.EAGAIN):
            if e.op == "trunc" and s.bdev:
                continue
            r.bad("error-ignored", "%s: success although a %s on the %s failed: %r" % (what, e.op, role, e))
            break
    if fault == "sigint" and fired:
        # after the last synchronization the data are safe
        last = [e.seq for e in ev if e.role == role and e.op in ("fsync", "write")]
        if last and fired[0].seq < last[-1] and not fired[0].extra.startswith("close"):
            r.bad("interrupt-ignored", "%s: success although the process was interrupted" % what)
    r.count("success_durable")


KINDS = {
    "write": [("err", errno.EIO), ("err", errno.ENOSPC), ("err", errno.EDQUOT), ("short", 1), ("short", 1000), ("sig", 2)],
    "trunc": [("err", errno.EIO), ("err", errno.EPERM), ("sig", 2)],
    "fsync": [("err", errno.EIO), ("err", errno.ENOSPC), ("err", errno.EDQUOT), ("sig", 2)],
    "read": [("err", errno.EIO), ("short", 1), ("short", 700), ("sig", 2)],
    "seek": [("err", errno.EIO), ("sig", 2)],
    "open": [("err", errno.EIO), ("err", errno.EMFILE), ("err", errno.EACCES), ("sig", 2)],
    "close": [("err", errno.EIO), ("sig", 2)],
    "ioctl": [("err", errno.EIO), ("sig", 2)],
}


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "devs":
        return devs(env, r, rng)
    s = build(case, env, rng)
    name = s.kind
    # what a healthy run does
    ok, brief, ev, _ = execute(s, env, [])
    if not r.check(ok, "healthy-failed", "%s without faults: %s" % (name, brief)):
        return r
    judge(r, s, env, ok, brief, ev, name + " without faults")
    if r.viols:
        return r
    if case["t"] == "mem":
        for n in range(1, 10):
            ms = rng.choice([60000, 200000, 900000])
            ok, brief, ev, _ = execute(s, env, [("memfail", ms, n, rng.choice([1, 1, 1000]))])
            judge(r, s, env, ok, brief, ev, "%s, allocation %d of at least %d bytes failing" % (name, n, ms))
            r.count("memfail_failed", int(not ok))
        r.key = name + "mem"
        r.state("mem", name)
        return r
    if case["t"] == "limit":
        size = len(images.read_file(s.out)) if s.create else (s.oldlen if s.bdev else s.w.size)
        for n in range(6):
            lim = rng.choice([0, 1, size // 2, max(0, size - 1), rng.randrange(size)])
            if s.cli:
                ok, brief, ev, _ = execute(s, env, [], fsize=max(lim, 0))
            else:
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                reset(s, env)
                resource.setrlimit(resource.RLIMIT_FSIZE, (max(lim, 4000000 if lim > 4000000 else lim), hard))
                try:
                    if s.create:
                        with open(s.out, "w+") as fb:
                            o = api.create(s.ip, fb)
                            try:
                                fb.close()
                            except OSError:
                                pass
                    else:
                        o = api.copy(s.ip, s.dp, s.bp if s.useb else None, bdev=s.bdev, keep_open=True,
                                     buffering=0 if s.kind == "api-raw" else -1)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                ok, brief, ev = o.ok, o.brief(), []
                s.snap = images.read_file(s.out if s.create else s.dp)
            what = "%s with file size limited to %d bytes" % (name, lim)
            if ok and not s.cli and not s.create:
                # no trace: only contents are judged
                old = s.old
                want = gens.expected(s.w, old, s.oldlen if s.bdev else s.w.size) if s.useb else s.w.data + (
                    s.old[s.w.size:] if s.bdev else b"")
                if s.snap != want:
                    r.bad("false-success", "%s: %s" % (what, images.describe_diff(s.snap, want)))
            elif s.cli:
                # the event log is subject to the limit, too
                judge2(r, s, ok, what)
            r.count("runs")
            r.count("limit_failed", int(not ok))
        r.key = name + "limit"
        r.state("limit", name)
        return r
    role = case["role"]
    counts = {}
    for e in ev:
        if e.role == role:
            op = "ioctl" if e.op == "ioctl" else e.op
            counts[op] = counts.get(op, 0) + 1
    counts["seek"] = max(counts.get("seek", 0), 6 if role in ("dest", "image", "out") else 0)
    todo = []
    for op, n in sorted(counts.items()):
        for kd in KINDS.get(op, []):
            cap = 4 if s.cli else 10
            if env.ctx.thorough:
                cap *= 3
            if n <= cap:
                ks = list(range(1, n + 1))
            else:
                ks = sorted(set([1, 2, n - 1, n] + [rng.randint(1, n) for _ in range(cap - 4)]))
            todo += [(op, kd, k) for k in ks]
    todo = todo[case["part"]::case["parts"]]
    for op, (act, arg), k in todo:
        cnt = 1 if act == "sig" or rng.random() < (0.6 if op != "fsync" else 0.8) else 1000
        what = "%s, %s number %d%s on the %s: %s %s" % (
            name, op, k, "" if cnt == 1 else " and later ones", role, act, errno.errorcode.get(arg, arg) if act == "err" else arg)
        ok, brief, ev2, o = execute(s, env, [("fault", role, op, k, cnt, act, arg)])
        if s.cli and o.hang:
            r.bad("hang", "%s: the command never ends (%s)" % (what, o.hang))
            break
        judge(r, s, env, ok, brief, ev2, what, "sigint" if act == "sig" else None)
        r.count("sigint", int(act == "sig"))
        r.state(name, role, op, act, arg, "ok" if ok else "failed")
        if len(r.viols) >= 3:
            break
    r.key = "%s|%s|%d|%d" % (name, role, case["part"], case["x"])
    r.nontrivial = bool(todo)
    r.sample = {"scenario": name, "role": role, "calls_in_healthy_run": counts, "faults": len(todo)}
    return r


def judge2(r, s, ok, what):
    if not ok:
        return
    data = images.read_file(s.out if s.create else s.dp)
    if s.create:
        bad = bmapref.check_generated(data, s.img, True, "sha256")
        if bad:
            r.bad("false-success", "%s: success, but the bmap is bad: %s" % (what, "; ".join(bad[:3])))
        return
    want = gens.expected(s.w, s.old if s.bdev else b"", s.oldlen if s.bdev else s.w.size) if s.useb else (
        s.w.data + (s.old[s.w.size:] if s.bdev else b""))
    if data != want:
        r.bad("false-success", "%s: success, but %s" % (what, images.describe_diff(data, want)))


def devs(env, r, rng):
    """Real special files: /dev/full, /dev/null, closed or full standard output."""
    w = gens.work(rng, maxbytes=1 << 20, nonempty=True)
    ip = sources.put(env.path("img"), w.data)
    bp = sources.put(env.path("b"), bmapref.make(w.img, w.bs, w.ranges))
    k = rng.choice(["full", "full", "null", "stdout-full", "stdout-closed", "out-full", "dir", "ro"])
    if k in ("full", "null"):
        args = ["copy"] + (["--bmap", bp] if rng.random() < 0.5 else ["--nobmap"]) + [ip, "/dev/" + k]
        q = cli.run(args, dir=env.shm)
        if k == "full":
            r.check(q.rc != 0, "false-success", "copy to /dev/full succeeds")
        else:
            r.check(q.rc == 0, "null-refused", "copy to /dev/null: " + q.brief())
    elif k == "stdout-full":
        with open("/dev/full", "wb") as f:
            q = cli.run(["create", ip], dir=env.shm, stdout=f)
        r.check(q.rc != 0, "false-success", "create succeeds although standard output is /dev/full")
    elif k == "stdout-closed":
        q = cli.run(["create", ip], dir=env.shm, prog=["/bin/sh", "-c", 'exec "$0" -P -m bmaptools "$@" >&-', core.PYTHON])
        r.check(q.rc != 0, "false-success", "create succeeds although standard output is closed")
    elif k == "out-full":
        q = cli.run(["create", "-o", "/dev/full", ip], dir=env.shm)
        r.check(q.rc != 0, "false-success", "create -o /dev/full succeeds")
    elif k == "dir":
        q = cli.run(["copy", "--bmap", bp, ip, env.shm], dir=env.shm)
        r.check(q.rc != 0, "false-success", "copy to a directory succeeds")
    else:
        q = cli.run(["copy", "--bmap", bp, ip, env.path("no/such/dir/dest")], dir=env.shm)
        r.check(q.rc != 0, "false-success", "copy into a missing directory succeeds")
    r.count("runs")
    r.state("devs", k)
    r.key = k + str(w.size)
    return r
