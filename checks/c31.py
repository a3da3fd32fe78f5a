"""C31: a killed operation can be repeated, and what it leaves behind is not mistaken for a result."""
import os
import random
import signal
import time
from vmon import bmapref, cli, comp, core, gens, images, sources
from vmon.core import Result

PROP = "C31"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: process death injected at enumerated system calls and random moments, then recovery runs judged by the data oracle"
NOTE = ("Copies (file, emulated block device, API; raw, compressed, remote; with and without bmap) and bmap creations (new, existing and shared outputs) are "
        "killed (SIGKILL, SIGTERM, SIGINT, exit) at the n-th open, read, write, seek, truncate, fsync, ioctl or close of image, bmap, destination, output or "
        "sysfs attribute, within a write, or at a random moment, up to three times in a row. What is left of a bmap must be refused by copy unless it "
        "is complete; a half-written destination may only hold old and new data, the latter in mapped blocks; nothing else may change. Then the same command "
        "runs again, with everything the killed ones left behind and sometimes with another image under the same name, and must give exactly the right result. Loss of power is not simulated.")
RULE = "Scenario x role x operation x position x kind of death. Non-trivial: the process died. Distinct by scenario seed, deaths and positions."
BATCH = 2
CPU = 200
REQUIRE = {"deaths": 700, "recovered": 450, "leftover_refused": 200, "leftover_complete": 5, "partial_destination": 120, "timed": 50, "torn": 70, "again": 200, "other_image": 120}

SCEN = ("create-out", "create-out", "create-stdout", "create-api", "copy-file", "copy-file", "copy-bdev", "copy-api", "copy-nobmap", "copy-http", "copy-packed")
API = {
    "create-api": "import sys; from bmaptools import BmapCreate; BmapCreate.BmapCreate(sys.argv[1], sys.argv[2], 'sha256').generate()",
    "copy-api": ("import sys; from bmaptools import BmapCopy, TransRead\n"
                 "with open(sys.argv[3], 'r+b') as o, open(sys.argv[1], 'rb') as b:\n"
                 "    BmapCopy.BmapCopy(TransRead.TransRead(sys.argv[2]), o, b).copy()\n"),
}


def cases(ctx):
    out = []
    for i in range(ctx.pick(14, 120)):
        for k, s in enumerate(SCEN):
            out.append({"seed": ctx.sub("s", i, k), "scen": s})
    ctx.rng("order").shuffle(out)
    return out


class Scen:
    pass


def build(case, env, rng):
    s = Scen()
    s.kind = k = case["scen"]
    s.create = k.startswith("create")
    s.bdev = k == "copy-bdev"
    s.dir = env.path("files")
    os.mkdir(s.dir)
    s.tmp = env.path("tmp")
    os.mkdir(s.tmp)
    p = lambda n: os.path.join(s.dir, n)
    s.prog = [core.PYTHON, "-P", "-c", API[k]] if k in API else None
    if s.create:
        s.img = images.gen(rng, kind=rng.choice(["runs", "runs", "alternate", "alternate", "edges", None]), maxsize=rng.choice([200000, 2 << 20, 8 << 20]))
        s.ip = s.img.write(p("image"))
        s.out = p("out")
        s.roles = {"image": s.ip, "out": s.out}
        # what was there before: nothing, a bmap of another image, longer or shorter, anything
        kind = rng.choice(["none", "none", "none", "longer", "shorter", "junk", "own"])
        s.old = None
        if kind in ("longer", "shorter"):
            n = 3000 if kind == "longer" else 2
            other = images.Img(n * 8192, [])
            d = bmapref.make(other, 4096, [(2 * i, 2 * i) for i in range(n)], rng.choice(["2.0", "1.4"]))
            s.old = d if isinstance(d, bytes) else d.encode()
        elif kind == "junk":
            s.old = rng.randbytes(rng.choice([10, 5000, 100000]))
        elif kind == "own":
            # of the same image
            q = cli.run(["create", s.ip], dir=env.shm, preload=False)
            s.old = q.out
        s.args = {"create-out": ["create", "-o", s.out, s.ip], "create-stdout": ["create", s.ip], "create-api": [s.ip, s.out]}[k]
        s.what = "%s of %d bytes (%s), output %s" % (k, s.img.size, s.img.kind, kind)
        return s
    s.w = w = gens.work(rng, maxbytes=rng.choice([50000, 1 << 20, 8 << 20] + [8 << 20] * (k == "copy-api")), odd=0.2, minblocks=2, nonempty=True)
    if k in ("copy-api", "copy-bdev") and rng.random() < 0.6:
        # ranges of several batches
        for _ in range(50):
            if sum((l - f + 1) * w.bs >= 3 << 20 for f, l in w.ranges):
                break
            s.w = w = gens.work(rng, maxbytes=10 << 20, odd=0.2, minblocks=2, nonempty=True)
    ext = rng.choice([".gz", ".xz", ".bz2", ".tar.gz", ".zst", ".zip"]) if k == "copy-packed" else rng.choice(["", "", "", ".gz"])
    s.raw = comp.compress(w.data, ext)
    s.ip = sources.put(p("image" + ext), s.raw)
    s.whole = k == "copy-nobmap"
    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "2.0", "1.3", "1.2"]), rng=rng)
    doc = doc if isinstance(doc, bytes) else doc.encode()
    s.doc = doc
    found = k == "copy-file" and rng.random() < 0.5
    s.bp = sources.put(p("image" + ext + ".bmap" if found else "map"), doc)
    s.dp = p("dest")
    s.ext, s.found = ext, found
    s.roles = {"image": s.ip, "bmap": s.bp, "dest": s.dp}
    if s.bdev:
        s.old = rng.randbytes(w.size + rng.choice([0, 1, 70000]))
    elif k == "copy-api":
        s.old = rng.randbytes(rng.choice([w.size, w.size + 9999, w.size // 2]))
    else:
        n = rng.choice([None, 0, w.size // 2, w.size, w.size + 9999])
        s.old = None if n is None else rng.randbytes(n)
    if k == "copy-api":
        s.args = [s.bp, s.ip, s.dp]
    else:
        spec, bm = s.ip, s.bp
        if k == "copy-http":
            spec = sources.serve("kill%d%s" % (rng.randrange(1 << 40), ext), images.read_file(s.ip), rng.choice(["length", "chunked"]))
            bm = sources.serve("kill%d.map" % rng.randrange(1 << 40), doc, "length")
        s.args = ["copy"] + (["--nobmap"] if s.whole else [] if found else ["--bmap", bm]) + [spec, s.dp]
    if s.bdev:
        q = env.path("sys/240:9")
        os.makedirs(q + "/queue")
        os.makedirs(q + "/bdi")
        s.roles["sched"], s.roles["ratio"] = q + "/queue/scheduler", q + "/bdi/max_ratio"
    s.what = "%s%s of %d bytes in blocks of %d, %s" % (k, ext, w.size, w.bs, "no old data" if s.old is None else "%d bytes of old data" % len(s.old))
    return s


def reset(s):
    p = s.out if s.create else s.dp
    if s.old is not None:
        sources.put(p, s.old)
    elif os.path.lexists(p):
        os.unlink(p)
    for f in os.listdir(s.tmp):
        os.unlink(os.path.join(s.tmp, f))
    if s.bdev:
        sources.put(s.roles["sched"], b"[mq-deadline] kyber none\n")
        sources.put(s.roles["ratio"], b"100\n")


def restore(s):
    if s.create:
        os.unlink(s.ip)
        s.img.write(s.ip)
    else:
        sources.put(s.ip, s.raw)
        sources.put(s.bp, s.doc)


def go(s, env, faults=(), after=None):
    """Run the command; killed 'after' so many seconds."""
    conf = [("track", r, p) for r, p in s.roles.items() if os.path.lexists(p) or r in ("dest", "out")]
    # whatever else is created
    conf += [("trackdir", "other", s.dir), ("trackdir", "temp", s.tmp)]
    if not s.create:
        conf.append(("redirect", "/sys/dev/block/", env.path("sys/")))
    if s.bdev:
        conf += [("bdev", "dest", 240, 9), ("sysfs", "sched", "list", "mq-deadline", "kyber", "none"), ("sysfs", "ratio", "int")]
    conf += list(faults)
    kw = {}
    if s.kind == "create-stdout":
        conf.append(("trackfd", "out", 1))
        kw["stdout"] = open(s.out, "wb")
    t0 = time.monotonic()
    s.killed = False

    def tick(p):
        if after is not None and not s.killed and time.monotonic() - t0 >= after and p.poll() is None:
            s.killed = True
            p.send_signal(signal.SIGKILL)
    try:
        q = cli.run(s.args, dir=env.shm, conf=conf, prog=s.prog, env={"TMPDIR": s.tmp}, on_tick=tick, **kw)
    finally:
        if kw:
            kw["stdout"].close()
    q.time = time.monotonic() - t0
    return q


def others(s):
    """All files but the one which is written."""
    own = s.out if s.create else s.dp
    return {f: images.sha(images.read_file(os.path.join(s.dir, f))) for f in os.listdir(s.dir) if os.path.join(s.dir, f) != own}


def swap(s, rng):
    """Another image under the same name: the user noticed that it was the wrong one."""
    if s.create:
        img = images.gen(rng, kind=rng.choice(["runs", "alternate", "edges"]), maxsize=rng.choice([10000, 30000, 100000, 1 << 20]))
        os.unlink(s.ip)
        s.img = img
        s.img.write(s.ip)
        return True
    if s.kind == "copy-http":
        return False
    w = gens.work(rng, maxbytes=min(len(s.old), 2 << 20) if s.bdev else rng.choice([50000, 1 << 20]), odd=0.2, minblocks=2, nonempty=True)
    if s.bdev and w.size > len(s.old):
        return False
    s.w = w
    sources.put(s.ip, comp.compress(w.data, s.ext))
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    sources.put(s.bp, doc if isinstance(doc, bytes) else doc.encode())
    return True


def result(r, s, what, old=None):
    """After a successful run; 'old' was the destination before it."""
    if s.create:
        for b in bmapref.check_generated(images.read_file(s.out), s.img, True, "sha256")[:2]:
            r.bad("not-recovered", "%s: success, but %s" % (what, b))
        return
    got = images.read_file(s.dp)
    keep = s.bdev or s.kind == "copy-api"
    if old is None:
        old = s.old
    size = len(old) if s.bdev else s.w.size
    if s.whole:
        want = s.w.data + (old[s.w.size:] if s.bdev else b"")
    else:
        old = old if keep else b""
        want = gens.expected(s.w, old[:size], size)
    d = images.describe_diff(got, want)
    r.check(d is None, "not-recovered", "%s: success, but %s" % (what, d))


def partial(r, s, env, what):
    """What a killed copy may leave."""
    if not os.path.lexists(s.dp):
        r.check(s.old is None, "destination-lost", "%s: the destination is gone" % what)
        return
    got = images.read_file(s.dp)
    old = s.old or b""
    w = s.w
    most = max(len(old), w.size)
    if s.bdev and len(got) != len(old) or len(got) > most:
        r.bad("destination-size", "%s: the destination has %d bytes" % (what, len(got)))
        return
    new = bytearray(most)
    new[:w.size] = w.data
    mapped = bytearray(most)
    for a, b in ([(0, w.size)] if s.whole else gens.byte_ranges(w)):
        mapped[a:b] = b"\1" * (b - a)
    before = old + bytes(most - len(old))
    zero = not (s.bdev or s.kind == "copy-api")
    changed = 0
    step = 512
    for o in range(0, len(got), step):
        g = got[o:o + step]
        if g == before[o:o + step] or zero and not any(g):
            continue
        changed += 1
        for i, c in enumerate(g):
            p = o + i
            if c == before[p] or mapped[p] and c == new[p] or zero and c == 0:
                continue
            r.bad("foreign-data", "%s: byte %d of the destination is %d, was %d, the image has %d (%smapped)" % (what, p, c, before[p], new[p], "" if mapped[p] else "not "))
            return
    if changed and got[:w.size] != w.data:
        r.count("partial_destination")


def leftover(r, s, env, rng, what):
    """What a killed creation may leave."""
    if not os.path.lexists(s.out):
        r.check(s.old is None, "output-lost", "%s: the old output is gone" % what)
        return
    data = images.read_file(s.out)
    if data == s.old:
        return
    if not bmapref.check_generated(data, s.img, True, "sha256") if data else False:
        r.count("leftover_complete")
        return
    lp = sources.put(env.path("leftover"), data)
    dp = env.path("leftdest")
    q = cli.run(["copy"] + (["--no-verify"] if rng.random() < 0.4 else []) + ["--bmap", lp, s.ip, dp], dir=env.shm, preload=False)
    r.check(q.rc != 0, "leftover-accepted", "%s: %d bytes of the bmap were left behind; copying with it succeeds" % (what, len(data)))
    r.check(not q.hang, "hang", "%s: copying with the leftover hangs" % what)
    r.count("leftover_refused")
    for p in (lp, dp):
        if os.path.lexists(p):
            os.unlink(p)


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    s = build(case, env, rng)
    reset(s)
    before = others(s)
    q = go(s, env)
    if not r.check(q.rc == 0 and not q.hang, "failed", "%s: %s" % (s.what, q.brief())):
        return r
    result(r, s, s.what)
    counts = {}
    for e in q.events:
        if e.role in s.roles or e.role in ("other", "temp"):
            op = "seek" if e.op in ("seekdata", "seekhole") else e.op
            counts[e.role, op] = counts.get((e.role, op), 0) + 1
    took = q.time
    points = []
    for (role, op), n in sorted(counts.items()):
        if op in ("open", "openr", "read", "write", "seek", "trunc", "fsync", "ioctl", "close"):
            points += [(role, op, k) for k in ([1, 2, n] if n > 2 else [1, n])] + [(role, op, rng.randint(1, n))]
    if s.create:
        # a leftover may be taken for a bmap only at few of its stages
        points += [(a, op, k) for (a, op), n in sorted(counts.items()) if a != "image" and op in ("write", "trunc", "fsync") for k in rng.sample(range(1, n + 1), min(n, 6))]
    points = sorted(set(points))
    target = "out" if s.create else "dest"
    # the writes are the most interesting
    want = [x for x in points if x[0] in (target, "other", "temp") and x[1] in ("write", "trunc", "fsync")]
    rest = [x for x in points if x not in want]
    rng.shuffle(want)
    rng.shuffle(rest)
    plan = want[:env.ctx.pick(3, 6) * (2 if s.create else 1)] + rest[:env.ctx.pick(2, 6)] + ["time"]
    died = []
    for x in plan:
        reset(s)
        times = rng.choice([1, 1, 1, 2, 3])
        hist = []
        for n in range(times):
            y = x if n == 0 else rng.choice(points + ["time"])
            if y == "time":
                t = rng.choice([rng.random() * took, took * (0.5 + 0.5 * rng.random())])
                q = go(s, env, after=t)
                dead = s.killed
                hist.append("SIGKILL after %.2f s" % t)
                r.count("timed", int(dead))
            else:
                role, op, k = y
                how = rng.choice([("sig", 9), ("sig", 9), ("sig", 9), ("sig", 15), ("sig", 2), ("exit", 77)])
                faults = [("fault", role, op, k, 1) + how]
                if op == "write" and role in (target, "other", "temp") and rng.random() < 0.5:
                    # within the call: the rest of it is not written
                    if rng.random() < 0.5:
                        k = rng.randint(1, counts[role, op])
                        faults[0] = faults[0][:3] + (k,) + faults[0][4:]
                    faults = [("fault", role, op, k, 1, "short", rng.choice([1, 100, 4095, 4096, 4096, 65536, 524288])), ("fault", role, op, k + 1, 1) + how]
                    r.count("torn")
                q = go(s, env, faults)
                dead = q.rc == 77 or any(e.op == "fault" for e in q.events) and q.rc != 0
                hist.append("%s %d at %s %d of %s%s" % (how + (op, k, role, " (torn)" if len(faults) > 1 else "")))
            if q.hang:
                r.bad("hang", "%s, %s: %s" % (s.what, hist, q.hang))
                return r
            r.count("deaths", int(dead))
            r.count("again", int(dead and n > 0))
            what = "%s, %s" % (s.what, "; ".join(hist))
            if dead:
                if s.create:
                    leftover(r, s, env, rng, what)
                else:
                    partial(r, s, env, what)
            else:
                r.check(q.rc == 0 or any(e.op == "fault" for e in q.events), "not-recovered", "%s: not killed, but %s" % (what, q.brief()))
            now = others(s)
            for f in before:
                r.check(now.get(f) == before[f], "other-file", "%s: %s was changed" % (what, f))
            if r.viols:
                return r
            if not s.create and not os.path.lexists(s.dp) and s.old is not None:
                return r
        left = set(os.listdir(s.tmp)), set(now)
        sysfs = [images.read_file(s.roles[k]) for k in ("sched", "ratio")] if s.bdev else None
        was = s.__dict__.copy()
        old = None
        if rng.random() < (0.5 if s.create else 0.3) and swap(s, rng):
            r.count("other_image")
            what += ", with another image"
            if not s.create and os.path.lexists(s.dp):
                old = images.read_file(s.dp)
        q = go(s, env)
        what += ", and again"
        if not r.check(q.rc == 0 and not q.hang, "not-recovered", "%s: %s" % (what, q.brief())):
            return r
        result(r, s, what, old)
        if "another image" in what:
            s.__dict__.update(was)
            restore(s)
        r.check(set(os.listdir(s.tmp)) <= left[0] and set(others(s)) <= left[1], "left-behind", "%s: %s %s" % (what, set(os.listdir(s.tmp)) - left[0], set(others(s)) - left[1]))
        if s.bdev:
            r.check([images.read_file(s.roles[k]) for k in ("sched", "ratio")] == sysfs, "settings", "%s: settings were %s" % (what, sysfs))
        r.count("recovered")
        died.append(hist)
        r.state(s.kind, x if x == "time" else x[:2], times)
        if r.viols:
            return r
    r.key = s.what + str(died)
    r.nontrivial = bool(died)
    r.sample = {"scenario": s.what, "deaths": died[:3]}
    return r
