"""C14: block devices are opened exclusively and must be big enough."""
import errno
import os
import random
from vmon import api, bmapref, cli, comp, core, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: open/write trace checker on emulated block devices (busy, too small, exactly fitting)"
NOTE = ("The real command line and API copy to scratch files which the interposer presents as block devices (S_IFBLK, size "
        "limit with ENOSPC, EBUSY for exclusive opens of busy devices). The trace must show that every write goes through a "
        "descriptor opened with O_EXCL, and refused copies must not have written; final device contents are compared. Enumerates "
        "device size relative to image size x source kind x busy state, samples images. Trusts the emulation of the kernel's "
        "exclusive open.")
RULE = ("Product of source kind (size known or not), device size delta, busy flag, route; sampled images and bmaps. Non-trivial: "
        "the copy was attempted. Distinct by bmap/image hash and cell.")
BATCH = 6
REQUIRE = {"exclusive_writes": 200, "busy_refused": 50, "small_refused": 40, "full_failed": 15, "accepted": 90, "refused_opens": 30, "cli": 150}

REFUSALS = (errno.EPERM, errno.EACCES, errno.EINVAL, errno.EROFS, errno.ENXIO, errno.ENOMEDIUM, errno.EIO, errno.EBUSY, errno.EOPNOTSUPP, errno.EAGAIN)
SRC = ("raw-bmap", "raw-nobmap", "gz-bmap", "gz-nobmap", "stdin-nobmap", "stdin-bmap", "stdinpipe-nobmap", "http-nobmap", "http-bmap")
DELTA = ("exact", "+1", "+block", "+much", "-1", "-block", "half", "zero", "mapped-only")


def cases(ctx):
    out = []
    for i in range(ctx.pick(3, 40)):
        for s in SRC:
            for d in DELTA:
                out.append({"seed": ctx.sub("c", i, s, d), "t": "cli", "src": s, "delta": d, "busy": False})
                if i % 2 == 0 and not s.startswith("stdin"):
                    out.append({"seed": ctx.sub("a", i, s, d), "t": "api", "src": s, "delta": d, "busy": False})
            for j in range(3):
                out.append({"seed": ctx.sub("o", i, s, j), "t": "cli", "src": s, "delta": "exact", "busy": False, "refuse": True})
            for d in ("exact", "+much", "-1"):
                out.append({"seed": ctx.sub("b", i, s, d), "t": "cli", "src": s, "delta": d, "busy": True})
    ctx.rng("order").shuffle(out)
    return out


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    w = gens.work(rng, maxbytes=rng.choice([20000, 300000, 3 << 20]), odd=0.2, nonempty=True)
    src, how = case["src"].split("-")
    d = case["delta"]
    if how == "nobmap":
        w.ranges = [(0, w.nblocks - 1)]
    dev = {"exact": w.size, "+1": w.size + 1, "+block": w.size + w.bs, "+much": w.size + 500000, "-1": w.size - 1,
           "-block": max(0, w.size - w.bs), "half": w.size // 2, "zero": 0,
           "mapped-only": gens.byte_ranges(w)[-1][1]}[d]
    old = (rng.randbytes(251) * (dev // 251 + 1))[:dev]
    dp = sources.put(env.path("sdx"), old)
    bp = sources.put(env.path("b"), bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.3", "1.1"]), rng=rng))
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/")),
            ("bdev", "dest", 240, 9) + (("busy",) if case["busy"] else ())]
    kind, ext = {"raw": ("file", ""), "gz": ("file", ".gz"), "stdin": ("stdin", ""), "stdinpipe": ("stdinpipe", ""),
                 "http": ("http:length", rng.choice(["", ".gz"]))}[src]
    s = sources.make(rng, env, w.data, kind, ext)
    known = how == "bmap" or s.known
    dest = dp
    if rng.random() < 0.25:
        dest = env.path("link")
        os.symlink(dp, dest)
    what = "%s, device of %d bytes for an image of %d (block %d)%s" % (case["src"], dev, w.size, w.bs, ", busy" if case["busy"] else "")
    if case.get("refuse"):
        # the driver does not like the device to be opened: for good, or only this time
        refuse = rng.choice([1, 1, 2, 2, 2, 3]), rng.choice([1, 1000]), rng.choice(REFUSALS)
        conf.append(("fault", "dest", "open", refuse[0], refuse[1], "err", refuse[2]))
        what += ", opening it fails at %d with %s%s" % (refuse[0], errno.errorcode[refuse[2]], " and later" if refuse[1] > 1 else "")
    if case["t"] == "cli":
        r.count("cli")
        args = ["copy"] + (["--bmap", bp] if how == "bmap" else ["--nobmap"]) + [s.spec, dest]
        fi, prog = None, None
        if s.stdin:
            if kind == "stdinpipe":
                prog = ["/bin/sh", "-c", 'cat "$VMON_IN" | "$0" -P -m bmaptools "$@"', core.PYTHON]
            else:
                fi = open(s.stdin, "rb")
        q = cli.run(args, dir=env.shm, conf=conf, stdin=fi, prog=prog, env=dict(s.env, VMON_IN=s.stdin or ""), survivors=False)
        if fi:
            fi.close()
        ok, brief, ev = q.rc == 0, q.brief(), q.events
        if not ok and "ERROR" not in q.text() and "rror" not in q.text():
            r.bad("no-message", "%s: failure without a message: %s" % (what, brief))
    else:
        with Monitor(env, conf) as m:
            o = api.copy(s.spec, dest, bp if how == "bmap" else None, bdev=True, sync=rng.random() < 0.7)
        ok, brief, ev = o.ok, o.brief(), m.events
    got = images.read_file(dp)
    wr = gens.writes(ev)
    flags = {}
    for e in ev:
        if e.op == "open" and e.role == "dest" and e.ret >= 0:
            flags[e.fd] = int(e.extra, 16)
        elif e.op == "write" and e.role == "dest" and case["t"] == "cli":
            if not flags.get(e.fd, 0) & os.O_EXCL:
                r.bad("not-exclusive", "%s: a write goes through a descriptor which was not opened exclusively: %r" % (what, e))
                break
            r.count("exclusive_writes")
    fired = [e for e in ev if e.op == "fault"]
    if case.get("refuse") and fired:
        r.count("refused_opens")
        if refuse[1] > 1 or not ok:
            r.check(not ok, "refusal-accepted", "%s: success" % what)
            r.check(not wr and got == old, "refused-written", "%s: the device was written" % what)
        else:
            want = gens.expected(w, old, dev)
            r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want, "device")))
    elif case["busy"]:
        if r.check(not ok, "busy-accepted", "%s: success" % what):
            r.count("busy_refused")
        r.check(not wr and got == old, "busy-written", "%s: the busy device was written" % what)
    elif dev < w.size:
        if r.check(not ok, "small-accepted", "%s: success" % what):
            r.count("small_refused" if known else "full_failed")
        if known:
            r.check(not wr and got == old, "small-written", "%s: the device was written although the image cannot fit" % what)
    else:
        if r.check(ok, "fitting-refused", "%s: %s" % (what, brief)):
            r.count("accepted")
            want = gens.expected(w, old, dev)
            if got != want:
                r.bad("wrong-contents", "%s: %s" % (what, images.describe_diff(got, want, "device")))
    r.check(len(got) == dev, "resized", "%s: the device has %d bytes now" % (what, len(got)))
    r.key = "%s|%s|%s|%s|%s" % (images.sha(w.data), case["src"], d, case["busy"], case.get("refuse"))
    r.state(case["src"], d, case["busy"], case["t"], dest != dp)
    r.sample = {"cell": what, "result": "ok" if ok else brief[:150], "writes": len(wr)}
    return r
