"""C15: block-device tuning is temporary."""
import errno
import gzip
import os
import random
import stat
from vmon import api, bmapref, cli, gens, images, sources
from vmon.core import Monitor, Result

PROP = "C15"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: emulated sysfs attributes with before/after state oracle, write-trace checker and enumerated faults/interrupts"
NOTE = ("The real command line and API copy to emulated block devices whose queue/scheduler and bdi/max_ratio are scratch files "
        "with kernel-like semantics (options in brackets, EINVAL for bad values). Every run ends in one of: success, bad "
        "bmap, checksum error, dying stream, read/write/fsync/open error at position n, lack of space, SIGINT at system call n "
        "(on image, destination or attributes); attributes themselves fail to open/read/write. Afterwards both attributes must "
        "have their initial values unless restoring was made to fail, which must be reported. Interrupts are delivered at "
        "system calls on monitored files, not between any two instructions; SIGKILL/SIGTERM are out of scope.")
RULE = ("Product of initial scheduler, initial ratio, disk/partition layout x ending, plus attribute faults and interrupts at "
        "enumerated positions. Non-trivial: tuning was attempted or legitimately unnecessary. Distinct by cell, ending, position.")
BATCH = 4
REQUIRE = {"runs": 700, "restored": 350, "failed_restored": 150, "interrupted_restored": 40, "unwritten": 150,
           "unreadable_ok": 12, "unchangeable_ok": 20, "restore_failed": 30, "partition": 150, "api": 100}

SCHED = ("[mq-deadline] kyber none", "mq-deadline [kyber] none", "mq-deadline kyber [none]", "[none] mq-deadline", "[bfq] mq-deadline",
         "[mq-deadline] none", "none", "[none]", "noop deadline [cfq]", None)
RATIO = ("100", "1", "50", "0", "2", "10", None)
ENDS = ("ok", "ok", "cksum", "badbmap", "gztrunc", "small", "read", "write", "fsync", "nospace", "open")
SIGS = [(role, op) for role in ("dest", "image", "sched", "ratio") for op in ("open", "read", "write", "fsync", "seek", "close")
        if not (op == "fsync" and role != "dest") and not (op == "write" and role == "image") and not (op == "read" and role == "dest")]


def cases(ctx):
    out = []
    for i in range(ctx.pick(3, 20)):
        for s in range(len(SCHED)):
            for q in range(len(RATIO)):
                rng = ctx.rng("pick", i, s, q)
                for e in rng.sample(ENDS, ctx.pick(3, 5)):
                    out.append({"seed": ctx.sub("e", i, s, q, e), "sched": s, "ratio": q, "end": e,
                                "t": "api" if rng.random() < 0.3 else "cli"})
        for role, op in SIGS:
            for k in (1, 2, 3, 4, 6) if role in ("sched", "ratio") or i else (1, 2, 4):
                out.append({"seed": ctx.sub("s", i, role, op, k), "end": "sig", "role": role, "op": op, "k": k,
                            "t": "api" if (k + i) % 3 == 0 else "cli", "sched": -1, "ratio": -1})
        for role in ("sched", "ratio"):
            for what in ("openr", "read", "openw", "write", "restore", "restore-open", "restore+fail", "both-restore"):
                for j in range(3):
                    out.append({"seed": ctx.sub("f", i, role, what, j), "end": "attr", "role": role, "what": what,
                                "t": "api" if j == 2 else "cli", "sched": -1, "ratio": -1})
    ctx.rng("order").shuffle(out)
    return out


def selected(path):
    try:
        t = open(path).read().strip()
    except OSError:
        return None
    if "[" in t:
        return t[t.index("[") + 1:t.index("]")]
    return t


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    end = case["end"]
    # interrupts and faults of the attributes need attributes which get changed
    s0 = SCHED[case["sched"]] if case["sched"] >= 0 else rng.choice(SCHED[:2] + SCHED[5:6])
    q0 = RATIO[case["ratio"]] if case["ratio"] >= 0 else rng.choice(("100", "50", "2"))
    w = gens.work(rng, maxbytes=rng.choice([300000, 4 << 20]), odd=0.2, nonempty=True, minblocks=2)
    gz = end == "gztrunc" or rng.random() < 0.2
    useb = end in ("cksum", "badbmap") or rng.random() < 0.7
    data = bytearray(w.data)
    if end == "cksum":
        data[gens.byte_ranges(w)[-1][1] - 1] ^= 1
    data = bytes(data)
    if gz:
        data = gzip.compress(data, 1)
        if end == "gztrunc":
            data = data[:rng.choice([len(data) // 2, len(data) - 1, max(20, len(data) // 3)])]
    ip = sources.put(env.path("img" + (".gz" if gz else "")), data)
    doc = bmapref.make(w.img, w.bs, w.ranges, "2.0", rng=rng)
    if end == "badbmap":
        doc = doc.replace(b"<MappedBlocksCount>", b"<MappedBlocksCount>9") if isinstance(doc, bytes) else doc.replace(
            "<MappedBlocksCount>", "<MappedBlocksCount>9")
    bp = sources.put(env.path("b"), doc)
    dev = w.size + rng.choice([0, 7777])
    if end in ("small", "nospace"):
        # unknown size: found out while writing
        dev = max(0, gens.byte_ranges(w)[-1][1] - rng.choice([1, 1000, w.size // 2]))
    dp = sources.put(env.path("sdx"), b"\xc3" * max(dev, 0))
    part = rng.random() < 0.4
    if part:
        r.count("partition")
        base = env.path("sys/devices/disk")
        os.makedirs(base + "/part")
        os.symlink("devices/disk/part", env.path("sys/240:9"))
    else:
        base = env.path("sys/240:9")
        os.makedirs(base)
    have = rng.random() < 0.9 or part
    if have or s0 is not None:
        os.makedirs(base + "/queue")
    if have or q0 is not None:
        os.makedirs(base + "/bdi")
    sp, qp = base + "/queue/scheduler", base + "/bdi/max_ratio"
    conf = [("track", "dest", dp), ("track", "image", ip), ("redirect", "/sys/dev/block/", env.path("sys/")), ("bdev", "dest", 240, 9)]
    if s0 is not None:
        sources.put(sp, s0.encode() + b"\n")
        conf += [("track", "sched", sp), ("sysfs", "sched", "list") + tuple(s0.replace("[", "").replace("]", "").split())]
    if q0 is not None:
        sources.put(qp, q0.encode() + b"\n")
        conf += [("track", "ratio", qp), ("sysfs", "ratio", "int")]
    # what the faults are
    what = "scheduler %r, ratio %r, %s, ending %s" % (s0, q0, "partition" if part else "disk", end)
    cnt = rng.choice([1, 1000])
    norestore = set()   # attributes which are made impossible to restore
    mustfail = end in ("cksum", "badbmap", "gztrunc", "small", "nospace")
    if end == "gztrunc" and useb:
        mustfail = False    # the missing part may not be needed
    if end == "read":
        conf.append(("fault", "image", "read", rng.randint(1, 3), 1000, "err", errno.EIO))
    elif end in ("write", "fsync"):
        conf.append(("fault", "dest", end, rng.choice([1, 1, 2, 3]), 1000, "err", rng.choice([errno.EIO, errno.ENOSPC])))
    elif end == "open":
        conf.append(("fault", "dest", "open", 1, 1000, "err", errno.EACCES))
        mustfail = True
    elif end == "sig":
        conf.append(("fault", case["role"], case["op"], case["k"], 1, "sig", 2))
        what += " at %s %d of %s" % (case["op"], case["k"], case["role"])
    elif end == "attr":
        role, f = case["role"], case["what"]
        what += " " + f + " of " + role
        er = rng.choice([errno.EIO, errno.EACCES, errno.EPERM])
        if f == "openr":
            conf.append(("fault", role, "openr", 1, 1000, "err", er))
        elif f == "read":
            conf.append(("fault", role, "read", 1, 1000, "err", errno.EIO))
        elif f == "openw":
            conf.append(("fault", role, "openw", 1, 1000, "err", er))
        elif f == "write":
            conf.append(("fault", role, "write", 1, 1000, "err", er))
        elif f in ("restore", "restore+fail"):
            conf.append(("fault", role, "write", 2, 1000, "err", er))
            norestore.add(role)
            mustfail = True
            if f == "restore+fail":
                conf.append(("fault", "dest", "write", 2, 1000, "err", errno.EIO))
        elif f == "restore-open":
            conf.append(("fault", role, "openw", 2, 1000, "err", er))
            norestore.add(role)
            mustfail = True
        elif f == "both-restore":
            for x in ("sched", "ratio"):
                conf.append(("fault", x, "write", 2, 1000, "err", er))
            norestore = {"sched", "ratio"}
            mustfail = True
    before = {"sched": selected(sp), "ratio": selected(qp)}
    tree = sorted(os.path.join(d, f)[len(base):] for d, _, fs in os.walk(base) for f in fs)
    if case["t"] == "cli":
        args = ["copy"] + (["--bmap", bp] if useb else ["--nobmap"]) + [ip, dp]
        q = cli.run(args, dir=env.shm, conf=conf, survivors=False)
        ok, brief, ev = q.rc == 0, q.brief(), q.events
        if q.hang:
            r.bad("hang", what + ": " + q.hang)
            return r
        if not ok and end != "sig" and "rror" not in q.text():
            r.bad("no-message", "%s: failure without a message: %s" % (what, brief))
    else:
        r.count("api")
        o = api.Outcome()
        m = Monitor(env, conf)
        with m:
            try:
                o = api.copy(ip, dp, bp if useb else None, bdev=True, sync=rng.random() < 0.7)
            except (KeyboardInterrupt, OSError) as e:
                o.exc, o.text = type(e).__name__, str(e)
        ok, brief, ev = o.ok, o.brief(), m.events
    r.count("runs")
    fired = [e for e in ev if e.op == "fault"]
    wr = {x: [e for e in ev if e.role == x and e.op == "write"] for x in ("sched", "ratio")}
    after = {"sched": selected(sp), "ratio": selected(qp)}
    now = sorted(os.path.join(d, f)[len(base):] for d, _, fs in os.walk(base) for f in fs)
    r.check(now == tree, "files-changed", "%s: attribute files are now %r" % (what, now))
    good = True
    for x, want in (("sched", "none"), ("ratio", "1")):
        changed = [e for e in wr[x] if e.ret > 0]
        if before[x] == want or before[x] is None:
            r.check(not wr[x], "needless-write", "%s: %s is written %d times although it is %r already (%s)" % (
                what, x, len(wr[x]), before[x], brief))
            r.count("unwritten")
        if x in norestore and after[x] != before[x]:
            if r.check(not ok, "restore-failure-hidden", "%s: %s cannot be restored (is %r), but the copy succeeds" % (what, x, after[x])):
                r.count("restore_failed")
                if case["t"] == "api":
                    r.check(o.exc == "Error", "restore-failure-obscure", "%s: %s" % (what, brief))
            continue
        good &= r.check(after[x] == before[x], "not-restored", "%s: %s was %r and is %r after %s" % (
            what, x, before[x], after[x], "success" if ok else brief))
        if changed:
            r.count("changed")
    # whatever the attributes are, they do not fail the copy
    if end == "ok" and not ok:
        r.bad("healthy-failed", "%s: %s" % (what, brief))
    if end == "attr" and case["what"] in ("openr", "read", "openw", "write"):
        r.check(ok, "attribute-fails-copy", "%s: %s" % (what, brief))
        r.count("unreadable_ok" if case["what"] in ("openr", "read") else "unchangeable_ok")
    if end == "ok" and s0 is not None and "none" not in s0:
        r.count("unchangeable_ok")
    if ok and mustfail and not norestore:
        r.bad("false-success", "%s: success" % what)
    if ok:
        got = images.read_file(dp)
        want = gens.expected(w, b"\xc3" * dev, dev) if useb else w.data + b"\xc3" * (dev - w.size)
        r.check(got == want, "wrong-contents", "%s: %s" % (what, images.describe_diff(got, want)))
    tuned = any(e.ret > 0 for x in wr for e in wr[x])
    if good and tuned:
        r.count("restored")
        if not ok:
            r.count("failed_restored")
        if end == "sig" and fired:
            r.count("interrupted_restored")
    if end == "sig" and not fired:
        r.nontrivial = False
    r.state(before["sched"], before["ratio"], end, case.get("role"), case.get("op"), case.get("what"), part, ok)
    r.key = "%s|%s|%s|%s" % (s0, q0, what, case["t"])
    r.sample = {"cell": what, "result": "ok" if ok else brief[:120], "attribute_writes": {x: len(v) for x, v in wr.items()}}
    return r
