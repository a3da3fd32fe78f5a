"""C11: hole detection never loses data on unusual file systems."""
import errno
import os
import random
import stat
from vmon import api, bmapref, cli, core, images
from vmon.core import Monitor, Result

PROP = "C11"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring: file-system personality emulation and system-call fault injection under bmap creation, independent bmap oracle"
NOTE = ("Bmap creation runs against an enumerated product of file-system personalities (FIEMAP absent/failing/emulated/real, "
        "SEEK_HOLE absent/stub/fine-grained/real, block sizes absent/zero/larger than the hole granularity, ZFS parameter states "
        "as seen through df and the parameter file), emulated at the libc boundary. Every resulting bmap is recomputed from the "
        "generator's ground truth; failing with an error is allowed, a false bmap is not. Trusts the emulation to be what such "
        "file systems answer.")
RULE = ("Product of personalities x sampled images. Non-trivial: creation ran to an end. Distinct by personality and image.")
BATCH = 6
REQUIRE = {"created": 120, "refused": 60, "zfs_refused": 30, "zfs_accepted": 8, "fallback_seek": 30, "cli": 30}

FIEMAPS = ("real", "err:EOPNOTSUPP", "err:ENOTTY", "err:EIO", "err:EINVAL", "err:ENOSYS", "emul", "clip", "split", "bad")
HOLES = ("real", "einval", "stub", "fine", "coarse")
SIZES = ("real", "none", "zero", "512", "1000", "16384", "131072", "1048576", "blk-only", "stub")


def cases(ctx):
    out = []
    for i in range(ctx.pick(2, 14)):
        for fm in FIEMAPS:
            for h in HOLES:
                for s in SIZES:
                    if fm in ("real", "emul", "clip", "split", "bad") and h != "real":
                        # SEEK_HOLE is not reached
                        if (len(fm) + len(h) + len(s) + i) % 4:
                            continue
                    out.append({"seed": ctx.sub("p", i, fm, h, s), "t": "prod", "fm": fm, "h": h, "s": s})
        for fm in ("emul", "err:EOPNOTSUPP"):
            for n in (1, 2, 3, 5, 9):
                for op in ("fiemap", "seek"):
                    out.append({"seed": ctx.sub("f", i, fm, n, op), "t": "fault", "fm": fm, "n": n, "op": op})
    for i in range(ctx.pick(2, 10)):
        for par in ("1\n", "0\n", None, "", "garbage\n", "1", "01\n", "\n", "dir", "unreadable"):
            for how in ("api", "cli", "link", "rel", "obj"):
                out.append({"seed": ctx.sub("z", i, par, how), "t": "zfs", "par": par, "how": how})
    ctx.rng("order").shuffle(out)
    return out


def put_ext(env, name, ext):
    p = env.path(name)
    with open(p, "w") as f:
        for o, n in ext:
            f.write("%d %d 0\n" % (o, n))
    return p


def cover(img, g):
    """The data segments rounded to granularity g and merged."""
    ext = []
    for o, d in img.segs:
        s, e = o // g * g, -(-(o + len(d)) // g) * g
        if ext and ext[-1][0] + ext[-1][1] >= s:
            ext[-1] = (ext[-1][0], max(e, sum(ext[-1])) - ext[-1][0])
        else:
            ext.append((s, e - s))
    return ext


def personality(rng, env, img, ip, d, fm, h, s):
    conf = [("track", "image", ip), ("trackdir", "dir", d)]
    if s == "none":
        conf += [("figetbsz", "image", -errno.ENOTTY)]
    elif s == "zero":
        conf += [("figetbsz", "image", 0), ("blksize", "image", 4096)]
    elif s == "blk-only":
        conf += [("figetbsz", "image", -errno.EINVAL), ("blksize", "image", rng.choice([512, 65536, 1 << 20, 1 << 22]))]
    elif s == "stub":
        conf += [("figetbsz", "image", -errno.ENOTTY), ("blksize", "image", -1)]
    elif s != "real":
        conf += [("figetbsz", "image", int(s))]
    bs = int(s) if s.isdigit() else 4096
    if fm.startswith("err:"):
        conf += [("fiemap", "image", "err", getattr(errno, fm[4:]))]
    elif fm in ("emul", "clip"):
        conf += [("fiemap", "image", fm, put_ext(env, "fext", cover(img, bs)))]
    elif fm == "bad":
        # extents which are not aligned to the block size
        conf += [("fiemap", "image", "emul", put_ext(env, "fext", cover(img, rng.choice([512, 1, 4096, 1000]))))]
    elif fm == "split":
        ext = []
        for o, n in cover(img, bs):
            while n > bs:
                k = bs * rng.randint(1, max(1, min(4, n // bs - 1)))
                ext.append((o, k))
                o, n = o + k, n - k
            ext.append((o, n))
        conf += [("fiemap", "image", rng.choice(["emul", "clip"]), put_ext(env, "fext", ext))]
    if h in ("einval", "stub"):
        conf += [("holes", "image", h), ("holes", "dir", h)]
    elif h != "real":
        g = rng.choice([1, 512, 1000, 2048]) if h == "fine" else rng.choice([8192, 65536, 1 << 20])
        conf += [("holes", "image", "emul", put_ext(env, "hext", cover(img, g)))]
    return conf


def judge(r, rng, img, bm, ok, brief, what, cs, with_cs):
    if not ok:
        r.count("refused")
        return
    bad = bmapref.check_generated(bm, img, with_cs, cs)
    r.count("created")
    if bad:
        r.bad("false-bmap", "%s: %s" % (what, "; ".join(bad[:4])))


def make_image(rng, d):
    img = images.gen(rng, maxsize=2 << 20, kind=rng.choice(["unaligned", "runs", "sparse", "edges", "single", "tail", "alternate",
                                                           "full", "empty"]))
    # a long hole after the first data, so that a wrong answer matters
    return img, img.write(os.path.join(d, rng.choice(["img", "my img", "x.raw"])))


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "zfs":
        return zfs(case, env, r, rng)
    d = env.path("dir")
    if case["t"] == "prod" and case["fm"] == "real" and rng.random() < 0.6:
        d = os.path.join(env.disk, "dir")
    os.mkdir(d)
    img, ip = make_image(rng, d)
    if case["t"] == "fault":
        conf = personality(rng, env, img, ip, d, case["fm"], "real", "real")
        conf.append(("fault", "image", case["op"], case["n"], 1, "err", rng.choice([errno.EIO, errno.ENOMEM, errno.EINTR])))
        what = "%s with %s call number %d failing" % (case["fm"], case["op"], case["n"])
    else:
        conf = personality(rng, env, img, ip, d, case["fm"], case["h"], case["s"])
        what = "FIEMAP %s, SEEK_HOLE %s, block size %s, %s image of %d bytes" % (case["fm"], case["h"], case["s"], img.kind, img.size)
    cs = rng.choice(["sha256", "md5", "sha1"])
    with_cs = rng.random() < 0.8
    bp = env.path("b")
    if rng.random() < 0.2:
        r.count("cli")
        args = ["create"] + ([] if with_cs else ["--no-checksum"])
        byout = rng.random() < 0.5
        q = cli.run(args + (["-o", bp] if byout else []) + [ip], dir=env.shm, conf=conf)
        ok, brief, bm = q.rc == 0, q.brief(), q.out
        if ok and byout:
            bm = images.read_file(bp)
        cs, ev, route = "sha256", q.events, "cli"
    else:
        with Monitor(env, conf) as m:
            if rng.random() < 0.5:
                with open(bp, "w+") as f, open(ip, "rb") as fi:
                    o = api.create(fi, f, cs, with_cs)
            else:
                o = api.create(ip, bp, cs, with_cs)
                if o.writer:
                    o.writer.__del__()
        ok, brief, ev, route = o.ok, o.brief(), m.events, "api"
        bm = images.read_file(bp)
    if any(e.op in ("seekdata", "seekhole") for e in ev):
        r.count("fallback_seek")
    if case["t"] == "fault" and ok and any(e.op == "fault" for e in ev):
        r.count("fault_survived")
    judge(r, rng, img, bm, ok, brief, what, cs, with_cs)
    r.key = "%s|%s" % (what, images.sha(bm))
    r.state(case["t"], case["fm"], case.get("h", case.get("op")), case.get("s", case.get("n")), "created" if ok else "refused")
    r.sample = {"personality": what, "route": route, "result": "created" if ok else brief[:120]}
    return r


DF = """#!/bin/sh
# tells that everything below the directory 'pool' is on ZFS
for last; do :; done
real=$(readlink -f -- "$last") || { echo "df: $last: No such file or directory" >&2; exit 1; }
case "$real" in
  */pool/*) echo "Filesystem                Type 1K-blocks     Used Available Use% Mounted on"
            echo "rpool/USERDATA/foo_5ucog2 %s  456499712 86956288 369543424  20%% $(dirname "$real")";;
  *) exec /usr/bin/df "$@";;
esac
"""


def zfs(case, env, r, rng):
    bindir = env.path("bin")
    pool, other = env.path("pool"), env.path("other")
    par = env.path("params")
    for x in (bindir, pool, other, par):
        os.mkdir(x)
    with open(bindir + "/df", "w") as f:
        f.write(DF.replace("%s ", rng.choice(["zfs", "zfs", "ZFS"]) + " ").replace("%%", "%"))
    os.chmod(bindir + "/df", 0o755)
    pf = par + "/zfs_dmu_offset_next_sync"
    p = case["par"]
    if p == "dir":
        os.mkdir(pf)
    elif p == "unreadable":
        with open(pf, "w") as f:
            f.write("1\n")
    elif p is not None:
        with open(pf, "w") as f:
            f.write(p)
    img, ip = make_image(rng, pool)
    how = case["how"]
    conf = [("redirect", "/sys/module/zfs/parameters/", par + "/"), ("track", "param", pf)]
    if p == "unreadable":
        conf.append(("fault", "param", "open", 1, 1000, "err", errno.EACCES))
    arg, cwd = ip, env.shm
    if how == "link":
        arg = other + "/link"
        os.symlink(ip, arg)
    elif how == "rel":
        arg, cwd = os.path.basename(ip), pool
    env_ = {"PATH": bindir + ":" + cli.BASE_ENV["PATH"]}
    bp = env.path("b")
    if how in ("api", "obj"):
        old = dict(os.environ)
        os.environ.update(env_)
        try:
            with Monitor(env, conf) as m:
                if how == "obj":
                    with open(ip, "rb") as fi, open(bp, "w+") as fb:
                        o = api.create(fi, fb)
                else:
                    o = api.create(ip, bp)
                    if o.writer:
                        o.writer.__del__()
        finally:
            os.environ.clear()
            os.environ.update(old)
        ok, brief = o.ok, o.brief()
    else:
        r.count("cli")
        q = cli.run(["create", "-o", bp, arg], env=env_, cwd=cwd, dir=env.shm, conf=conf)
        ok, brief = q.rc == 0, q.brief()
    what = "ZFS with parameter %r (%s)" % (p, how)
    good = p is not None and p.strip() in ("1", "01") and p != "unreadable"
    if good:
        if r.check(ok, "zfs-refused", "creation refused on %s: %s" % (what, brief)):
            r.count("zfs_accepted")
            judge(r, rng, img, images.read_file(bp), True, brief, what, None, True)
    elif r.check(not ok, "zfs-accepted", "creation accepted on " + what):
        r.count("zfs_refused")
    r.state("zfs", p, how)
    r.key = what + str(img.size)
    r.sample = {"personality": what, "result": brief[:120]}
    return r
