"""C07: a whole-image copy (without bmap) is complete or fails."""
import os
import random
import subprocess
from vmon import api, cli, comp, core, gens, httpd, images, sources
from vmon.core import Monitor, Result

PROP = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: completeness oracle over copies from healthy, truncated, corrupted and interrupted sources"
NOTE = ("Real copies without bmap from raw/compressed local files, stdin, HTTP (length, chunked, close, slow, redirect) and "
        "a fake ssh, to files with old contents and emulated block devices; damage is injected into compressed data, "
        "transfers and announced sizes. Oracle: success implies that the destination equals the whole image (and has its "
        "length), healthy sources succeed. Sampled; a raw HTTP body without length cannot be judged and is not used.")
RULE = ("Random (image content and size around block/batch boundaries, source, compression, damage kind and position, "
        "destination, route). Non-trivial: the copy ran; distinct by data hash, source, damage and destination.")
BATCH = 8
REQUIRE = {"complete": 300, "damaged_refused": 250, "cli": 80, "http": 60, "ssh": 20, "sum": 60}

EXTS = ("", "", ".gz", ".bz2", ".xz", ".lzo", ".lz4", ".zst", ".zip", ".tar.gz", ".tar.xz", ".tar.bz2", ".tar.zst", ".tar.lz4",
        ".tar.lzo")


def cases(ctx):
    out = [{"seed": ctx.sub("ok", i), "t": "ok"} for i in range(ctx.pick(450, 8000))]
    out += [{"seed": ctx.sub("dmg", i), "t": "dmg"} for i in range(ctx.pick(900, 16000))]
    out += [{"seed": ctx.sub("okcli", i), "t": "okcli"} for i in range(ctx.pick(120, 2000))]
    out += [{"seed": ctx.sub("dmgcli", i), "t": "dmgcli"} for i in range(ctx.pick(120, 2000))]
    ctx.rng("order").shuffle(out)
    return out


def pick_data(rng):
    n = rng.choice([0, 1, 100, 4095, 4096, 4097, 8192, 12288, rng.randint(1, 60000), rng.randint(1, 300) * 4096, (1 << 20) - 1,
                    1 << 20, (1 << 20) + 1, (1 << 20) + 4096, 2 << 20, (2 << 20) + 5000, rng.randint(1, 5 << 20),
                    (7 << 20) + rng.choice([0, 1, 4096])])
    k = rng.choice(["rand", "rand", "zero", "mixed"])
    if k == "rand":
        return rng.randbytes(n)
    if k == "zero":
        return bytes(n)
    d = bytearray(rng.randbytes(n))
    for _ in range(5):
        if n > 100:
            a = rng.randrange(n)
            b = min(n, a + rng.randint(1, n))
            d[a:b] = bytes(b - a)
    return bytes(d)


def prep_dest(rng, env, size, bdev):
    dp = env.path("dest")
    if bdev:
        n = size + rng.choice([0, 0, 1, 4096, 77777])
    else:
        n = rng.choice([None, 0, size // 2, size, size + 1, size + 4096, size + 300000])
    if n is None:
        return dp, None
    old = (b"\xd5old" * (n // 4 + 1))[:n]
    sources.put(dp, old)
    return dp, old


def conf_for(env, dp, bdev):
    conf = [("track", "dest", dp), ("redirect", "/sys/dev/block/", env.path("nosys/"))]
    if bdev:
        conf.append(("bdev", "dest", 240, 9))
    return conf


def run_copy(case, env, rng, s, dp, bdev, r, size=None, passsize=True):
    if s.env.get("PATH"):
        r.count("ssh")
    if s.kind.startswith("http"):
        r.count("http")
    if case["t"].endswith("cli"):
        r.count("cli")
        feeder = None
        stdin = None
        if s.stdin:
            if s.kind == "stdin":
                stdin = open(s.stdin, "rb")
            else:
                feeder = subprocess.Popen(["sh", "-c", 'head -c 5 "$1"; sleep 0.05; tail -c +6 "$1"', "sh", s.stdin],
                                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                cli.keep(feeder.pid)
                stdin = feeder.stdout
        q = cli.run(["copy", "--nobmap", s.spec, dp], dir=env.shm, conf=conf_for(env, dp, bdev), env=s.env, stdin=stdin)
        if stdin:
            stdin.close()
        if feeder:
            feeder.kill()
            feeder.wait()
        if q.hang:
            r.bad("hang", "%s: %s" % (s.spec, q.brief()))
        return q.rc == 0, q.brief()
    with sources.environ(s.env), Monitor(env, conf_for(env, dp, bdev)):
        o = api.copy(s.spec, dp, None, bdev=bdev, size=size, passsize=passsize, sync=False,
                     mode=None if bdev else rng.choice(["wb", "r+b"]) if os.path.exists(dp) else "wb")
    return o.ok, o.brief()


def verdict(r, ok, brief, data, dp, old, bdev, what, must):
    """must: 'ok', 'fail' or None (success implies completeness)."""
    if must == "ok":
        r.check(ok, "complete-refused", "%s: %s" % (what, brief))
    if must == "fail":
        r.check(not ok, "damage-accepted", "reported success: %s" % what)
    if not ok:
        return
    got = images.read_file(dp)
    want = data
    if bdev:
        want = data + old[len(data):]
    if got != want:
        r.bad("incomplete" if must == "ok" else "damage-accepted",
              "success, but: %s (%s)" % (images.describe_diff(got, want), what))
    r.count("complete")


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    data = pick_data(rng)
    bdev = rng.random() < 0.3
    usecli = case["t"].endswith("cli")
    if case["t"].startswith("dmg"):
        return damaged(case, env, rng, r, data, bdev)
    ext = rng.choice(EXTS)
    kinds = ["file", "file", "http:length", "http:chunked", "http:close", "http:slow", "http:redirect", "fileurl", "ssh", "sshslow"]
    if usecli:
        kinds += ["stdin", "stdinpipe", "stdinpipe"]
    kind = rng.choice(kinds)
    if kind.startswith("stdin"):
        ext = ""
    s = sources.make(rng, env, data, kind, ext, rng.choice([0, 0, 512, 10240, 65536, 1 << 20]) if ext.startswith(".tar") else 0)
    dp, old = prep_dest(rng, env, len(data), bdev)
    ps = rng.random() < 0.6
    size = len(data) if rng.random() < 0.3 else None
    ok, brief = run_copy(case, env, rng, s, dp, bdev, r, size, ps)
    what = "%d bytes from %s%s to %s with %s old bytes" % (len(data), kind, ext, "block device" if bdev else "file",
                                                           None if old is None else len(old))
    verdict(r, ok, brief, data, dp, old, bdev, what, "ok")
    r.key = "%s|%s|%s|%s" % (images.sha(data), kind, ext, bdev)
    r.state("ok", kind, ext, bdev, "cli" if usecli else "api", old is None)
    r.sample = {"bytes": len(data), "source": kind + ext, "bdev": bdev, "ok": ok}
    return r


def damaged(case, env, rng, r, data, bdev):
    if not data:
        data = b"x" * 5000
    kind = rng.choice(["trunc", "trunc", "flip", "flip", "flip", "short", "short", "chunkcut", "reset", "sshdie", "announced",
                       "httptrunc", "httpflip", "comptail", "sum", "sum"])
    if kind == "announced" and case["t"].endswith("cli"):
        kind = "trunc"
    must = None
    size = None
    if kind in ("trunc", "flip", "httptrunc", "httpflip", "comptail"):
        ext = rng.choice([e for e in EXTS if e])
        blob = comp.compress(data, ext)
        n = len(blob)
        if kind in ("trunc", "httptrunc"):
            p = rng.choice([1, 2, 10, n - 1, n - 2, n - 4, n - 5, n - 8, n - 9, n - 12, rng.randrange(1, n), rng.randrange(1, n), n // 2])
            p = max(1, min(n - 1, p))
            blob = blob[:p]
        elif kind == "comptail":
            # damage near the end, where the checksums live
            p = max(0, n - rng.randint(1, 40))
            blob = blob[:p] + bytes([blob[p] ^ (1 << rng.randrange(8))]) + blob[p + 1:]
        else:
            p = rng.choice([0, 1, rng.randrange(n), rng.randrange(n), n - 1, min(n - 1, 20)])
            b = bytearray(blob)
            for _ in range(rng.choice([1, 1, 1, 5])):
                b[p] ^= 1 << rng.randrange(8)
                p = rng.randrange(n)
            blob = bytes(b)
            if blob == comp.compress(data, ext):
                r.nontrivial = False
                return r
        if kind.startswith("http"):
            s = sources.Source(sources.serve("d" + ext, blob, rng.choice(["length", "chunked", "close", "slow"])), "http:dmg", False)
        else:
            s = sources.Source(sources.put(env.path("d" + ext), blob), "file", False)
        # (the archive members of a zip are followed by data nobody needs)
        if kind in ("trunc", "httptrunc") and ext != ".zip" and p < n - 64 and len(data) > 4096:
            must = "fail"
    elif kind == "sum":
        # one wrong byte which only the checksum tells
        data = data[:70000]
        ext = rng.choice([".gz", ".bz2", ".zst", ".lz4", ".tar.gz", ".tar.bz2", ".tar.zst", ".tar.lz4"])
        p = rng.randrange(len(data))
        bad = data[:p] + bytes([data[p] ^ rng.randint(1, 255)]) + data[p + 1:]
        blob = comp.wrong(data, bad, ext, rng.choice([0, 0, 10240, 400000]) if ext.startswith(".tar") else 0)
        if blob is None:
            blob = comp.wrong(data, bad, ext)
        if blob is None:
            r.nontrivial = False
            return r
        if rng.random() < 0.3:
            s = sources.Source(sources.serve("d" + ext, blob, rng.choice(["length", "chunked", "close", "slow"])), "http:dmg", False)
        else:
            s = sources.Source(sources.put(env.path("d" + ext), blob), "file", False)
        must = "fail"
        r.count("sum")
    elif kind in ("short", "chunkcut", "reset"):
        ext = rng.choice(["", "", ".gz", ".xz", ".zst", ".tar.gz"])
        blob = comp.compress(data, ext)
        n = len(blob)
        cut = max(0, min(n - 1, rng.choice([0, 1, n - 1, n - 1, n // 2, n // 4096 * 4096 - 4096, (1 << 20), rng.randrange(n)])))
        s = sources.Source(sources.serve("d" + ext, blob, "%s:%d" % (kind, cut)), "http:dmg", False)
        must = "fail"
        p = cut
    elif kind == "sshdie":
        ext = rng.choice(["", ".gz", ".bz2", ".tar.xz"])
        blob = comp.compress(data, ext)
        p = rng.choice([0, 1, len(blob) // 2, len(blob), rng.randrange(len(blob))])
        mode = rng.choice(["fail", "die:%d" % p])
        s = sources.Source(sources.ssh_url(sources.put(env.path("d" + ext), blob)), "ssh", False,
                           {"PATH": sources.bindir(env), "FAKE_SSH_CAT": mode})
        must = "fail"
    else:
        ext = rng.choice(["", "", ".gz", ".lz4"])
        s = sources.Source(sources.put(env.path("d" + ext), comp.compress(data, ext)), "file", False)
        p = rng.choice([1, 2, 100, 4095, 4096, 8192, 1 << 20, 10 << 20])
        size = len(data) + p
        must = "fail"
    dp, old = prep_dest(rng, env, (size or len(data)), bdev)
    ok, brief = run_copy(case, env, rng, s, dp, bdev, r, size, size is not None)
    what = "%s of %s at %d, %d bytes of data, to %s" % (kind, ext or "raw", p, len(data), "block device" if bdev else "file")
    verdict(r, ok, brief, data, dp, old, bdev, what, must)
    if not ok:
        r.count("damaged_refused")
    r.key = "%s|%s|%s|%d|%s" % (images.sha(data), kind, ext, p, bdev)
    r.state("dmg", kind, ext, bdev, case["t"], ok)
    r.sample = {"damage": kind, "ext": ext, "at": p, "bytes": len(data), "refused": not ok}
    return r
