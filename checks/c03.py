"""C03: corrupt image data never passes checksum verification."""
import os
import random
from vmon import api, bmapref, cli, comp, core, gens, images
from vmon.core import Result

PROP = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: verdict oracle over copies of systematically and randomly corrupted images"
NOTE = ("The real copy runs on images corrupted at boundary and random positions (bit flips, swapped/zeroed/duplicated "
        "blocks, truncation, shifted data) with bmaps from an independent writer for every checksum-carrying version "
        "and hash type; the oracle knows which bytes are covered by a checksum. Sampled, not exhaustive.")
RULE = ("Random (image, ranges, version, hash, corruption kind and position, raw or compressed source, API or CLI). "
        "Non-trivial: the mutated image differs from the original; distinct by bmap, mutated image hash and options.")
BATCH = 12
REQUIRE = {"covered_rejected": 300, "uncovered_accepted": 60, "noverify_accepted": 60, "cli": 40, "digest_rejected": 40,
           "pristine_accepted": 30}


def cases(ctx):
    out = [{"seed": ctx.sub("api", i), "t": "api"} for i in range(ctx.pick(3000, 60000))]
    out += [{"seed": ctx.sub("cli", i), "t": "cli"} for i in range(ctx.pick(200, 3000))]
    out += [{"seed": ctx.sub("pos", i), "t": "sweep"} for i in range(ctx.pick(8, 80))]
    ctx.rng("order").shuffle(out)
    return out


KINDS = ("flip", "flip", "flip", "byte", "swap", "zero", "dup", "rot", "trunc", "multi", "uncovered", "pristine", "digest")


def pick_pos(rng, s, e, bs):
    """A byte position in [s, e), preferring the edges."""
    c = [s, e - 1, rng.randrange(s, e), rng.randrange(s, e)]
    k = s + (1 << 20) // bs * bs
    if bs <= 1 << 20 and k < e:
        c += [k, k - 1]
    last = (e - 1) // bs * bs
    if last >= s:
        c.append(last)
    return rng.choice(c)


def mutate(rng, w, kind, cov):
    """-> (mutated data, is a covered byte different?)"""
    d = bytearray(w.data)
    bs = w.bs
    if cov:
        s, e = rng.choice(cov)
    if kind in ("flip", "byte", "multi") and cov:
        for _ in range(1 if kind != "multi" else rng.randint(2, 30)):
            p = pick_pos(rng, s, e, bs)
            d[p] = d[p] ^ (1 << rng.randrange(8)) if kind == "flip" else rng.randrange(256)
            s, e = rng.choice(cov)
    elif kind == "swap" and cov:
        a = pick_pos(rng, s, e, bs) // bs * bs
        s2, e2 = rng.choice(cov)
        b = pick_pos(rng, s2, e2, bs) // bs * bs
        n = min(bs, len(d) - a, len(d) - b)
        d[a:a + n], d[b:b + n] = d[b:b + n], d[a:a + n]
    elif kind == "zero" and cov:
        a = pick_pos(rng, s, e, bs) // bs * bs
        n = min(bs, len(d) - a)
        d[a:a + n] = bytes(n)
    elif kind == "dup" and cov:
        a = pick_pos(rng, s, e, bs) // bs * bs
        b = max(0, a - bs)
        n = min(bs, len(d) - a)
        d[a:a + n] = d[b:b + n]
    elif kind == "rot" and cov:
        k = rng.choice([1, bs, 512]) % len(d)
        d = d[k:] + d[:k]
    elif kind == "trunc":
        n = rng.choice([0, 1, len(d) - 1, len(d) - min(bs, len(d)), rng.randrange(len(d)), rng.randrange(len(d)) // bs * bs])
        d = d[:n]
    elif kind == "uncovered":
        covd = bytearray(len(d))
        for s, e in cov:
            covd[s:e] = b"\1" * (e - s)
        free = [i for i in range(0, len(d), max(1, len(d) // 5000)) if not covd[i]]
        for _ in range(min(len(free), rng.randint(1, 200))):
            p = rng.choice(free)
            d[p] ^= rng.randint(1, 255)
    d = bytes(d)
    if len(d) < len(w.data):
        # covered data is missing?
        differ = any(d[s:e] != w.data[s:e] for s, e in cov)
    else:
        differ = any(d[s:e] != w.data[s:e] for s, e in cov)
    return d, differ


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    if case["t"] == "sweep":
        sweep(rng, env, r)
        return r
    w = gens.work(rng, nonempty=True, odd=0.25, maxbytes=rng.choice([1 << 16, 1 << 18, 3 << 20]), repeat=0.3)
    ver = rng.choice(["1.3", "1.4", "2.0", "2.0", "2.0"])
    cs = rng.choice(bmapref.usable_hashes())
    rcs = None
    if rng.random() < 0.3:
        rcs = set(i for i in range(len(w.ranges)) if rng.random() < 0.6) or {0}
    kind = rng.choice(KINDS)
    digests = {}
    idx = [i for i in range(len(w.ranges)) if rcs is None or i in rcs]
    if kind == "digest":
        i = rng.choice(idx)
        f, l = w.ranges[i]
        import hashlib
        hn = "sha1" if ver == "1.3" else cs
        good = hashlib.new(hn, bmapref.range_data(w.img, f, l, w.bs)).hexdigest()
        p = rng.randrange(len(good))
        digests[i] = rng.choice([good[:p] + ("0" if good[p] != "0" else "1") + good[p + 1:], good[:-1], good + "0",
                                 hashlib.new(hn, b"").hexdigest(), hashlib.new(hn, w.data + b"x").hexdigest(), "0" * len(good),
                                 good[:8], "x"])
    bm = bmapref.make(w.img, w.bs, w.ranges, ver, cs, rng.choice(["official", "compact", "airy"]), rng, rcs, digests=digests)
    cov = []
    for i in idx:
        f, l = w.ranges[i]
        cov.append((f * w.bs, min((l + 1) * w.bs, w.size)))
    d, differ = mutate(rng, w, kind, cov)
    if kind == "digest":
        differ = True
    short = len(d) < len(w.data)
    if kind != "pristine" and d == w.data and kind != "digest":
        r.nontrivial = False
    ext = rng.choice(["", "", "", ".gz", ".xz", ".zst", ".tar.gz"])
    ip, bp, dp = env.path("img" + ext), env.path("b.bmap"), env.path("dest")
    with open(ip, "wb") as f:
        f.write(comp.compress(d, ext))
    with open(bp, "wb") as f:
        f.write(bm)
    verify = rng.random() < 0.78
    what = "%s %s/%s, image %s (%d bytes, block size %d), %s, ranges %s, verify=%s" % (
        kind, ver, cs, ext or "raw", w.size, w.bs, "checksums on %s" % (sorted(rcs)[:8] if rcs else "all"), w.ranges[:10], verify)
    if case["t"] == "cli":
        r.count("cli")
        q = cli.run(["copy", "--bmap", bp] + ([] if verify else ["--no-verify"]) + [ip, dp], dir=env.shm)
        ok, brief = q.rc == 0, q.brief()
    else:
        o = api.copy(ip, dp, bp, verify=verify, sync=False, use_trans=bool(ext) or rng.random() < 0.6,
                     passsize=rng.random() < 0.5)
        ok, brief = o.ok, o.brief()
    if differ and (verify or short):
        r.check(not ok, "corrupt-accepted", "corrupt image accepted: %s" % what)
        r.count("digest_rejected" if kind == "digest" else "covered_rejected")
    elif short:
        pass  # other checks decide about missing unmapped data
    elif not verify:
        r.check(ok, "noverify-refused", "copy with verification disabled failed: %s: %s" % (what, brief))
        r.count("noverify_accepted")
        if ok:
            w.data = d
            want = gens.expected(w, b"")
            got = images.read_file(dp)
            r.check(got == want, "noverify-altered", "%s: %s" % (what, images.describe_diff(got, want)))
    else:
        r.check(ok, "intact-refused", "intact covered data refused: %s: %s" % (what, brief))
        r.count("pristine_accepted" if d == w.data else "uncovered_accepted")
    r.key = "%s|%s|%s|%s" % (images.sha(bm), images.sha(d), verify, ext)
    r.state(kind, ver, cs, ext, verify, differ, rcs is None, case["t"])
    r.sample = {"kind": kind, "version": ver, "hash": cs, "source": ext or "raw", "verify": verify, "accepted": ok}
    return r


def sweep(rng, env, r):
    """Every byte position of a small image, one at a time."""
    bs = rng.choice([16, 64, 100])
    w = gens.work(rng, bs=bs, maxbytes=bs * 12, nonempty=True)
    ver = rng.choice(["1.3", "1.4", "2.0"])
    cs = rng.choice(["sha256", "md5", "sha512", "sha1"])
    bm = bmapref.make(w.img, bs, w.ranges, ver, cs)
    ip, bp, dp = env.path("img"), env.path("b"), env.path("dest")
    with open(bp, "wb") as f:
        f.write(bm)
    cov = bytearray(w.size)
    for s, e in gens.byte_ranges(w):
        cov[s:e] = b"\1" * (e - s)
    for p in range(w.size):
        d = bytearray(w.data)
        d[p] ^= 1 << rng.randrange(8)
        with open(ip, "wb") as f:
            f.write(d)
        o = api.copy(ip, dp, bp, sync=False)
        if cov[p]:
            r.count("covered_rejected")
            if o.ok:
                r.bad("corrupt-accepted", "flip of byte %d of %d accepted (bs %d, ranges %s, %s)" % (p, w.size, bs, w.ranges, ver))
                return
        else:
            r.count("uncovered_accepted")
            if not o.ok:
                r.bad("intact-refused", "flip of unmapped byte %d refused: %s" % (p, o.brief()))
                return
    r.count("sweep_positions", w.size)
    r.state("sweep", bs, ver, cs)
