"""C01: create then copy reproduces the image exactly."""
import os
import random
import shutil
from vmon import api, bmapref, cli, core, images
from vmon.core import Result

PROP = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round trips of the real tool on generated sparse images, byte-exact destination oracle"
NOTE = ("The real create and copy code runs on generated sparse images (tmpfs with SEEK_HOLE, disk with FIEMAP, up to 1 TiB "
        "apparent size); the whole destination is compared with the image's ground truth, which the generator knows without "
        "asking the file system. Sampled inputs; trusts the kernel's file systems.")
RULE = ("Random sparse images (size class x hole layout, incl. sizes +-1 around block and 1 MiB batch "
        "boundaries, unaligned writes, written zeroes, multi-GiB holes) on tmpfs (SEEK_HOLE) and disk (FIEMAP); "
        "bmap made through CLI stdout, CLI -o, API path, API file object, with and without checksums; copied to "
        "regular files with random previous contents through CLI or API; whole destination compared bytewise. "
        "Non-trivial: the image is not empty and the copy completed; distinct by image hash, route and old destination.")
BATCH = 12
REQUIRE = {"copies": 100, "bytes_compared": 1 << 20, "cli_runs": 10, "huge_on_disk": 8}


def cases(ctx):
    n_api = ctx.pick(1500, 20000)
    n_cli = ctx.pick(240, 3000)
    n_huge = ctx.pick(48, 500)
    n_frag = ctx.pick(4, 60)
    out = []
    for i in range(n_api):
        out.append({"seed": ctx.sub("api", i), "t": "api"})
    for i in range(n_huge):
        out.append({"seed": ctx.sub("huge", i), "t": "huge"})
    for i in range(n_frag):
        out.append({"seed": ctx.sub("frag", i), "t": "frag"})
    for i in range(n_cli):
        out.append({"seed": ctx.sub("cli", i), "t": "cli"})
    ctx.rng("order").shuffle(out)
    return out


def old_dest(rng, path, size):
    kind = rng.choice(["none", "none", "empty", "shorter", "longer", "same", "longsparse"])
    if kind == "none":
        return kind
    n = {"empty": 0, "shorter": rng.randint(0, size), "longer": size + rng.choice([1, 4096, 100000]),
         "same": size, "longsparse": size + (1 << 22)}[kind]
    n = min(n, 16 << 20) if kind != "longsparse" else n
    with open(path, "wb") as f:
        if kind == "longsparse":
            f.truncate(n)
            f.write(b"\xee" * 4096)
        else:
            f.write(b"\xee" * n)
    return kind


def huge(rng):
    size = rng.choice([(1 << 32), (1 << 32) + 1, (1 << 31) - 4096, (1 << 33) + 4097, rng.randint(1 << 30, 1 << 36),
                       (1 << 40) + 12345])
    nb = (size + 4095) // 4096
    blocks = set([nb - 1, rng.randrange(nb)])
    for edge in (1 << 31, 1 << 32, 1 << 33):
        if edge // 4096 < nb - 2 and rng.random() < 0.7:
            blocks |= {edge // 4096 - 1, edge // 4096}
    for _ in range(rng.randint(0, 5)):
        a = rng.randrange(nb)
        blocks.update(range(a, min(nb, a + rng.randint(1, 300))))
    img = images.from_blocks(rng, size, blocks)
    img.kind = "huge"
    return img


def frag(rng):
    """More extents than fit one answer of the kernel."""
    n = rng.choice([4681, 4682, 5000, rng.randint(4700, 14000)])
    blocks, b = set(), rng.randrange(2)
    for _ in range(n):
        blocks.add(b)
        b += rng.choice([2, 2, 2, 2, 3])
    img = images.from_blocks(rng, (b + rng.randrange(2)) * 4096 - rng.choice([0, 0, 1, 4000]), blocks)
    img.kind = "frag"
    return img


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    ondisk = rng.random() < (0.8 if case["t"] == "frag" else 0.5 if case["t"] == "huge" else 0.4)
    d = env.disk if ondisk else env.shm
    img = huge(rng) if case["t"] == "huge" else frag(rng) if case["t"] == "frag" else images.gen(rng, maxsize=4 << 20)
    name = rng.choice(["img", "my image.raw", "a.b.c", "-dash.img", "img.bmap.img", "üñ.img"])
    ip = os.path.join(d, name)
    img.write(ip)
    bp = os.path.join(env.shm, "x.bmap")
    # a copy may go to another file system than the image's
    dp = os.path.join(env.shm if (rng.random() < 0.5 or case["t"] == "huge") else d, "dest")
    nocs = rng.random() < 0.25
    if case["t"] == "cli" or (case["t"] == "frag" and rng.random() < 0.5):
        croute = rng.choice(["cli-out", "cli-stdout"])
        proute = "cli"
    else:
        croute = rng.choice(["api-path", "api-file"])
        proute = "api"
    how = ""
    if croute.startswith("cli"):
        rel = rng.random() < 0.3 and not name.startswith("-")
        args = ["create"] + (["--no-checksum"] if nocs else [])
        arg = name if rel else ip
        if croute == "cli-out":
            q = cli.run(args + ["-o", bp, arg], dir=env.shm, cwd=d if rel else env.shm)
        else:
            q = cli.run(args + [arg], dir=env.shm, cwd=d if rel else env.shm)
            with open(bp, "wb") as f:
                f.write(q.out)
        r.count("cli_runs")
        if q.rc != 0:
            r.bad("create-failed", "create (%s%s) failed: %s" % (croute, " relative" if rel else "", q.brief()))
            return r
    elif croute == "api-path":
        o = api.create(ip, bp, rng.choice(["sha256", "sha1", "md5", "sha512"]), not nocs)
        if not o.ok:
            r.bad("create-failed", "BmapCreate %s" % o.brief())
            return r
        o.writer.__del__()
    else:
        with open(ip, "rb") as fi, open(bp, "w+") as fb:
            o = api.create(fi, fb, "sha256", not nocs)
        if not o.ok:
            r.bad("create-failed", "BmapCreate %s" % o.brief())
            return r
    bm = images.read_file(bp)
    od = old_dest(rng, dp, img.size)
    if proute == "cli":
        auto = rng.random() < 0.4
        args = ["-q"] if rng.random() < 0.3 else []
        args += ["copy"]
        if rng.random() < 0.2:
            args.append("--no-verify")
        if auto:
            shutil.move(bp, ip + ".bmap")
        else:
            args += ["--bmap", bp]
        q = cli.run(args + [ip, dp], dir=env.shm, cwd=env.shm)
        r.count("cli_runs")
        if not r.check(q.rc == 0, "copy-failed", "copy failed for %s image of %d bytes: %s" % (img.kind, img.size, q.brief())):
            return r
    else:
        o = api.copy(ip, dp, bp, sync=rng.random() < 0.5, verify=rng.random() < 0.8,
                     use_trans=rng.random() < 0.7, mode=rng.choice(["w+b", "wb"]),
                     buffering=rng.choice([-1, -1, 0, 65536]))
        if not r.check(o.ok, "copy-failed", "copy of %s image of %d bytes %s" % (img.kind, img.size, o.brief())):
            return r
    r.count("copies")
    if ondisk and case["t"] == "huge":
        r.count("huge_on_disk")
    if case["t"] == "huge":
        why = images.sparse_equal(dp, img)
        r.count("bytes_compared", sum(len(x) for _, x in img.segs))
    else:
        why = images.describe_diff(images.read_file(dp), img.bytes())
        r.count("bytes_compared", img.size)
    r.check(why is None, "not-reproduced", "%s image, %s/%s, old destination %s: %s" % (img.kind, croute, proute, od, why))
    r.state(img.kind, croute, proute, "disk" if ondisk else "shm", od, nocs)
    r.key = "%s|%s|%s|%s" % (img.size, images.sha(bm), croute, od)
    r.sample = {"size": img.size, "kind": img.kind, "route": croute + "+" + proute, "fs": "disk" if ondisk else "tmpfs",
                "old_dest": od, "mapped_ranges": len(images.ranges_of(img.touched())) if img.size < 1 << 30 else "huge"}
    return r
