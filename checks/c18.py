"""C18: the right bmap is found, or the copy refuses to guess."""
import errno
import os
import random
from vmon import bmapref, cli, comp, gens, httpd, images, sources
from vmon.core import Result

PROP = "C18"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: generated directories of candidate and decoy bmaps, the used one identified from the destination written by the real tool"
NOTE = ("Every bmap placed next to the image, at a decoy name or given explicitly maps a different set of blocks, so that the "
        "destination contents tell which one the real command line used. An independent reference enumerates the allowed names in "
        "order. Local (absolute, relative, symbolic link), http, file and ssh images; samples names, extensions and which files "
        "exist, enumerates option combinations. Refusals must not write image data.")
RULE = ("Sampled image names and file sets x option cells x location kinds. Non-trivial: every case. Distinct by name, present files, cell.")
BATCH = 5
REQUIRE = {"discovered": 100, "stripped": 45, "none_found": 80, "explicit": 50, "nobmap": 50, "unopenable": 100, "damaged_first": 25, "decoys": 1000, "unreadable_first": 15}

NAMES = ("img", "image.raw", "core-image.rootfs-2020.01.wic", "a.b.c.d", "disk", ".hidden", ".hidden.img", "my image.raw", "x.bmap", "img.",
         "v1.0-beta", "UPPER.IMG", "im\u00e4ge.raw", "a..b", "-dash.raw", "100%.img", "img.raw.1",
         "os-1.2.3.rootfs.img", "a.b.c.d.e.f.g.h", "poky-4.0.12-rc1.core.2024.02.29.wic", "x.1.2.3.4.5.6.7.8.9.10.11")
OPTS = ("plain",) * 9 + ("explicit", "explicit", "nobmap", "nobmap", "explicit-missing", "explicit-dir", "sig-missing", "sig-without-bmap",
                         "bmap-is-image", "damaged-first", "unreadable-first")
LOCS = ("abs", "abs", "rel", "reldir", "dotdir", "link", "http", "http", "file", "ssh")


def cases(ctx):
    out = []
    for i in range(ctx.pick(50, 400)):
        for o in OPTS:
            out.append({"seed": ctx.sub("c", i, len(out)), "opt": o})
    ctx.rng("order").shuffle(out)
    return out


def candidates(name):
    """Names of the bmap in order of preference: the reference."""
    out = [name + ".bmap"]
    while True:
        i = name.rfind(".")
        if i < 0 or not name[:i].strip("."):
            return out
        name = name[:i]
        out.append(name + ".bmap")


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    opt = case["opt"]
    loc = rng.choice(LOCS)
    if opt in ("explicit-dir",) and loc in ("http", "ssh", "file") or (opt == "unreadable-first" and loc in ("http", "ssh", "file")):
        loc = "abs"
    ext = rng.choice(["", "", "", ".gz", ".bz2", ".xz", ".tar.gz", ".tgz", ".zst"])
    base = rng.choice(NAMES)
    if loc == "http":
        base = rng.choice([n for n in NAMES if n.isascii() and " " not in n and "%" not in n])
    if loc in ("file", "ssh"):
        base = rng.choice([n for n in NAMES if n.isascii() and " " not in n and "%" not in n])
    if base.startswith("-") and loc == "rel":
        base = "img.raw"
    name = base + ext
    bs = rng.choice([512, 1000, 4096])
    nb = rng.randint(40, 60)
    size = nb * bs - rng.choice([0, 1, bs - 1])
    data = rng.randbytes(size)
    img = images.Img(size, [(0, data)])
    blob = comp.compress(data, ext)
    sub = {"reldir": "sub", "dotdir": "dir.v1"}.get(loc, "")
    d = env.path("w")
    os.makedirs(os.path.join(d, sub))
    cwd = d
    cand = candidates(name)
    # every bmap maps different blocks
    count = [0]
    made = {}

    def doc(label):
        count[0] += 1
        k = count[0] % 30
        made[label] = [(k, k), (k + 2, min(nb - 1, k + 2 + count[0] % 3))]
        v = rng.choice(["2.0", "1.3", "1.0"])
        x = bmapref.make(img, bs, made[label], v, rng=rng)
        return x.encode() if isinstance(x, str) else x

    place = {}      # path relative to the image's directory -> contents
    p = rng.choice([0, 0.3, 0.6]) if opt == "plain" else 0.4
    for c in cand:
        if rng.random() < p:
            place[c] = doc(c)
    if opt == "plain" and rng.random() < 0.35:
        # only one of them, wherever in the order
        c = rng.choice(cand)
        place = {c: doc(c)}
    if opt in ("damaged-first", "unreadable-first"):
        for c in cand:
            place.setdefault(c, doc(c)) if rng.random() < 0.7 else None
        first = cand[0]
        place[first] = doc("y") if opt == "unreadable-first" else rng.choice([b"", b"not xml at all", doc("x")[:200], b"<?xml version='1.0' ?><bmap version=\"9.0\"></bmap>"])
    stem = name.split(".")[0] or "h"
    decoys = [name + ".bmap.bmap", name + ".BMAP", name + "bmap", name + ".bmap.gz", "x" + name + ".bmap", stem + "x.bmap", name + ".map",
              name + ".bmap~", "image.bmap", "default.bmap", ".bmap", base.upper() + ".bmap", base + ".1.bmap", stem + ".bmap.bmap", name + ".asc"]
    for c in rng.sample(decoys, rng.randint(1, 6)):
        if c not in cand and c != name and c not in place:
            place[c] = doc(c)
            r.count("decoys")
    place.pop(name, None)
    files = dict(place)
    files[name] = blob
    e = {}
    if loc == "http":
        httpd.get().routes.clear()
        for n, x in files.items():
            sources.serve("dir.v2/" + n, x)
        image = httpd.url("/dir.v2/" + name)
        pre = image[:-len(name)]
    else:
        for n, x in files.items():
            sources.put(os.path.join(d, sub, n), x)
        full = os.path.join(d, sub, name)
        image = {"abs": full, "rel": name, "reldir": "sub/" + name, "dotdir": rng.choice(["dir.v1/", "./dir.v1/"]) + name,
                 "link": full, "file": "file://" + full, "ssh": "ssh://host" + full}[loc]
        pre = image[:-len(name)]
        if loc == "ssh":
            e["PATH"] = sources.bindir(env)
        if loc == "link":
            # the name which counts is the one given
            tgt = os.path.join(d, "store")
            os.mkdir(tgt)
            real = os.path.join(tgt, "other.name" + ext)
            os.rename(full, real)
            os.symlink(real, full)
            sources.put(os.path.join(tgt, "other.name.bmap"), doc("linktarget"))
            sources.put(real + ".bmap", doc("linktarget"))
        if loc in ("reldir", "dotdir"):
            # decoys in the working directory and of the directory's own name
            for n in cand[:2] + ["dir.bmap", "sub.bmap"]:
                if rng.random() < 0.5:
                    sources.put(os.path.join(d, n), doc("cwd"))
                    r.count("decoys")
    args = []
    used = next((c for c in cand if c in place), None)
    want, ok = None, True
    if opt == "nobmap":
        args, used, ok = ["--nobmap"], "all", True
        if used and cand[0] in place and rng.random() < 0.5 and loc not in ("http",):
            sources.put(os.path.join(d, sub, cand[0]), b"damaged")
    elif opt.startswith("explicit"):
        ep = os.path.join(d, rng.choice(["e.bmap", "explicit", "some.xml"]))
        if opt == "explicit":
            sources.put(ep, doc("explicit"))
            used = "explicit"
            ep = rng.choice([ep, os.path.relpath(ep, cwd), "file://" + ep])
        else:
            used, ok = None, False
            if opt == "explicit-dir":
                os.mkdir(ep)
            elif rng.random() < 0.3:
                ep = "http://127.0.0.1:%d/%s" % (httpd.free_port(), "e.bmap")
            elif loc == "http" and rng.random() < 0.5:
                ep = httpd.url("/nothere.bmap")
        args = ["--bmap", ep]
    elif opt == "sig-missing":
        sources.put(os.path.join(d, "e.bmap"), doc("explicit"))
        args = rng.choice([["--bmap", os.path.join(d, "e.bmap")], []]) + ["--bmap-sig", os.path.join(d, rng.choice(["no.sig", "no.asc"]))]
        ok = False
    elif opt == "sig-without-bmap":
        sources.put(os.path.join(d, "s.sig"), b"x")
        args = ["--bmap-sig", os.path.join(d, "s.sig")]
        ok = False
    elif opt == "bmap-is-image":
        args, ok = ["--bmap", image], False
    elif opt in ("damaged-first", "unreadable-first"):
        ok = False
    elif used is None:
        ok = False
    dest = sources.put(env.path("dest"), b"\x99" * rng.choice([0, 1000, size]))
    conf = [("track", "dest", dest)]
    old = b""
    if opt == "unreadable-first":
        r.count("unreadable_first")
        conf += [("track", "first", os.path.join(d, sub, cand[0])),
                 ("fault", "first", "open", 1, 1000, "err", rng.choice([errno.EACCES, errno.EIO, errno.EMFILE]))]
    if rng.random() < 0.4:
        old = b"\x66" * (size + 10)
        sources.put(dest, old)
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
    tail = [image, dest]
    if image.startswith("-"):
        tail = ["--"] + tail
    q = cli.run(["copy"] + args + tail, dir=env.shm, conf=conf, cwd=cwd, env=e, survivors=False)
    what = "%s image %r, %s, present: %s" % (loc, name, opt, ", ".join(sorted(place)) or "nothing")
    got = images.read_file(dest)
    if q.hang:
        r.bad("hang", what + ": " + q.hang)
    elif ok:
        if r.check(q.rc == 0, "not-found", "%s: should use %r: %s" % (what, used, q.brief())):
            w = gens.Work()
            w.bs, w.size, w.data = bs, size, data
            w.ranges = [(0, nb - 1)] if used == "all" else made[used]
            exp = gens.expected(w, old, len(old) or size)
            if got != exp:
                who = [k for k, v in made.items() if k != used and gens.expected(_w(w, v), old, len(old) or size) == got]
                r.bad("wrong-bmap", "%s: should use %r, used %s" % (what, used, who or images.describe_diff(got, exp)))
            r.count("nobmap" if opt == "nobmap" else "explicit" if opt == "explicit" else "discovered")
            if opt == "plain" and used != cand[0]:
                r.count("stripped")
    else:
        mech = {"plain": "guessed", "damaged-first": "fallback", "unreadable-first": "fallback", "sig-missing": "signature-ignored"}.get(opt, "unusable-accepted")
        if r.check(q.rc != 0, mech, "%s: the copy succeeds: %s" % (what, q.brief())):
            r.count({"plain": "none_found", "damaged-first": "damaged_first"}.get(opt, "unopenable"))
            r.check("ERROR" in q.text(), "no-message", "%s: no error message: %s" % (what, q.brief()))
        r.check(not gens.writes(q.events) and (not old or got == old), "written", "%s: image data are written" % what)
    r.key = "%s|%s|%s|%s" % (name, loc, opt, sorted(place))
    r.state(opt, loc, ext, cand.index(used) if used in cand else used, len(cand), q.rc)
    r.sample = {"case": what, "uses": used if ok else "refused"}
    return r


def _w(w, ranges):
    x = gens.Work()
    x.__dict__.update(w.__dict__)
    x.ranges = ranges
    return x
