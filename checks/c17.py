"""C17: only validly signed bmaps pass signature verification."""
import itertools
import errno
import os
import random
from vmon import bmapref, cli, comp, core, gens, httpd, images, pgp, sources
from vmon.core import Result

PROP = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: real GnuPG signatures of known validity x the real command line, write-trace and destination oracle"
NOTE = ("Key rings with trusted, certified, untrusted, distrusted, unknown, expired and revoked keys are made at run time; bmaps are "
        "signed detached (armored or binary, one or several signatures) or clearsigned, tampered with or paired with the wrong "
        "file, and given explicitly, discovered as .asc/.sig or by URL. The validity of every case is known by construction; the "
        "real tool must accept exactly the valid ones, and refuse the others with an error and without a single write of image "
        "data. Enumerates signer sets x forms x locations x tamperings; GnuPG's cryptography itself is trusted.")
RULE = ("Product of signature form, location, signer set or tampering; sampled bmaps. Non-trivial: every case. Distinct by cell and image.")
BATCH = 4
REQUIRE = {"accepted": 80, "refused": 180, "refused_unwritten": 180, "disabled_accepted": 15, "clearsign": 90, "detached": 180, "multi": 80, "unreadable": 5, "escaped": 40}

LOC = ("asc", "sig", "explicit", "explicit-url", "url-asc", "url-sig", "discovered", "url-discovered", "explicit-file")
TAMPER = ("other", "bmapbit", "truncsig", "emptysig", "garbage", "inline-other", "pubkey", "flip", "concat-other", "other-concat",
          "clear-as-sig-other", "nohome", "missing", "swapped-case")
CTAMPER = ("bmapbit", "truncsig", "nosig", "flip", "nohome", "sigoption", "headeronly")
GOODSETS = [("good",), ("good2",), ("nist",), ("subkey",), ("certified",), ("good", "good2"), ("nist", "good", "subkey"), ("certified", "good2")]
BADSETS = [(k,) for k in pgp.BAD if k != "expsig"] + [("expsig",)] + [
    p for k in ("unknown", "untrusted", "never", "expired", "revoked", "marginal") for p in (("good", k), (k, "good2"))] + [
    ("untrusted", "unknown"), ("good", "untrusted", "good2"), ("good", "good2", "unknown"), ("certified", "never")]


def setup(ctx):
    d = os.path.join(ctx.shm, "pgp")
    os.mkdir(d)
    ctx.shared["ring"] = pgp.Ring(d)


def teardown(ctx):
    if "ring" in ctx.shared:
        ctx.shared["ring"].close()


def cases(ctx):
    out = []
    for i in range(ctx.pick(1, 10)):
        rng = ctx.rng("c", i)
        for g in GOODSETS:
            for loc in LOC:
                out.append({"form": "detached", "signers": g, "loc": loc, "tamper": ""})
            for loc in ("plain", "plain", "url", "discovered"):
                out.append({"form": "clear", "signers": g, "loc": loc, "tamper": ""})
        for b in BADSETS:
            for loc in rng.sample(LOC, 4) if not ctx.thorough else LOC:
                out.append({"form": "detached", "signers": b, "loc": loc, "tamper": ""})
            for loc in ("plain", "url", "discovered"):
                out.append({"form": "clear", "signers": b, "loc": loc, "tamper": ""})
        for t in TAMPER:
            for loc in LOC:
                out.append({"form": "detached", "signers": rng.choice(GOODSETS[:5]), "loc": loc, "tamper": t})
        for t in CTAMPER:
            for loc in ("plain", "url", "discovered"):
                out.append({"form": "clear", "signers": rng.choice(GOODSETS), "loc": loc, "tamper": t})
        # verification disabled
        for t in ("other", "garbage", "emptysig", "nohome", ""):
            for loc in ("asc", "sig", "url-asc"):
                out.append({"form": "detached", "signers": rng.choice(GOODSETS + BADSETS), "loc": loc, "tamper": t, "off": True})
        for t in ("", "bmapbit-ok", "nohome"):
            for b in rng.sample(BADSETS, 5) + [("good",)]:
                out.append({"form": "clear", "signers": b, "loc": rng.choice(["plain", "url", "discovered"]), "tamper": t, "off": True})
        for loc in ("plain", "url", "discovered"):
            out.append({"form": "none", "signers": (), "loc": loc, "tamper": ""})
        out.append({"form": "detached", "signers": ("good",), "loc": "explicit", "tamper": "", "off": True})
        for g in rng.sample(GOODSETS, 2) + rng.sample(BADSETS, 2):
            out.append({"form": "detached", "signers": g, "loc": "asc", "tamper": "", "nobmap": True})
        # a bad .asc in the presence of a good .sig
        for t in ("other", "garbage", "emptysig", "truncsig", "flip"):
            out.append({"form": "detached", "signers": ("good",), "loc": rng.choice(["asc", "url-asc", "discovered"]), "tamper": t, "both": True})
        # the signature is there but cannot be opened
        for loc in ("asc", "sig", "discovered", "explicit"):
            for s in (("good",), rng.choice(BADSETS)):
                out.append({"form": "detached", "signers": s, "loc": loc, "tamper": "unreadable", "both": loc == "asc" and rng.random() < 0.5})
        out.append({"form": "detached", "signers": ("good",), "loc": "asc", "tamper": "unreadable", "off": True})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


def mangle(rng, ring, sig, t, doc, other, signers, armor):
    if t == "other":
        return ring.sign(other, signers, armor=armor)
    if t == "truncsig":
        if armor:
            lines = sig.split(b"\n")
            return b"\n".join(lines[:rng.randint(1, 3)])
        return sig[:rng.randrange(1, len(sig))]
    if t == "emptysig":
        return b""
    if t == "garbage":
        return rng.choice([rng.randbytes(200), b"hello world\n" * 9, doc, b"-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----\n"])
    if t == "inline-other":
        return ring.sign(other, signers, "--sign", armor=armor)
    if t == "clear-as-sig-other":
        return ring.sign(other, signers, "--clearsign")
    if t == "pubkey":
        return ring.export(signers[0])
    if t == "flip":
        raw = bytearray(ring.sign(doc, signers[:1]))
        raw[-1 - rng.randrange(60)] ^= 1 << rng.randrange(8)    # the signature value
        return bytes(raw)
    if t == "concat-other":
        return ring.sign(doc, ("good",)) + ring.sign(other, ("good2",))
    if t == "other-concat":
        return ring.sign(other, ("good2",)) + ring.sign(doc, ("good",))
    return sig


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    ring = env.shared["ring"]
    form, t, loc, signers = case["form"], case["tamper"], case["loc"], tuple(case["signers"])
    off = case.get("off", False)
    w = gens.work(rng, maxbytes=rng.choice([20000, 200000]), odd=0.2, minblocks=3, nonempty=True)
    if len(w.ranges) == 1 and w.ranges[0] == (0, w.nblocks - 1):
        w.ranges = [(0, w.nblocks - 2)]
    w2 = gens.Work()
    w2.__dict__.update(w.__dict__)
    w2.ranges = [(0, w.nblocks - 1)] if w.ranges != [(0, w.nblocks - 1)] else [(0, 0)]
    ver = rng.choice(["2.0", "2.0", "1.3", "1.2"])
    doc = bmapref.make(w.img, w.bs, w.ranges, ver, rng=rng)
    other = bmapref.make(w.img, w.bs, w2.ranges, ver, rng=rng)
    if isinstance(doc, str):
        doc, other = doc.encode(), other.encode()
    use = w
    armor = loc in ("asc", "url-asc") or rng.random() < 0.5
    if t == "swapped-case":
        armor = not armor
    name = "img.raw"
    valid = all(s in pgp.GOOD for s in signers)
    sig = None
    args = []
    if form == "detached":
        r.count("detached")
        sig = ring.sign(doc, signers, armor=armor, digest=rng.choice([None, None, "SHA512", "SHA384"]))
        if t == "bmapbit":
            doc, use = other, w2
            valid = False
        elif t in ("", "nohome", "missing", "swapped-case"):
            valid = valid and t in ("", "swapped-case")
        else:
            sig = mangle(rng, ring, sig, t, doc, other, signers, armor)
            valid = False
    elif form == "clear":
        r.count("clearsign")
        if rng.random() < 0.5:
            # lines which the clearsign format escapes
            k = rng.choice(["comment", "comment", "range", "from"])
            if k == "range" and ver == "1.2":
                a, b = w.ranges[0]
                doc = doc.replace(b"<BlockMap>", b"<BlockMap><Range>%d\n-%d</Range>" % (a, b), 1)
                i = doc.index(b"</Range>") + 8
                j = doc.index(b"<Range", i)
                doc = doc[:j] + doc[doc.index(b"</Range>", j) + 8:]
            else:
                doc = bmapref.reseal(doc, doc.replace(b"<BlockMap>", b"<BlockMap>\n<!--\n%s\n-->\n" % (
                    b"From me" if k == "from" else rng.choice([b"- a note", b"-", b"-x\n- y"])), 1))
            r.count("escaped")
        plain = doc
        doc = ring.sign(plain, signers, "--clearsign")
        if t in ("bmapbit", "bmapbit-ok"):
            # another valid bmap in the place of the signed one
            doc = doc.replace(plain.strip().replace(b"\n- ", b"\n- - "), other.strip())
            if other.strip() not in doc:
                # dash-escaped or not found: leave this one
                r.nontrivial = False
                return r
            use, valid = w2, False
        elif t == "truncsig":
            i = doc.index(b"-----BEGIN PGP SIGNATURE-----")
            doc = doc[:i + rng.randint(0, 80)]
            valid = False
        elif t == "nosig":
            i = doc.index(b"-----BEGIN PGP SIGNATURE-----")
            doc = doc[:i] + rng.choice([b"", b"-----BEGIN PGP SIGNATURE-----\n\n-----END PGP SIGNATURE-----\n"])
            valid = False
        elif t == "headeronly":
            doc = b"-----BEGIN PGP SIGNED MESSAGE-----\n" + rng.choice([b"", b"Hash: SHA512\n\n"]) + plain
            valid = False
        elif t == "flip":
            i = doc.index(b"Count>") - 0
            doc = doc[:i] + b" " + doc[i:]
            valid = False
        elif t == "sigoption":
            args += ["--bmap-sig", sources.put(env.path("extra.sig"), ring.sign(doc, ("good",)))]
            valid = False
        elif t == "nohome":
            valid = False
    if len(signers) > 1:
        r.count("multi")
    home = ring.home(env.path("gnupg"), "empty" if t == "nohome" else "user")
    # where everything is
    url = loc.startswith("url")
    bname = name + ".bmap" if loc.endswith("discovered") else "the.bmap"
    place = (lambda n, d: sources.serve(n, d)) if url else (lambda n, d: sources.put(env.path(n), d))
    if url:
        httpd.get().routes.clear()
    image = place(name, w.data)
    bspec = place(bname, doc)
    if not loc.endswith("discovered"):
        args += ["--bmap", bspec]
    elif case.get("nobmap"):
        pass
    conf = []
    if form == "detached":
        if loc.startswith("explicit"):
            if t == "missing":
                sp = env.path("nothere.sig") if loc != "explicit-url" else sources.serve("x", b"")[:-1] + "nothere.sig"
                valid = False
            elif loc == "explicit-url":
                httpd.get().routes.clear()
                sp = sources.serve("some.sig", sig)
            elif loc == "explicit-file":
                sp = "file://" + sources.put(env.path("some.asc"), sig)
            else:
                sp = sources.put(env.path("some-signature"), sig)
            args += ["--bmap-sig", sp]
            # whatever lies next to the bmap does not matter then
        else:
            ext = ".sig" if loc in ("sig", "url-sig") or (loc.endswith("discovered") and rng.random() < 0.5) else ".asc"
            if case.get("both"):
                ext = ".asc"
                place(bname + ".sig", ring.sign(doc, ("good",)))
            if t == "missing":
                valid = True    # just not signed
            else:
                sp = place(bname + ext, sig)
        if t == "unreadable":
            r.count("unreadable")
            conf += [("track", "sig", sp), ("fault", "sig", "open", 1, 1000, "err", rng.choice([errno.EACCES, errno.EIO, errno.EMFILE]))]
            valid = False
    if off:
        args.append("--no-sig-verify")
        valid = not (form == "detached" and loc.startswith("explicit"))   # contradictory options
        if t == "nohome":
            valid = True
    if case.get("nobmap"):
        args = ["--nobmap"]
        valid = True
    dest = sources.put(env.path("dest"), b"\x5a" * rng.choice([0, 100, w.size]))
    tmp = env.path("tmp")
    os.mkdir(tmp)
    bdev = rng.random() < 0.3
    old = b""
    conf.append(("track", "dest", dest))
    if bdev:
        old = b"\x77" * (w.size + 50)
        sources.put(dest, old)
        conf += [("redirect", "/sys/dev/block/", env.path("nosys/")), ("bdev", "dest", 240, 9)]
    q = cli.run(["copy"] + args + [image, dest], dir=env.shm, conf=conf, env={"GNUPGHOME": home, "TMPDIR": tmp}, survivors=False)
    what = "%s%s at %s by %s%s%s%s" % (form, " with several signatures" if len(signers) > 1 else "", loc, "+".join(signers) or "nobody",
                                       ", " + t if t else "", ", verification disabled" if off else "", ", --nobmap" if case.get("nobmap") else "")
    got = images.read_file(dest)
    wr = gens.writes(q.events)
    if q.hang:
        r.bad("hang", what + ": " + q.hang)
    elif valid:
        if r.check(q.rc == 0, "valid-refused", "%s: %s" % (what, q.brief())):
            r.count("disabled_accepted" if off else "accepted")
            if case.get("nobmap"):
                want = w.data + old[w.size:]
            else:
                want = gens.expected(use, old, len(old) if bdev else w.size)
            r.check(got == want, "wrong-bmap-used", "%s: %s" % (what, images.describe_diff(got, want)))
    else:
        if r.check(q.rc != 0, "invalid-accepted", "%s: the copy succeeds: %s" % (what, q.brief())):
            r.count("refused")
            r.check("ERROR" in q.text(), "no-message", "%s: no error message: %s" % (what, q.brief()))
        if r.check(not wr and (not bdev or got == old), "written-before-refusal", "%s: %d writes of image data although the bmap is not acceptable" % (what, len(wr))):
            r.count("refused_unwritten")
    r.key = "%s|%s" % (what, images.sha(w.data))
    r.state(form, loc, "+".join(signers), t, off, q.rc)
    r.sample = {"case": what, "expected": "accept" if valid else "refuse", "result": q.rc}
    return r
