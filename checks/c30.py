"""C30: file names are taken literally."""
import os
import random
import re
import unicodedata
from urllib.parse import quote, unquote
from vmon import bmapref, cli, comp, core, gens, httpd, images, pgp, sources
from vmon.core import Result

PROP = "C30"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: operations on hostile file names among decoys; directory snapshots and the data oracle show which file was used"
NOTE = ("Every role of a file (image of any format, bmap given or discovered, signature, destination, created bmap, input of create, files behind ssh, file and "
        "http URLs) gets names with blanks, quotes, shell and format metacharacters, escape sequences, line breaks, non-ASCII and undecodable "
        "bytes, leading dashes, names looking like URLs or of maximal length, in several locales. Decoys with other contents lie where the name would lead "
        "if it were unquoted, expanded, stripped, split, normalised or globbed. The operation must work on exactly the named file, leave the decoys "
        "and the directory alone, and a missing file must be reported as such. ssh is a stand-in for sshd's shell.")
RULE = "Role x name family x locale, names partly random. Non-trivial: every case. Distinct by role and name."
BATCH = 4
REQUIRE = {"copied": 130, "discovered": 45, "created": 25, "ssh": 22, "http": 14, "fileurl": 14, "missing": 40, "signed": 14, "decoys": 1000, "api": 14, "names": 240}

NAMES = [
    b"two words", b" lead", b"trail ", b"a  b", b"tab\there", b"new\nline", b"cr\rx", b"%s", b"100%", b"%d%s%f%(x)s", b"%20x", b"a%41", b"%%", b"%n%n", b"{}", b"{0}{x}", b"{0!r",
    b"it's", b'say "x"', b"''", b"back\\slash", b"\\n\\t", b"$HOME", b"${HOME}", b"$(touch pwned)", b"`touch pwned`", b";touch pwned;", b"|touch pwned", b"& touch pwned &",
    b"a>pwned", b"a<b", b"*", b"?", b"[a-z]x", b"{a,b}", b"~", b"~root", b"#hash", b"!x", b"-", b"--", b"-x", b"--help", b"--nobmap", b"-rf", b"a:b", b"http:", b"http:x", b"ssh:x",
    b"file:x", b"C:\\x", b"\xc3\xa9t\xc3\xa9", b"e\xcc\x81", b"\xe2\x82\xac\xf0\x9f\x98\x80", b"\xff\xfe", b"x\x80y", b"\xed\xb2\x80", b"\x1b[31mred", b"\x07\x08", b"\x7f", b".hidden", b"...",
    b"a.b.c", b".gz.x", b"=", b"a=b", b"@file", b"+", b"(x)", b"<!-- x -->", b"</bmap>", b"&amp;", b"CON", b"\xc2\xa0", b"\xe2\x80\xae", b"x.bmap", b"a,b", b"^", b"null", b"0", b"None",
    b"$a", b"${x}y", b"$x1", b"a[b]", b"a[bc]d", b"[!x]z", b"a*b", b"a?c", b"%a%", b"$$", b"{x}", b"~joe",
]
EXTS = ["", "", "", ".gz", ".bz2", ".xz", ".zst", ".lz4", ".lzo", ".tar.gz", ".tar.xz", ".zip", ".tbz2"]
LOCALES = ({}, {}, {}, {"LANG": "C", "LC_ALL": "C"}, {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONIOENCODING": "ascii:strict"})
T = ("copy", "copy", "discover", "create", "ssh", "missing")
OTHER = ("fileurl", "http", "sig", "api", "missing-bmap", "missing-found", "missing-found", "nobmap")


def setup(ctx):
    d = os.path.join(ctx.shm, "pgp")
    os.mkdir(d)
    ctx.shared["ring"] = pgp.Ring(d)


def teardown(ctx):
    if "ring" in ctx.shared:
        ctx.shared["ring"].close()


def cases(ctx):
    out = []
    for i in range(ctx.pick(1, 14)):
        rng = ctx.rng("c", i)
        for k in range(len(NAMES)):
            for t in rng.sample(T, 3) + rng.sample(OTHER, 2):
                out.append({"t": t, "name": k})
        for k in range(30):
            for t in rng.sample(T + OTHER, 3):
                out.append({"t": t, "name": -1})
        for t in T + OTHER:
            out.append({"t": t, "name": -2})
    for n, c in enumerate(out):
        c["seed"] = ctx.sub("s", n)
    ctx.rng("order").shuffle(out)
    return out


def pick_name(rng, k, room):
    if k >= 0:
        n = NAMES[k]
        if rng.random() < 0.3:
            n = rng.choice([n + b"x", b"x" + n, n + n, n + b" " + n])
    elif k == -2:
        n = b"".join(rng.choice([b"y", b"yz", b"\xc3\xa9", b"%41", b" z"]) for _ in range(300))
    else:
        n = b"".join(rng.choice([b"a", b"b1", bytes([rng.choice(b" %{}'\"\\$`;|&<>*?[]~#!-:=@^\n\t")]), rng.choice([b"$a", b"${x}", b"~", b"%41", b"[ab]", b"*", b"{y}", b"%(a)s", b"\\x41", b"&lt;"]), bytes([rng.randint(1, 255)]), "\u00e9\u4e2d".encode()[:rng.randint(1, 5)]])
                     for _ in range(rng.randint(1, 12)))
    n = n.replace(b"/", b"_").replace(b"\0", b"_")
    n = n[:255 - room] if k == -2 else n[:100]
    return b"_" if n in (b"", b".", b"..") else n


# (variables of the environment)
VARS = {"a": "avalue", "x": "xvalue", "x1": "other", "y": "", "b1": "b", "z": "zz"}


def expand(s):
    """Environment variables."""
    return re.sub(r"\$(\w+|\{[^}]*\})", lambda m: VARS.get(m.group(1).strip("{}"), m.group(0)), s, flags=re.ASCII)


def member(s, k):
    """A name which the pattern matches."""
    s = re.sub(r"\[(!?)([^\]]+)\]", lambda m: "k" if m.group(1) else m.group(2)[-1 if k else 0], s)
    s = re.sub(r"\{([^}]*)\}", lambda m: m.group(1).split(",")[-1 if k else 0], s)
    return s.replace("*", "any" if k else "").replace("?", "q")


def decoys(name):
    """Where the name might lead if somebody were to interpret it."""
    s = os.fsdecode(name)
    out = [unquote(s), s.strip(), s.lower(), s.replace("\\", ""), s.replace("'", ""), s.replace('"', ""), s.replace("%%", "%"), s.replace("\n", ""), s.replace("\t", ""),
           s.replace("$HOME", "home"), s.replace("~", "home"), s.partition("?")[0], s.partition("#")[0], s.partition(";")[0], s.partition(":")[2], s.partition("\n")[0],
           unicodedata.normalize("NFC", s), unicodedata.normalize("NFD", s), unicodedata.normalize("NFKC", s), s.encode("utf-8", "replace").decode(), s.encode("utf-8", "ignore").decode(),
           s.encode("ascii", "replace").decode(), s.encode("ascii", "ignore").decode(), s.replace("{}", ""), s.replace("+", " "), s.lstrip("-"), quote(s, errors="surrogateescape"),
           s.encode("unicode_escape", "replace").decode(), s.replace("\\n", "\n").replace("\\t", "\t"), s.replace(" ", "\\ "), s.strip("*?[]") + "x", "'%s'" % s, s.replace("*", "any").replace("?", "q"), s.rstrip("."),
           s.replace("\\", "/").rpartition("/")[2], s.lstrip(".")]
    out += [expand(s), member(s, 0), member(s, 1), member(expand(s), 0), s.replace("&lt;", "<").replace("&amp;", "&"), s.replace("\\x41", "A")]
    try:
        out += [s.format(**VARS), s % VARS]
    except (ValueError, KeyError, IndexError, TypeError, AttributeError):
        pass
    out += s.split() + s.split("\n") + s.split("|") + s.split("&")
    try:
        out += [s.format("x"), s % ()]
    except (ValueError, KeyError, IndexError, TypeError, AttributeError):
        pass
    res = []
    for x in out:
        try:
            b = os.fsencode(x)
        except UnicodeEncodeError:
            continue
        if b and b not in (b".", b"..", name) and b"/" not in b and b"\0" not in b and len(b) < 240 and b not in res:
            res.append(b)
    return res


def legitimate(name):
    """Where the bmap of an image is looked for."""
    n = os.fsdecode(name)
    out = []
    while True:
        out.append(os.fsencode(n + ".bmap"))
        n, x = os.path.splitext(n)
        if not x:
            return out


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(os.fsencode(d)):
        for f in files:
            p = os.path.join(root, f)
            out[p] = images.read_file(p) if not os.path.islink(p) else b"->" + os.readlink(p)
        for f in dirs:
            out[os.path.join(root, f)] = None
    return out


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    t = case["t"]
    w = gens.work(rng, maxbytes=rng.choice([6000, 60000]), odd=0.2, nonempty=True)
    ext = rng.choice(EXTS)
    long = case["name"] == -2
    # room for the longest suffix
    stem = pick_name(rng, case["name"], len(ext) + 9)
    name = stem + ext.encode()
    loc = rng.choice(LOCALES)
    cwd = env.path("cwd")
    os.mkdir(cwd)
    bcwd = os.fsencode(cwd)
    home = env.path("home")
    os.mkdir(home)
    tmp = env.path("tmp")
    os.mkdir(tmp)
    e = dict(VARS, HOME=home, TMPDIR=tmp)
    # the parent of a linked directory is not the parent of the link
    os.mkdir(os.path.join(cwd, "inner"))
    links = env.path("links")
    os.mkdir(links)
    os.symlink("../cwd/inner", os.path.join(links, "way"))
    up = rng.choice([links, "../links"]) + "/way/../"
    e.update(loc)
    wrong = rng.randbytes(w.size)
    names = {}

    def put(n, data, dirs=bcwd):
        sources.put(os.path.join(dirs, n), data)
        names[n] = True

    def surround(n, data):
        """Decoys of a file."""
        for x in decoys(n):
            if x not in names:
                r.count("decoys")
                put(x, data)

    def spec(n):
        """How to name it on the command line."""
        s = os.fsdecode(n)
        if s.startswith("-") or s == "-":
            return rng.choice(["./", cwd + "/", up]) + s
        if ":" in s and "/" not in s:
            # not a URL, even if it looks like one (unless there is no such file)
            return rng.choice(["./", cwd + "/", up] + [""] * (not t.startswith("missing"))) + s
        return rng.choice(["", "", "./", cwd + "/", "../cwd/", up, ".//" if rng.random() < 0.5 else "inner/.././"]) + s

    doc = bmapref.make(w.img, w.bs, w.ranges, rng.choice(["2.0", "1.3", "1.4"]), rng=rng)
    doc = doc.encode() if isinstance(doc, str) else doc
    blob = lambda d: comp.compress(d, ext)
    dname = pick_name(rng, rng.choice([case["name"], case["name"], -1, rng.randrange(len(NAMES))]), 9)
    if dname[:250] + b"d" == name:
        dname = b"z"
    dname = dname[:250] + b"d"
    want, known = gens.expected(w, b"", w.size), {}
    args = []
    fails = None
    r.count("names")
    what = "%s with image %r, destination %r, %s" % (t, name, dname, " ".join("%s=%s" % x for x in loc.items()) or "UTF-8")
    if t == "create":
        put(name, w.data)
        surround(name, wrong)
        args = ["create", spec(name)] + rng.choice([["-o", spec(dname)], ["--output", spec(dname)], ["--output=" + spec(dname)]])
    elif t == "api":
        return api(case, env, r, rng, w, ext, name, dname, doc, wrong, cwd, what)
    else:
        args = ["copy"]
        image = None
        if t == "ssh":
            # what has no meaning in URLs
            for c in b"?#%\n\t\r[]\\@":
                name = name.replace(bytes([c]), b"_")
            name = bytes(c if 32 <= c != 127 else 95 for c in name).strip()
            if name.strip(b".") == b"":
                name = b"_" + ext.encode()
            e["PATH"] = sources.bindir(env)
            image = os.fsdecode(b"ssh://" + rng.choice([b"", b"joe@"]) + b"host" + bcwd + b"/" + name)
            what = what.replace("with image", "with %r instead of" % image)
            r.count("ssh")
        elif t == "fileurl":
            # urllib takes URLs for UTF-8
            name = name.decode("ascii" if "LC_ALL" in loc else "utf-8", "ignore").encode() or b"_" + ext.encode()
            image = "file://" + quote(bcwd + b"/" + name)
            r.count("fileurl")
        elif t == "http":
            srv = httpd.get(name="names")
            srv.routes.clear()
            p = "/x/" + quote(name, safe=rng.choice(["", "!$&'()*+,;=:@"]))
            srv.routes["/x/" + quote(quote(name))] = httpd.Route(blob(wrong))
            srv.routes[p] = httpd.Route(blob(w.data))
            image = httpd.url(p, srv=srv)
            srv.routes[p + ".bmap"] = httpd.Route(doc)
            r.count("http")
        if t != "http":
            put(name, blob(w.data))
            image = image or spec(name)
        bname = {"discover": name + b".bmap", "http": None, "nobmap": None, "missing-found": name + b".bmap", "sig": name + b".bmap"}.get(t, pick_name(rng, rng.choice([case["name"], case["name"], -1]), 9)[:240] + b".b")
        if t in ("discover", "sig", "missing-found") and rng.random() < 0.4 and ext and not long and stem.strip(b"."):
            # without the extension
            bname = stem + b".bmap"
        if t == "ssh" and rng.random() < 0.4:
            bname = name + b".bmap"
            put(bname, doc)
            r.count("discovered")
        elif t == "fileurl" and rng.random() < 0.4:
            bname = name + b".bmap"
            put(bname, doc)
            r.count("discovered")
        elif bname:
            put(bname, doc)
            if t in ("discover", "sig", "missing-found"):
                r.count("discovered")
            else:
                args += rng.choice([["--bmap", spec(bname)], ["--bmap=" + spec(bname)]])
        if t == "nobmap":
            args += ["--nobmap"]
            want = w.data
        if t == "sig":
            r.count("signed")
            ring = env.shared["ring"]
            e["GNUPGHOME"] = ring.home(env.path("gnupg"))
            sig = ring.sign(doc, ["good"], armor=rng.random() < 0.5)
            if rng.random() < 0.5:
                put(bname + rng.choice([b".asc", b".sig"]), sig)
            else:
                sname = pick_name(rng, case["name"], 9)[:250] + b".s"
                put(sname, sig)
                surround(sname, b"not a signature")
                args += ["--bmap-sig", spec(sname)]
        if bname:
            # a bmap of something else, or where it must not be used, a suitable one
            surround(bname, doc if t.startswith("missing") else doc.replace(b"<BlocksCount>", b"<BlocksCount>9"))
        surround(name, blob(w.data if t.startswith("missing") else wrong))
        if t.startswith("missing"):
            r.count("missing")
            # only decoys
            gone = name if t == "missing" else bname
            if t == "missing-found":
                # other places where it would be looked for
                for x in legitimate(name):
                    if x in names and x != gone:
                        os.unlink(os.path.join(bcwd, x))
            os.unlink(os.path.join(bcwd, gone))
            fails = gone
        args += [image, spec(dname)]
    existing = rng.random() < 0.5
    if existing:
        put(dname, rng.randbytes(rng.choice([0, 100, w.size + 100])) if t != "create" else b"")
    surround(dname, b"not yours")
    before = snapshot(cwd)
    q = cli.run(args, dir=env.shm, env=e, cwd=cwd, survivors=False, preload=False)
    if q.hang:
        r.bad("hang", "%s: %s" % (what, q.hang))
        return r
    after = snapshot(cwd)
    dp = os.path.join(bcwd, dname)
    for p in sorted(set(before) | set(after)):
        if p != dp and before.get(p, 1) != after.get(p, 1):
            r.bad("other-file", "%s: %r was %s" % (what, p[len(bcwd) + 1:], "created" if p not in before else "removed" if p not in after else "changed"))
    for d in (home, tmp, links):
        x = [f for f in os.listdir(d) if d != links or f != "way"]
        r.check(not x, "other-file", "%s: left behind: %s" % (what, x))
    if fails is not None:
        if r.check(q.rc != 0, "missing-accepted", "%s: %r does not exist, but success" % (what, fails)):
            r.check("ERROR" in q.text(), "no-message", "%s: %s" % (what, q.brief()))
            s = os.fsdecode(fails)
            if t == "missing-found":
                # no bmap was found: no matter which file
                pass
            elif all(c.isalnum() and ord(c) < 128 or c in "%{}().*$ -_" for c in s):
                r.check(s in q.text(), "name-garbled", "%s: the message does not name %r: %s" % (what, s, q.brief()))
    elif r.check(q.rc == 0, "fails", "%s: %s" % (what, q.brief())):
        got = after.get(dp)
        if t == "create":
            r.count("created")
            for b in bmapref.check_generated(got, w.img) if got is not None else ["no bmap"]:
                r.bad("wrong-file", "%s: %s" % (what, b))
        elif r.check(got == want, "wrong-file", "%s: %s" % (what, images.describe_diff(got or b"", want))):
            r.count("copied")
    r.key = "%s|%r|%r" % (t, name, dname)
    r.state(t, case["name"], bool(loc), ext != "", existing)
    r.sample = {"case": what, "expected": "failure" if fails else "success", "result": q.rc}
    return r


def api(case, env, r, rng, w, ext, name, dname, doc, wrong, cwd, what):
    """The same by the interfaces for other programs."""
    from bmaptools import BmapCopy, BmapCreate, Filemap, TransRead
    r.count("api")
    bcwd = os.fsencode(cwd)
    have = {name, dname, b"d" + dname[:200], b"c" + dname[:200]}
    sources.put(os.path.join(bcwd, name), comp.compress(w.data, ext))
    sources.put(os.path.join(bcwd, dname), w.data)
    for n, d in ((name, comp.compress(wrong, ext)), (dname, b"not yours")):
        for x in decoys(n):
            if x not in have:
                have.add(x)
                r.count("decoys")
                sources.put(os.path.join(bcwd, x), d)
    before = snapshot(cwd)
    p = os.path.join(cwd, os.fsdecode(name))
    raw = os.path.join(cwd, os.fsdecode(dname))
    out = os.path.join(cwd, "d" + os.fsdecode(dname[:200]))
    made = os.path.join(cwd, "c" + os.fsdecode(dname[:200]))
    new = {os.fsencode(out), os.fsencode(made)}
    try:
        f = TransRead.TransRead(p)
        with open(out, "wb+") as fo:
            b = BmapCopy.BmapCopy(f, fo)
            b.copy()
        f.close()
        r.check(images.read_file(out) == w.data, "wrong-file", "%s: copied by API: not its data" % what)
        f = TransRead.TransRead(p)
        r.check(f.read() == w.data, "wrong-file", "%s: read by TransRead: not its data" % what)
        f.close()
        BmapCreate.BmapCreate(raw, made, "sha256").generate()
        for b in bmapref.check_generated(images.read_file(made), w.img):
            r.bad("wrong-file", "%s: bmap created by API: %s" % (what, b))
        for cls in (Filemap.filemap, Filemap.FilemapSeek, Filemap.FilemapFiemap):
            try:
                m = cls(raw)
            except Filemap.ErrorNotSupp:
                continue
            n = sum(l - f + 1 for f, l in m.get_mapped_ranges(0, m.blocks_cnt))
            r.check(m.image_size == w.size and n == m.blocks_cnt, "wrong-file", "%s: block map of %d bytes, %d of %d blocks mapped" % (what, m.image_size, n, m.blocks_cnt))
    except Exception as x:
        r.bad("fails", "%s: API: %s: %s" % (what, type(x).__name__, x))
    after = snapshot(cwd)
    for q in sorted(set(before) | set(after)):
        if q not in new and before.get(q, 1) != after.get(q, 1):
            r.bad("other-file", "%s: %r was %s" % (what, q[len(bcwd) + 1:], "created" if q not in before else "removed" if q not in after else "changed"))
    r.key = "%s|%r|%r" % ("api", name, dname)
    r.state("api", case["name"], ext != "")
    r.sample = {"case": what, "expected": "success", "result": "ok" if not r.viols else "violation"}
    return r
