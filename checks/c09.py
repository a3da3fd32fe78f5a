"""C09: image streams behave like forward-only files."""
import os
import random
import sys
from vmon import api, comp, core, httpd, images, sources
from vmon.core import Result
from bmaptools import TransRead

PROP = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random call histories on real streams checked online against a position/bytes model"
NOTE = ("Histories of read/seek/tell calls run on TransRead objects over every kind of source (raw and compressed files, "
        "HTTP modes, file URLs, fake ssh, stdin file and pipe); every returned value is compared with a model holding "
        "the uncompressed bytes. Sampled histories, biased to chunk boundaries and the end of the data.")
RULE = ("Random histories (3-40 calls) x source kinds x data sizes; an evaluation is a history. Non-trivial: at least one read "
        "returned data. Distinct by source, data hash and history.")
BATCH = 12
REQUIRE = {"reads": 3000, "seeks": 2000, "backward_refused": 100, "past_end": 100, "read_all": 200, "tells": 1000}

EXTS = ("", "", "", ".gz", ".bz2", ".xz", ".lzo", ".lz4", ".zst", ".zip", ".tar.gz", ".tar.xz", ".tgz")
KINDS = ("file", "file", "file", "http:length", "http:chunked", "http:close", "http:slow", "http:redirect", "fileurl", "ssh",
         "sshslow", "stdin", "stdinpipe")


def cases(ctx):
    return [{"seed": ctx.sub("h", i)} for i in range(ctx.pick(1600, 40000))]


class Pipe:
    """Feeds data into a pipe from a thread, in uneven pieces."""

    def __init__(self, data, rng):
        import threading
        self.r, w = os.pipe()
        seed = rng.random()

        def feed():
            g = random.Random(seed)
            p = 0
            try:
                while p < len(data):
                    n = g.choice([1, 7, 4096, 65536, 1 << 20])
                    p += os.write(w, data[p:p + n])
            except OSError:
                pass
            os.close(w)
        self.t = threading.Thread(target=feed, daemon=True)
        self.t.start()


def run(case, env):
    r = Result()
    rng = random.Random(case["seed"])
    n = rng.choice([1, 100, 4096, 10000, rng.randint(1, 100000), rng.randint(1, 100000), 1 << 20, (1 << 20) + 1, (2 << 20) + 77,
                    rng.randint(1 << 20, 4 << 20)])
    data = rng.randbytes(n)
    kind = rng.choice(KINDS)
    ext = rng.choice(EXTS) if not kind.startswith("stdin") else ""
    s = sources.make(rng, env, data, kind, ext)
    saved = sys.stdin
    try:
        if kind == "stdin":
            sys.stdin = open(s.stdin, "r")
        elif kind == "stdinpipe":
            sys.stdin = os.fdopen(Pipe(data, rng).r, "r")
        with sources.environ(s.env):
            tr = TransRead.TransRead(s.spec)
            history(r, rng, tr, data, kind, ext)
            try:
                tr.close()
            except Exception as e:
                r.bad("close", "%s%s: close() raised %r" % (kind, ext, e))
    finally:
        if sys.stdin is not saved:
            try:
                sys.stdin.close()
            except (OSError, ValueError):
                pass
            sys.stdin = saved
    return r


def history(r, rng, tr, data, kind, ext):
    n = len(data)
    pos = 0
    real = not ext and kind == "file"  # a plain local file may do more
    past = False  # positioned somewhere past the end
    log = []
    what = lambda: "%s%s, %d bytes, history %s" % (kind, ext, n, log[-12:])
    if real or kind == "stdin" or kind == "fileurl":
        strict = real
    else:
        strict = False
    for _ in range(rng.randint(3, 40)):
        op = rng.choice(["read", "read", "read", "seek", "seek", "seekrel", "tell", "tell", "readall", "back", "past", "read0"])
        if op in ("readall", "past") and rng.random() < 0.7:
            op = "read"
        try:
            if op in ("read", "readall", "read0"):
                k = 0 if op == "read0" else rng.choice([1, 2, 100, 4096, 5000, 65536, 1 << 20, (1 << 20) + 1, rng.randint(1, n + 10), n,
                                                        max(1, n - pos), max(1, n - pos + 1)])
                if op == "readall":
                    how = rng.choice(["", "-1", "None"])
                    log.append("read(%s)" % how)
                    got = tr.read() if how == "" else tr.read(-1) if how == "-1" else tr.read(None)
                    want = b"" if past else data[pos:]
                    r.count("read_all")
                else:
                    log.append("read(%d)" % k)
                    got = tr.read(k)
                    want = b"" if past else data[pos:pos + k]
                    r.count("reads")
                if got != want:
                    r.bad("wrong-bytes", "at position %s: got %d bytes, expected %d%s; %s" % (
                        "past the end" if past else pos, len(got), len(want),
                        "" if len(got) != len(want) else ", first difference at %d" % images.first_diff(got, want), what()))
                    return
                pos += len(got)
                r.nontrivial = True
            elif op in ("seek", "seekrel"):
                d = rng.choice([0, 1, 511, 4096, rng.randint(0, max(1, n - pos)), rng.randint(0, max(1, (n - pos) // 4)), 1 << 20,
                                (1 << 20) + 1, 3])
                if past:
                    continue
                new = min(pos + d, n)
                if op == "seek":
                    log.append("seek(%d)" % new)
                    if rng.random() < 0.5:
                        tr.seek(new)
                    else:
                        tr.seek(new, os.SEEK_SET)
                else:
                    log.append("seek(%d, CUR)" % (new - pos))
                    tr.seek(new - pos, os.SEEK_CUR)
                pos = new
                r.count("seeks")
            elif op == "past":
                if past:
                    continue
                new = n + rng.choice([1, 10, 5000, 2 << 20])
                log.append("seek(%d)" % new)
                if rng.random() < 0.5:
                    tr.seek(new)
                else:
                    tr.seek(new - pos, os.SEEK_CUR)
                past, pastpos = True, new
                r.count("past_end")
            elif op == "tell":
                log.append("tell()")
                t = tr.tell()
                ok = t in (n, pastpos) if past else t == pos
                r.count("tells")
                if not ok:
                    r.bad("wrong-position", "tell() says %s, expected %s; %s" % (t, (n, pastpos) if past else pos, what()))
                    return
            elif op == "back":
                if past or pos == 0:
                    continue
                new = rng.choice([0, pos - 1, rng.randrange(pos)])
                log.append("seek(%d) backwards" % new)
                rel = rng.random() < 0.4
                try:
                    if rel:
                        tr.seek(new - pos, os.SEEK_CUR)
                    else:
                        tr.seek(new)
                    pos = new
                    r.count("backward_done")
                except (TransRead.Error, OSError, ValueError) as e:
                    log.append("refused")
                    r.count("backward_refused")
        except Exception as e:
            r.bad("stream-raises", "%s raised %s: %s; %s" % (op, type(e).__name__, e, what()))
            return
        # what is reported now must fit what comes next
    # the rest of the data
    try:
        got = tr.read()
        want = b"" if past else data[pos:]
        if got != want:
            r.bad("wrong-bytes", "the rest from position %s: got %d bytes, expected %d; %s" % (pos, len(got), len(want), what()))
        r.count("read_all")
        got = tr.read(10)
        r.check(got == b"", "wrong-bytes", "data after the end: %r; %s" % (got[:10], what()))
    except Exception as e:
        r.bad("stream-raises", "final read raised %s: %s; %s" % (type(e).__name__, e, what()))
    r.key = "%s|%s|%s|%s" % (kind, ext, images.sha(data), images.sha(repr(log).encode()))
    r.state(kind, ext, past, n >= 1 << 20)
    r.sample = {"source": kind + ext, "bytes": n, "history": log[:10]}
