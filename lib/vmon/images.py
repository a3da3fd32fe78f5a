"""Sparse image generation with known ground truth, and comparison helpers."""

import hashlib
import bisect
import itertools
import os
import random

G = 4096  # granularity of holes on the scratch file systems


class Img:
    """
    An image: size and a list of data segments (offset, bytes); everything else
    is a hole.  The segments are disjoint and ascending.
    """

    def __init__(self, size, segs):
        self.size = size
        self.segs = sorted(segs)

    def write(self, path):
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.ftruncate(fd, self.size)
        for off, data in self.segs:
            p = 0
            while p < len(data):
                p += os.pwrite(fd, data[p:p + (1 << 24)], off + p)
        os.close(fd)
        return path

    def bytes(self):
        b = bytearray(self.size)
        for off, data in self.segs:
            b[off:off + len(data)] = data
        return bytes(b)

    def read(self, off, n):
        n = max(0, min(n, self.size - off))
        b = bytearray(n)
        i = bisect.bisect_right(self.segs, off, key=lambda x: x[0]) - 1
        for o, d in itertools.islice(self.segs, max(0, i), None):
            if o >= off + n:
                break
            s, e = max(o, off), min(o + len(d), off + n)
            if s < e:
                b[s - off:e - off] = d[s - o:e - o]
        return bytes(b)

    def touched(self, bs=G):
        """Set of block numbers some written byte falls into."""
        out = set()
        for o, d in self.segs:
            if d:
                out.update(range(o // bs, (o + len(d) - 1) // bs + 1))
        return out

    def blocks(self, bs=G):
        return (self.size + bs - 1) // bs


def ranges_of(blocks):
    """Set of block numbers -> ascending list of (first, last)."""
    out = []
    for b in sorted(blocks):
        if out and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b])
    return [tuple(r) for r in out]


def content(rng, n, kind="rand"):
    if kind == "zero":
        return bytes(n)
    if kind == "text":
        w = rng.randbytes(61)
        return (w * (n // 61 + 1))[:n]
    b = bytearray(rng.randbytes(n))
    # a few runs of zeroes inside the data
    if n > 512 and rng.random() < 0.3:
        a = rng.randrange(n - 256)
        b[a:a + 256] = bytes(256)
    return bytes(b)


SIZES = ("tiny", "small", "batch", "mid", "big")


def pick_size(rng, cls=None, maxsize=6 << 20):
    cls = cls or rng.choice(SIZES)
    if cls == "tiny":
        return rng.choice([1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, rng.randint(1, 20000)])
    if cls == "small":
        n = rng.randint(1, 40) * G
        return max(1, n + rng.choice([0, 0, 1, -1, rng.randint(-4000, 4000)]))
    if cls == "batch":
        n = rng.choice([1, 2, 3]) * (1 << 20) + rng.choice([0, G, -G, 2 * G])
        return max(1, n + rng.choice([0, 0, 1, -1, rng.randint(-4000, 4000)]))
    if cls == "mid":
        return rng.randint(1 << 18, 3 << 20)
    return min(maxsize, rng.randint(3 << 20, 8 << 20)) + rng.choice([0, 0, 1, 17])


LAYOUTS = ("empty", "full", "alternate", "runs", "runs", "runs", "sparse", "edges", "single", "tail", "unaligned", "zeros", "bigrun")


def layout(rng, size, kind=None):
    """-> (kind, list of (offset, length, contentkind))"""
    nb = (size + G - 1) // G
    kind = kind or rng.choice(LAYOUTS)
    segs = []

    def add(first, last, ck="rand"):
        o = first * G
        e = min((last + 1) * G, size)
        if e > o:
            segs.append((o, e - o, ck))

    if kind == "full":
        add(0, nb - 1)
    elif kind == "alternate":
        ph = rng.randint(0, 1)
        for b in range(ph, min(nb, 600), 2):
            add(b, b)
    elif kind == "runs" or kind == "zeros":
        b = rng.choice([0, 0, rng.randint(0, 5)])
        while b < nb:
            n = rng.choice([1, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 300)])
            ck = rng.choice(["rand", "rand", "text", "zero"]) if kind == "zeros" or rng.random() < 0.1 else "rand"
            add(b, min(b + n - 1, nb - 1), ck)
            b += n + rng.choice([1, 1, 2, rng.randint(1, 30), rng.randint(1, 300)])
    elif kind == "sparse":
        for b in sorted(rng.sample(range(nb), min(nb, rng.randint(1, 8)))):
            add(b, b)
    elif kind == "edges":
        add(0, 0)
        if nb > 1:
            add(nb - 1, nb - 1)
        if nb > 5:
            add(nb // 2, nb // 2)
    elif kind == "single":
        b = rng.randrange(nb)
        add(b, b)
    elif kind == "tail":
        n = rng.randint(1, nb)
        add(nb - n, nb - 1)
    elif kind == "bigrun":
        a = rng.randrange(nb)
        add(a, min(nb - 1, a + rng.choice([255, 256, 257, 511, 512, 513])))
    elif kind == "unaligned":
        o = rng.randint(0, min(size - 1, 5000))
        while o < size:
            n = min(rng.choice([1, 100, 4096, 5000, rng.randint(1, 40000)]), size - o)
            segs.append((o, n, "rand"))
            o += n + rng.choice([1, 4096, 8192, rng.randint(1, 200000)])
    return kind, segs


def gen(rng, cls=None, kind=None, maxsize=6 << 20):
    size = pick_size(rng, cls, maxsize)
    kind, lay = layout(rng, size, kind)
    img = Img(size, [(o, content(rng, n, ck)) for o, n, ck in lay])
    img.kind = kind
    return img


def from_blocks(rng, size, blocks, bs=G):
    """An image whose data are exactly the given blocks (of size bs)."""
    segs = []
    for f, l in ranges_of(blocks):
        o, e = f * bs, min((l + 1) * bs, size)
        if e > o:
            segs.append((o, content(rng, e - o)))
    img = Img(size, segs)
    img.kind = "blocks"
    return img


def read_file(path):
    with open(path, "rb") as f:
        return f.read()


def sha(data):
    return hashlib.sha256(data).hexdigest()[:16]


def first_diff(a, b):
    """Offset of first difference of two byte strings (None if equal)."""
    if a == b:
        return None
    n = min(len(a), len(b))
    lo, step = 0, 1 << 16
    while lo < n and a[lo:lo + step] == b[lo:lo + step]:
        lo += step
    for i in range(lo, min(lo + step, n)):
        if a[i] != b[i]:
            return i
    return n


def describe_diff(got, want, what="destination"):
    d = first_diff(got, want)
    if d is None:
        return None
    return "%s differs at byte %d (block %d), length %d, expected length %d, got %s expected %s" % (
        what, d, d // G, len(got), len(want), got[d:d + 16].hex(), want[d:d + 16].hex())


def data_extents(path):
    """[(off, end)] of the data the file system reports, for huge files."""
    out = []
    fd = os.open(path, os.O_RDONLY)
    try:
        size = os.fstat(fd).st_size
        pos = 0
        while pos < size:
            try:
                s = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError:
                break
            e = os.lseek(fd, s, os.SEEK_HOLE)
            out.append((s, e))
            pos = e
    finally:
        os.close(fd)
    return out


def sparse_equal(path, img):
    """Compare a (possibly huge) sparse file with an image; None or text."""
    size = os.path.getsize(path)
    if size != img.size:
        return "size is %d, expected %d" % (size, img.size)
    with open(path, "rb") as f:
        for o, d in img.segs:
            f.seek(o)
            got = f.read(len(d))
            if got != d:
                return describe_diff(got, d, "data at offset %d" % o)
        for s, e in data_extents(path):
            p = s
            while p < e:
                n = min(1 << 20, e - p)
                f.seek(p)
                got = f.read(n)
                if got != img.read(p, n):
                    return describe_diff(got, img.read(p, n), "data at offset %d" % p)
                p += n
    return None


def snapshot(d):
    """{relative name: (type, size, mode, hash or link target)} of a tree."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = ("l", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("d", st.st_mode)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    out[rel] = ("f", st.st_size, st.st_mode, hashlib.sha256(f.read()).hexdigest())
            else:
                out[rel] = ("o", st.st_mode)
    return out
