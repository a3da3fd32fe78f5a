"""Generators shared by several checks: (image, block size, ranges) triples."""

from . import images

BLOCK_SIZES = (512, 1024, 2048, 4096, 4096, 4096, 8192, 16384, 65536, 131072, 1 << 20)
ODD_SIZES = (1, 3, 17, 100, 513, 777, 1000, 4095, 4097, 5000, 12288, 65537, 524288, (1 << 20) - 1, (1 << 20) + 1,
             1 << 21, 3 << 20, 1572864)


def pick_bs(rng, odd=0.35, maxbs=4 << 20):
    while True:
        bs = rng.choice(ODD_SIZES) if rng.random() < odd else rng.choice(BLOCK_SIZES)
        if bs <= maxbs:
            return bs


def pick_blocks(rng, bs, maxbytes=3 << 20):
    """A number of blocks and image size for a block size."""
    cap = max(1, maxbytes // bs)
    cap = min(cap, 3000)
    batch = max(1, (1 << 20) // bs)
    n = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, cap), cap,
                    batch, batch + 1, 2 * batch, 2 * batch + 1, max(1, batch - 1)])
    n = max(1, min(n, cap))
    size = n * bs
    if bs > 1 and rng.random() < 0.55:
        size -= rng.choice([1, bs - 1, rng.randint(1, bs - 1)])
    return n, max(1, size)


RANGE_KINDS = ("none", "all", "all", "random", "random", "random", "few", "alternate", "adjacent", "first", "last",
               "notlast", "long", "split")


def pick_ranges(rng, nblocks, kind=None):
    """Ascending disjoint ranges, possibly adjacent."""
    kind = kind or rng.choice(RANGE_KINDS)
    n = nblocks
    if kind == "none":
        return kind, []
    if kind == "all":
        return kind, [(0, n - 1)]
    if kind == "first":
        return kind, [(0, rng.randint(0, n - 1))]
    if kind == "last":
        return kind, [(rng.randint(0, n - 1), n - 1)]
    if kind == "notlast" and n > 1:
        a = rng.randint(0, n - 2)
        return kind, [(a, rng.randint(a, n - 2))]
    if kind == "alternate":
        return kind, [(i, i) for i in range(rng.randint(0, 1), min(n, 400), 2)]
    if kind in ("adjacent", "split"):
        out, b = [], 0
        while b < n and len(out) < 300:
            k = rng.randint(1, max(1, min(n - b, rng.choice([1, 2, 5, 50, 400]))))
            out.append((b, b + k - 1))
            b += k + (1 if kind == "split" and rng.random() < 0.5 else 0)
        return kind, out
    if kind == "few":
        return kind, [(b, b) for b in sorted(rng.sample(range(n), min(n, rng.randint(1, 6))))]
    out, b = [], rng.randint(0, max(0, min(n - 1, 5)))
    while b < n and len(out) < 400:
        k = rng.choice([1, 1, 2, 3, rng.randint(1, 10), rng.randint(1, 300)]) if kind != "long" else rng.randint(1, 700)
        out.append((b, min(n - 1, b + k - 1)))
        b += k + rng.choice([1, 1, 2, rng.randint(1, 20), rng.randint(1, 200)])
    return kind, out


def disorder(rng, ranges):
    """The same ranges in another order, possibly cut into more pieces."""
    out = []
    for f, l in ranges:
        while l > f and rng.random() < 0.5 and len(out) < 300:
            k = rng.randint(f, l - 1)
            out.append((f, k))
            f = k + 1
        out.append((f, l))
    how = rng.choice(["shuffle", "reverse", "swap", "rotate"])
    if how == "shuffle":
        rng.shuffle(out)
    elif how == "reverse":
        out.reverse()
    elif how == "rotate":
        k = rng.randrange(len(out))
        out = out[k:] + out[:k]
    else:
        for _ in range(rng.randint(1, 3)):
            a, b = rng.randrange(len(out)), rng.randrange(len(out))
            out[a], out[b] = out[b], out[a]
    return how, out


class Work:
    pass


def work(rng, maxbytes=3 << 20, bs=None, odd=0.35, minblocks=1, fill=None, nonempty=False, repeat=0):
    """
    An image full of data and a bmap-like description which maps only some of
    its blocks (so that copying too much shows, too).
    """
    w = Work()
    while True:
        w.bs = bs or pick_bs(rng, odd)
        w.nblocks, w.size = pick_blocks(rng, w.bs, max(maxbytes, 2 * w.bs))
        if w.nblocks < minblocks:
            continue
        w.kind, w.ranges = pick_ranges(rng, w.nblocks)
        if nonempty and not w.ranges:
            continue
        break
    data = rng.randbytes(w.size) if fill is None else bytes([fill]) * w.size
    if repeat and rng.random() < repeat:
        # few distinct blocks
        k = rng.choice([1, 1, 2, 3]) * w.bs
        data = (data[:k] * (w.size // k + 1))[:w.size]
    w.img = images.Img(w.size, [(0, data)])
    w.data = data
    w.mapped = sum(l - f + 1 for f, l in w.ranges)
    return w


def byte_ranges(w):
    """Mapped byte intervals (merged)."""
    out = []
    for f, l in sorted(w.ranges):
        s, e = f * w.bs, min((l + 1) * w.bs, w.size)
        if out and out[-1][1] == s:
            out[-1][1] = e
        else:
            out.append([s, e])
    return [tuple(x) for x in out]


def expected(w, old, size=None):
    """Destination contents: 'old' with the mapped blocks replaced."""
    size = w.size if size is None else size
    b = bytearray(old[:size])
    if len(b) < size:
        b += bytes(size - len(b))
    for s, e in byte_ranges(w):
        b[s:e] = w.data[s:e]
    return bytes(b)


def inside(intervals, s, e):
    """Is [s, e) inside one of the (merged, ascending) intervals?"""
    import bisect
    i = bisect.bisect_right(intervals, (s, 1 << 62)) - 1
    return i >= 0 and intervals[i][0] <= s and e <= intervals[i][1]


def writes(events, role="dest"):
    return [e for e in events if e.op == "write" and e.role == role and e.ret > 0]
