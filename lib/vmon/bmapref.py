"""An independent bmap writer (all format versions) and strict parser."""

import hashlib
import re
import xml.dom.minidom

VERSIONS = ("1.0", "1.1", "1.2", "1.3", "1.4", "2.0")
HASHES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b", "blake2s", "sm3", "ripemd160")


def usable_hashes():
    out = []
    for h in HASHES:
        try:
            hashlib.new(h).hexdigest()
            out.append(h)
        except (ValueError, TypeError):
            pass
    return out


def has_checksums(version):
    return version in ("1.3", "1.4", "2.0")


def range_data(img, first, last, bs):
    return img.read(first * bs, (last + 1 - first) * bs)


def make(img, bs, ranges, version="2.0", cs="sha256", style=None, rng=None,
         range_cs=None, over=None, digests=None):
    """
    Return the bmap text (bytes).  'style': official | compact | airy;
    'range_cs': None (all) or a set of range indices which carry checksums;
    'over' overrides header fields {"ImageSize": text, ...}, None drops one;
    'digests' overrides the checksum of ranges {index: hex}.
    """
    style = style or "official"
    over = over or {}
    digests = digests or {}
    nblocks = (img.size + bs - 1) // bs
    mapped = sum(l - f + 1 for f, l in ranges)
    has = has_checksums(version)
    if version == "1.3":
        cs, attr, tag = "sha1", "sha1", "BmapFileSHA1"
    else:
        attr, tag = "chksum", "BmapFileChecksum"
    zero = "0" * len(hashlib.new(cs).hexdigest()) if has else None

    if style == "compact":
        nl = ind = sp = ""
    elif style == "airy":
        nl, ind, sp = "\n\n", "\t  ", "\n   \t "
    else:
        nl, ind, sp = "\n", "    ", " "

    def elem(name, value):
        v = over.get(name, value)
        if v is None:
            return ""
        return "%s<%s>%s%s%s</%s>%s" % (ind, name, sp, v, sp, name, nl)

    out = '<?xml version="1.0" ?>' + nl
    if style == "official":
        out += ("<!-- This file contains the block map for an image file, which is basically\n"
                "     a list of useful (mapped) block numbers in the image file. -->\n\n")
    out += '<bmap version="%s">%s' % (over.get("version", version), nl)
    out += elem("ImageSize", str(img.size))
    out += elem("BlockSize", str(bs))
    out += elem("BlocksCount", str(nblocks))
    out += elem("MappedBlocksCount", str(mapped))
    if has and version != "1.3":
        out += elem("ChecksumType", cs)
    if has:
        out += elem(tag, zero)
    out += ind + "<BlockMap>" + nl
    for i, (f, l) in enumerate(ranges):
        a = ""
        if has and (range_cs is None or i in range_cs):
            h = digests.get(i)
            if h is None:
                h = hashlib.new(cs, range_data(img, f, l, bs)).hexdigest()
            a = ' %s="%s"' % (attr, h)
        single = f == l and not (rng and rng.random() < 0.5)
        if single:
            t = "%d" % f
        elif style == "airy":
            t = "%d  -\n %d" % (f, l)
        elif style == "compact":
            t = "%d-%d" % (f, l)
        else:
            t = "%d-%d" % (f, l)
        out += "%s<Range%s>%s%s%s</Range>%s" % (ind * 2, a, sp, t, sp, nl)
    if "extra_ranges" in over:
        out += over["extra_ranges"]
    out += ind + "</BlockMap>" + nl + "</bmap>" + ("\n" if style != "compact" else "")
    data = out.encode()
    if has and tag not in over:
        h = hashlib.new(cs, data).hexdigest()
        data = data.replace(zero.encode(), h.encode(), 1)
    return data


def reseal(old, new):
    """'new' is an edited 'old': make its own checksum right."""
    m = re.search(rb"<BmapFile(SHA1|Checksum)>\s*([0-9a-f]+)", old)
    if not m:
        return new
    t = re.search(rb"<ChecksumType>\s*(\w+)", old)
    cs = "sha1" if m.group(1) == b"SHA1" else t.group(1).decode()
    h, zero = m.group(2), b"0" * len(m.group(2))
    new = new.replace(h, zero, 1)
    return new.replace(zero, hashlib.new(cs, new).hexdigest().encode(), 1)


class ParseError(Exception):
    pass


class Bmap:
    pass


def parse(data):
    """Strict parser of format 2.0 as documented; raises ParseError."""
    try:
        dom = xml.dom.minidom.parseString(data)
    except Exception as e:
        raise ParseError("not well-formed: %s" % e)
    root = dom.documentElement
    if root.tagName != "bmap":
        raise ParseError("root is <%s>" % root.tagName)
    b = Bmap()
    b.version = root.getAttribute("version")

    def text(n):
        return "".join(c.data for c in n.childNodes if c.nodeType == c.TEXT_NODE).strip()

    def field(name):
        v = [c for c in root.childNodes if c.nodeType == c.ELEMENT_NODE and c.tagName == name]
        if len(v) != 1:
            raise ParseError("%d elements <%s>" % (len(v), name))
        return text(v[0])

    def num(s):
        if not re.fullmatch(r"\d+", s):
            raise ParseError("not a number: %r" % s)
        return int(s)

    b.image_size = num(field("ImageSize"))
    b.block_size = num(field("BlockSize"))
    b.blocks_cnt = num(field("BlocksCount"))
    b.mapped_cnt = num(field("MappedBlocksCount"))
    b.cs_type = field("ChecksumType")
    b.file_cs = field("BmapFileChecksum")
    b.ranges, b.chksums = [], []
    bm = [c for c in root.childNodes if c.nodeType == c.ELEMENT_NODE and c.tagName == "BlockMap"]
    if len(bm) != 1:
        raise ParseError("%d BlockMaps" % len(bm))
    for c in bm[0].childNodes:
        if c.nodeType != c.ELEMENT_NODE:
            continue
        if c.tagName != "Range":
            raise ParseError("unexpected <%s>" % c.tagName)
        m = re.fullmatch(r"(\d+)(?:\s*-\s*(\d+))?", text(c))
        if not m:
            raise ParseError("bad range %r" % text(c))
        f = int(m.group(1))
        l = int(m.group(2)) if m.group(2) else f
        b.ranges.append((f, l))
        b.chksums.append(c.getAttribute("chksum") or None)
    b.comments = re.findall(r"<!--(.*?)-->", data.decode(), re.S)
    return b


def check_generated(data, img, with_checksums=True, cs=None):
    """
    Everything the format promises about a generated bmap.  Returns a list of
    problems; the parsed bmap is in check_generated.last.
    """
    bad = []
    try:
        b = parse(data)
    except ParseError as e:
        check_generated.last = None
        return ["bmap is malformed: %s" % e]
    check_generated.last = b
    if b.version != "2.0":
        bad.append("version %s" % b.version)
    if b.image_size != img.size:
        bad.append("ImageSize %d, image has %d" % (b.image_size, img.size))
    if b.block_size <= 0:
        return bad + ["BlockSize %d" % b.block_size]
    if b.blocks_cnt != (img.size + b.block_size - 1) // b.block_size:
        bad.append("BlocksCount %d for size %d, block size %d" % (b.blocks_cnt, img.size, b.block_size))
    prev = -1
    tot = 0
    for f, l in b.ranges:
        if f > l:
            bad.append("reversed range %d-%d" % (f, l))
        if f <= prev:
            bad.append("range %d-%d not after block %d" % (f, l, prev))
        if l >= b.blocks_cnt:
            bad.append("range %d-%d beyond block count %d" % (f, l, b.blocks_cnt))
        prev = l
        tot += l - f + 1
    if tot != b.mapped_cnt:
        bad.append("MappedBlocksCount %d, ranges add up to %d" % (b.mapped_cnt, tot))
    if cs and b.cs_type != cs:
        bad.append("ChecksumType %s instead of %s" % (b.cs_type, cs))
    try:
        hn = lambda d: hashlib.new(b.cs_type, d).hexdigest()
        hn(b"")
    except (ValueError, TypeError):
        return bad + ["unusable ChecksumType %r" % b.cs_type]
    z = data.replace(b.file_cs.encode(), b"0" * len(b.file_cs), 1)
    if len(b.file_cs) != len(hn(b"")) or hn(z) != b.file_cs:
        bad.append("wrong BmapFileChecksum")
    for (f, l), c in zip(b.ranges, b.chksums):
        if with_checksums:
            want = hn(range_data(img, f, l, b.block_size))
            if c is None:
                bad.append("range %d-%d has no checksum" % (f, l))
            elif c != want:
                bad.append("range %d-%d has a wrong checksum" % (f, l))
        elif c is not None:
            bad.append("range %d-%d has a checksum although disabled" % (f, l))
    covered = b.ranges
    for o, d in img.segs:
        # every non-zero byte must be covered
        pos = 0
        n = len(d)
        bs = b.block_size
        first = o // bs
        last = (o + n - 1) // bs if n else first - 1
        for blk in range(first, last + 1):
            s, e = max(o, blk * bs), min(o + n, (blk + 1) * bs)
            if d[s - o:e - o].count(0) != e - s and not any(f <= blk <= l for f, l in covered):
                bad.append("block %d holds data but is not mapped" % blk)
                break
    return bad
