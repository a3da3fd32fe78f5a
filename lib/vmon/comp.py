"""Compressed images in every supported format."""

import os
import subprocess

# extension -> (format, archive?)
EXTS = {
    ".gz": ("gz", False), ".gzip": ("gz", False), ".bz2": ("bz2", False), ".xz": ("xz", False),
    ".lzo": ("lzo", False), ".lz4": ("lz4", False), ".zst": ("zst", False), ".zip": ("zip", False),
    ".tar.gz": ("gz", True), ".tgz": ("gz", True),
    ".tar.bz2": ("bz2", True), ".tbz": ("bz2", True), ".tbz2": ("bz2", True), ".tb2": ("bz2", True),
    ".tar.xz": ("xz", True), ".txz": ("xz", True),
    ".tar.lzo": ("lzo", True), ".tzo": ("lzo", True),
    ".tar.lz4": ("lz4", True), ".tlz4": ("lz4", True),
    ".tar.zst": ("zst", True), ".tzst": ("zst", True),
}
TOOLS = {"gz": ["gzip", "-c", "-1"], "bz2": ["bzip2", "-c", "-1"], "xz": ["xz", "-c", "-0"], "lzo": ["lzop", "-c", "-1"],
         "lz4": ["lz4", "-c", "-q", "-1", "-"], "zst": ["zstd", "-c", "-q", "-1"], "zip": ["zip"]}
# what the tool needs to read a format
NEEDS = {"gz": ["pigz", "gzip"], "bz2": ["pbzip2", "bzip2"], "xz": ["xz"], "lzo": ["lzop"], "lz4": ["lz4"],
         "zst": ["zstd"], "zip": ["funzip"]}
ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C"}


def _env():
    return dict(ENV)


def _pipe(cmd, data, cwd=None):
    p = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env(), cwd=cwd)
    if p.returncode:
        raise RuntimeError("%s: %d %s" % (cmd, p.returncode, p.stderr[-300:]))
    return p.stdout


def _zip(data):
    import io
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED, compresslevel=1) as z:
        z.writestr("image.raw", data)
    return b.getvalue()


# Name of the archive member: extracted by mistake, it must end up in the
# scratch directory of the case (set by the framework).
MEMBER = "image.raw"


def _tar(data, name=None):
    name = name or MEMBER
    import io
    import tarfile
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w", format=tarfile.GNU_FORMAT) as t:
        ti = tarfile.TarInfo(name)
        ti.size = len(data)
        t.addfile(ti, io.BytesIO(data))
    return b.getvalue()


def compress(data, ext, tarname=None, pad=0):
    """bytes -> compressed bytes, for an extension of EXTS ('' = raw); pad: zero bytes to follow an archive."""
    if not ext:
        return data
    fmt, arch = EXTS[ext]
    if arch:
        data = _tar(data, tarname) + bytes(pad)
    return pack(data, fmt)


def wrong(data, bad, ext, pad=0):
    """Compressed 'bad' with the checksum of 'data' (of the same length), None if we do not know how to make that."""
    good = compress(data, ext, pad=pad)
    blob = compress(bad, ext, pad=pad)
    fmt = EXTS[ext][0]
    if fmt == "bz2":
        if len(data) + pad // 50 > 90000:  # has to fit into one block
            return None
        return blob[:10] + good[10:14] + blob[14:]
    n = {"gz": 8, "zst": 4, "lz4": 4}.get(fmt)
    return n and blob[:-n] + good[-n:]


def pack(data, fmt):
    if fmt == "gz":
        import gzip
        return gzip.compress(data, 1)
    if fmt == "bz2":
        import bz2
        return bz2.compress(data, 1)
    if fmt == "xz":
        import lzma
        return lzma.compress(data, preset=0, check=lzma.CHECK_CRC32)
    if fmt == "zip":
        return _zip(data)
    return _pipe(TOOLS[fmt], data)


BASICS = ("sh", "dash", "cat", "true", "test", "df", "tar", "gzip", "pigz", "bzip2", "pbzip2", "xz", "lzop", "lz4", "zstd",
          "funzip", "ssh", "gpg", "gpg-agent", "gpgconf")


def toolbox(dir, without=(), only=None):
    """A PATH directory with links to the installed tools except some."""
    os.makedirs(dir, exist_ok=True)
    for t in (only if only is not None else BASICS):
        if t in without:
            continue
        for d in ("/usr/local/bin", "/usr/bin", "/bin"):
            p = os.path.join(d, t)
            if os.path.exists(p):
                if not os.path.lexists(os.path.join(dir, t)):
                    os.symlink(p, os.path.join(dir, t))
                break
    return dir
