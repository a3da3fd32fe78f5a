"""Thin wrappers around the public API of bmap-tools."""

import io
import os

from bmaptools import BmapCopy, BmapCreate, BmapHelpers, Filemap, TransRead

KNOWN_ERRORS = (BmapCopy.Error, BmapCreate.Error, Filemap.Error, Filemap.ErrorNotSupp, TransRead.Error, BmapHelpers.Error)


class Outcome:
    """What a call did: exception (or None), its text, objects."""

    exc = None
    text = ""
    writer = None

    @property
    def ok(self):
        return self.exc is None

    def brief(self):
        return "returned normally" if self.ok else "raised %s: %s" % (self.exc, self.text[:300])


def copy(image, dest, bmap=None, size=None, bdev=False, sync=True, verify=True,
         use_trans=True, mode=None, progress=None, psplash=None, keep_open=False,
         image_obj=None, passsize=True, buffering=-1):
    """
    Copy 'image' to 'dest' with 'bmap'; all are paths.  Returns an Outcome.
    """
    o = Outcome()
    fi = fd = fb = None
    try:
        if image_obj is not None:
            fi = image_obj
        else:
            fi = TransRead.TransRead(image) if use_trans else open(image, "rb")
        if size is None and passsize and use_trans and image_obj is None:
            size = fi.size
        if bmap is not None:
            fb = open(bmap, "rb")
        if mode is None:
            mode = "r+b" if bdev or os.path.exists(dest) else "w+b"
        if bdev:
            fd = os.fdopen(os.open(dest, os.O_WRONLY | os.O_EXCL), "wb")
            fd = _Named(fd, dest)
        else:
            fd = open(dest, mode, buffering=buffering)
        cls = BmapCopy.BmapBdevCopy if bdev else BmapCopy.BmapCopy
        w = cls(fi, fd, fb, size)
        o.writer = w
        if progress is not None:
            w.set_progress_indicator(progress, None)
        if psplash is not None:
            w.set_psplash_pipe(psplash)
        w.copy(sync, verify)
        o.copied = True
        if keep_open:
            o.kept = (fi, fd, fb)
        else:
            fd.close()
    except BaseException as e:  # including KeyboardInterrupt
        o.exc = type(e).__name__
        o.text = str(e)
        o.error = e
        # flush what is buffered now: nothing may happen behind our back later
        try:
            if fd is not None:
                fd.close()
        except BaseException:
            pass
    finally:
        if not keep_open:
            for f in (fi, fb):
                try:
                    if f is not None and image_obj is None:
                        f.close()
                except BaseException:
                    pass
    return o


class _Named:
    def __init__(self, f, name):
        self._f = f
        self.name = name

    def __getattr__(self, n):
        return getattr(self._f, n)


def create(image, bmap, cs="sha256", include=True):
    """Create a bmap; 'image' and 'bmap' are paths or file objects."""
    o = Outcome()
    try:
        c = BmapCreate.BmapCreate(image, bmap, cs)
        o.writer = c
        c.generate(include)
    except BaseException as e:
        o.exc = type(e).__name__
        o.text = str(e)
        o.error = e
    return o
