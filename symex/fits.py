"""
FITS files, as astropy.io.fits shows them: a list of HDUs, each with a header
of so many blocks and data of so many, whose numbers may be symbolic.  What
the blocks hold is not modelled: data are told apart by the HDU they are from.
"""
from __future__ import annotations

import numpy as np
from astropy.io import fits

from . import core, ops
from .core import SymInt, Sym

BLOCK = 2880


class Data(Sym):
    """the data of an HDU"""
    __slots__ = ("path", "ix")

    def __init__(self, path, ix):
        self.path, self.ix = path, ix

    @property
    def __class__(self):
        return np.ndarray

    def __bool__(self):
        raise core.Limit("truth of the data of an HDU")


class Header:
    def __init__(self, cards):
        self.cards = cards


class HDU:
    def __init__(self, file, ix, name, cards, hdr, dat, size):
        self.file, self.ix, self.name = file, ix, name
        self.header = Header(cards)
        self.hdr, self.dat, self.size = hdr, dat, size

    def fileinfo(self):
        return {"hdrLoc": SymInt(self.hdr), "datLoc": SymInt(self.dat),
                "datSpan": SymInt(self.size), "filemode": "readonly"}

    @property
    def data(self):
        if core.CUR.decide(self.size == 0):
            return None
        return Data(self.file, self.ix)

    @property
    def columns(self):
        raise AttributeError("columns")


class HDUs(list):
    def __init__(self, path, hdus):
        super().__init__(hdus)
        self.path = path

    @property
    def __class__(self):
        return fits.HDUList

    def info(self, output=None):
        return [(h.ix, h.name, 1, "ImageHDU" if h.ix else "PrimaryHDU",
                 len(h.header.cards), (), "") for h in self]

    def verify(self, *args, **kwargs):
        pass

    def close(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def files():
    return core.CUR.state.setdefault("fits", {})


def add(path, hdus):
    """hdus: (name, header blocks, data blocks, cards)"""
    import z3
    pos, out = z3.IntVal(0), []
    for ix, (name, h, d, cards) in enumerate(hdus):
        size = core.zint(d) * BLOCK
        dat = pos + core.zint(h) * BLOCK
        cards = [(k, fits.card.UNDEFINED if v is None else v, c) for k, v, c in cards]
        out.append((ix, name, cards, z3.simplify(pos), z3.simplify(dat),
                    z3.simplify(size)))
        pos = dat + size
    files()[path] = out


@ops.handler(fits.open, always=True)
def h_open(fn, *args, **kwargs):
    import os
    path = os.fspath(fn)
    if core.CUR is None or path not in files():
        return fits.open(fn, *args, **kwargs)
    return HDUs(path, [HDU(path, ix, name, list(cards), hdr, dat, size)
                       for ix, name, cards, hdr, dat, size in files()[path]])
