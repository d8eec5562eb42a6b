"""
Pillow images made from arrays of values: the image is its array.  What is
saved is remembered by file name.
"""
from __future__ import annotations

import os

import numpy as np
import PIL.Image
import z3

from . import core, dense, ops
from .core import Sym, isinstance_real


class Picture(Sym):
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    @property
    def __class__(self):
        return PIL.Image.Image

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        return True

    @property
    def size(self):
        return self.arr.shape[1], self.arr.shape[0]

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    @property
    def mode(self):
        return "L" if self.arr.ndim == 2 else "RGB" if self.arr.shape[2] == 3 else "RGBA"

    def convert(self, mode=None, *a, **k):
        if mode in (None, self.mode):
            return self
        if (self.mode, mode) == ("L", "RGB"):
            return Picture(self.arr.take_(np.dstack([self.arr.ix] * 3)))
        raise core.Limit("image conversion")

    def thumbnail(self, *a, **k):
        raise core.Limit("thumbnail")

    def save(self, fp, format=None, **k):
        saved(os.fspath(fp), self.arr)


class OpenPicture(Sym):
    """A picture file that Pillow has opened: a real one of the same kind,
    size and frames, whose pixels are symbols.  frames: an array for each,
    of the colours; indices: of an image with a palette, what is stored in
    the first frame."""
    __slots__ = ("real", "frames", "indices")

    def __init__(self, real, frames, indices=None):
        self.real, self.frames, self.indices = real, frames, indices

    @property
    def __class__(self):
        return type(self.real)

    def __getattr__(self, name):
        if name.startswith("__") or name in (
            "getdata", "getpixel", "tobytes", "load", "split", "getchannel", "resize",
            "rotate", "transpose", "crop", "point", "quantize", "histogram", "getextrema",
            "getbands", "im", "getcolors", "get_flattened_data", "thumbnail",
            "getbbox", "putpalette", "remap_palette", "draft", "reduce",
        ):
            raise AttributeError(name) if name.startswith("__") else core.Limit(
                f"picture {name}")
        return getattr(self.real, name)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        self.real.close()

    def seek(self, frame):
        self.real.seek(ops.deep_concrete(frame))

    def copy(self):
        r = self.real.copy()
        return Picture(self.arr) if self.real.mode != "P" else _copy(self, r)

    @property
    def arr(self):
        k = self.real.tell()
        if self.real.mode == "P":
            if self.indices is None or k != 0:
                raise core.Limit("palette of a later frame")
            return self.indices
        return self.frames[k]

    def convert(self, mode=None, *a, **k):
        if mode == self.real.mode:
            return Picture(self.arr)
        if self.real.mode == "P" and mode in ("RGB", None):
            return Picture(self.frames[self.real.tell()])
        have = "RGB" if self.real.mode == "P" else self.real.mode
        return Picture(converted(self.frames[self.real.tell()], have, mode))


def converted(arr, have, mode):
    """Pillow's conversions between modes of 8-bit bands"""
    bands = {"1": 1, "L": 1, "LA": 2, "RGB": 3, "RGBA": 4}
    if have not in bands or mode not in ("L", "LA", "RGB", "RGBA"):
        raise core.Limit("image conversion")
    n, out = bands[have], []
    for i in range(0, len(arr.elems), n):
        px = arr.elems[i:i + n]
        if have == "1":
            px = [dense.cast(px[0], np.dtype(bool), np.dtype("u1")) * 255]
        alpha = [px.pop()] if have in ("LA", "RGBA") else [255]
        if mode in ("RGB", "RGBA"):
            px = px * 3 if len(px) == 1 else px
        elif len(px) == 3:
            r, g, b = px
            px = [(r * 19595 + g * 38470 + b * 7471 + 0x8000) // 65536]
        out += px + (alpha if mode in ("LA", "RGBA") else [])
    shape = arr.shape_[:2]
    return dense.DenseArr(out, shape if bands[mode] == 1 else (*shape, bands[mode]), "u1")


def _copy(p, real):
    out = OpenPicture(real, [p.frames[p.real.tell()]], p.indices)
    return out


_open = PIL.Image.open


def h_open(fp, mode="r", formats=None):
    try:
        name = fp.name if isinstance_real(getattr(fp, "name", None), str) \
            and hasattr(fp, "read") else fp
        key = os.path.realpath(os.fspath(name)) if not isinstance_real(fp, Sym) else None
    except TypeError:
        key = None
    reg = core.CUR.state.get("opened", {}) if core.CUR is not None else {}
    if isinstance_real(fp, Sym):
        p = str(fp) if not reg else None
        if p is None:
            raise core.Limit("picture of a symbolic name")
        return _open(p, mode, formats)
    im = _open(fp, mode, formats)
    if key in reg:
        return OpenPicture(im, *reg[key])
    return im


ops.ALWAYS[PIL.Image.open] = h_open


def lookup(v, table):
    """table[v]"""
    if not isinstance_real(v, Sym):
        return table[int(v)]
    out = z3.IntVal(int(table[-1]))
    for k, t in list(enumerate(table))[-2::-1]:
        out = z3.If(dense.zint(v) == k, z3.IntVal(int(t)), out)
    return dense.mkint(z3.simplify(out))


def opens(path, frames, indices=None):
    core.CUR.state.setdefault("opened", {})[os.path.realpath(path)] = (frames, indices)


def saved(path, arr):
    core.CUR.state.setdefault("pictures", {})[os.path.realpath(path)] = arr


@ops.handler(PIL.Image.fromarray)
def fromarray(obj, mode=None):
    arr = dense.of(obj)
    if arr is None:
        raise core.Limit("image of an unknown array")
    if mode is not None:
        raise core.Limit("image mode")
    if arr.dt.kind != "u" or arr.dt.itemsize != 1:
        # other types make other modes, or fail
        PIL.Image.fromarray(np.zeros(arr.shape, arr.dt))
        raise core.Limit("image of other types")
    if not (arr.ndim == 2 or arr.ndim == 3 and arr.shape[2] in (2, 3, 4)):
        raise TypeError("Cannot handle this data type")
    # masks are not looked at
    return Picture(dense.DenseArr(list(arr.elems), arr.shape_, arr.dt))



# arrays that values are put into
def constructor(fn, old):
    def h(shape, *a, **k):
        shape = ops.deep_concrete(shape)
        fill = None
        if fn is np.full:
            fill, a = (a[0], a[1:]) if a else (k.pop("fill_value"), a)
            k.setdefault("dtype", np.asarray(dense.scalar_weak(fill)).dtype)
        r = (np.zeros if fn is np.full else fn)(shape, *a, **k)
        if r.size > 1000 or r.dtype.kind not in "biuf":
            return old(shape, *a, **k) if fn is not np.full else fn(shape, fill, *a, **k)
        out = dense.of(r)
        if fill is not None:
            out[...] = fill
        return out
    return h


for _fn in (np.zeros, np.ones, np.empty, np.full):
    ops.ALWAYS[_fn] = constructor(_fn, ops.CALLS.get(_fn, _fn))
