"""
Values that are just "the bytes of a file at some offset" (Sample), buffers
joined from pieces of files (Joined), arrays of both, and structured arrays
and frames with such columns.
"""
from __future__ import annotations

import builtins
import types

import numpy as np
import pandas as pd
import z3

from . import arrays, core, dense, frames, ops, strings
from .core import Sym, SymInt, has_sym, isinstance_real, mkint, zint
from .dense import DenseArr
from .streams import PatFile, SymSpan, TextSpan, Window, literal


class Sample(Sym):
    """the number stored in a file at an offset"""
    __slots__ = ("file", "off", "dt", "swapped")

    def __init__(self, file, off, dt, swapped=False):
        self.file, self.off, self.dt, self.swapped = file, off, dt, swapped

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        raise core.Limit("value of an opaque file")

    __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise core.Limit("value of an opaque file")

    def swap(self):
        return Sample(self.file, self.off, self.dt, not self.swapped)


OPAQUE = (Sample, SymSpan, TextSpan)


def textlike(v):
    """has a length and characters, as far as numpy is concerned"""
    return type(v) in (SymSpan, TextSpan) or isinstance_real(v, (bytes, str)) or \
        isinstance(v, (bytes, str))


class Joined(Sym):
    """bytes joined from pieces"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    @property
    def __class__(self):
        return bytearray

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        raise core.Limit("comparison of opaque bytes")

    def len_(self):
        n = 0
        for p in self.parts:
            n = n + ops.call(len, p)
        return n

    def __len__(self):
        return int(self.len_())


def content(span):
    """bytes of a span whose bytes are known one by one, else the span"""
    if type(span) is not SymSpan:
        return span
    if isinstance_real(span.file, PatFile):
        return literal(span)
    if type(span.file) is dense.ValFile:
        a, n = int(mkint(span.start)), int(mkint(span.length))
        cs = [span.file.byte(a + k) for k in range(n)]
        return strings.SymBytes.make([c.e if type(c) is SymInt else int(c) for c in cs])
    return span


def hook(recv, name, args, kwargs):
    if name == "from_records" and recv is pd.DataFrame and args and type(args[0]) is Rec:
        return frame(args[0])
    if type(recv) is SymSpan and name in SEARCH and type(recv.file) is dense.ValFile:
        return ops.mcall(content(recv), name, *args, **kwargs)
    if type(recv) is SymSpan and name in TEXTY:
        if type(recv.file) is dense.ValFile:
            return ops.mcall(content(recv), name, *args, **kwargs)
        if isinstance_real(recv.file, PatFile):
            if name == "split" and len(args) == 1 and not kwargs:
                return split(recv, args[0])
            t = literal(recv)
            if t is not recv:
                return ops.mcall(t, name, *args, **kwargs)
    return ops.MISSING


SEARCH = ("find", "rfind", "index", "count", "startswith", "endswith", "partition", "rpartition")
TEXTY = ("decode", "split", "strip", "rstrip", "lstrip", "replace", "splitlines", "upper", "lower")


def split(span, by):
    """pieces of a span of runs and literals"""
    w = Window(span)
    out, at, k = [], span.start, 0
    end = z3.simplify(span.start + span.length)
    while True:
        m = w.data.find(by, k)
        if m < 0:
            break
        hit = w.items[m:m + len(by)]
        if any(x[0] for x in hit):
            raise core.Limit("delimiter in a run of bytes")
        out.append(content(SymSpan(span.file, at, hit[0][2] - at)))
        at, k = hit[-1][3], m + len(by)
    out.append(content(SymSpan(span.file, at, end - at)))
    return out


ops.HOOKS.insert(0, hook)

def join(recv, items):
    """spans of files"""
    if not any(type(i) is SymSpan for i in items):
        return ops.MISSING
    items = [content(i) for i in items]
    if any(type(i) is SymSpan for i in items):
        if len(recv):
            raise core.Limit("opaque bytes joined with a separator")
        return Joined(items)
    return ops.mcall(recv, "join", items)


ops.JOINS.append(join)

@ops.handler(builtins.bytearray)
def h_bytearray(x=b"", *a):
    if type(x) in (Joined, SymSpan) or type(x) is ops.SymBytes:
        return x
    return bytearray(ops.deep_concrete(x), *a)


_frombuffer = ops.CALLS[np.frombuffer]


@ops.handler(np.frombuffer)
def np_frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    if type(buffer) is not Joined:
        return _frombuffer(buffer, dtype, count, offset)
    if count != -1 or offset != 0:
        raise core.Limit("part of a joined buffer")
    dt = np.dtype(dtype)
    out = []
    for p in buffer.parts:
        if type(p) is not SymSpan:
            raise core.Limit("mixed buffer")
        q = z3.simplify(p.length / dt.itemsize)
        if not arrays.prove_eq(q * dt.itemsize, p.length):
            raise ValueError("buffer size must be a multiple of element size")
        for k in range(int(mkint(q))):
            out.append(Sample(p.file, z3.simplify(p.start + k * dt.itemsize), dt))
    return DenseArr(out, (len(out),), dt)


def text_array(items, dtype):
    """np.array(list of texts, dtype)"""
    items = [content(i) for i in items]
    dt = None if dtype is None else np.dtype(dtype)
    if dt is not None and dt.kind == "O":
        return DenseArr(items, (len(items),), object)
    if dt is not None and dt.kind == "f":
        return DenseArr([ops.call(float, i) for i in items], (len(items),), dt)
    if dt is not None and dt.kind not in "SU":
        raise core.Limit(f"array of {dt} from texts")
    kind = dt.kind if dt is not None else (
        "S" if isinstance(items[0], bytes) else "U")
    if dt is not None and dt.itemsize:
        raise core.Limit("array of texts of given width")
    n = max([1] + [int(ops.call(len, i)) for i in items])
    nul = b"\0" if kind == "S" else "\0"
    items = [i if type(i) in OPAQUE else ops.mcall(i, "rstrip", nul) for i in items]
    return DenseArr(items, (len(items),), np.dtype(f"{kind}{n}"))


def conv(old, any_):
    def h(x, dtype=None, *a, **k):
        if isinstance_real(x, (list, tuple)) and x and all(textlike(i) for i in x):
            return text_array(x, dtype)
        if type(x) is Rec:
            return x.cast(dtype) if dtype is not None else x.copy()
        if type(x) is DenseArr and dtype is not None:
            d = x.astype(dtype)
            return d if any_ else old(d)
        return old(x, dtype, *a, **k)
    return h


for _fn in (np.ascontiguousarray, np.asarray, np.array, np.asanyarray):
    ops.CALLS[_fn] = conv(ops.CALLS[_fn], _fn is np.asanyarray)


# ------------------------------------------------------- arrays of such values
_astype, _view = DenseArr.astype, DenseArr.view


def astype(self, dtype, *a, **k):
    dt = np.dtype(ops.deep_concrete(dtype))
    if any(type(e) in OPAQUE for e in self.elems):
        if dt.kind == "O" or dt == self.dt:
            return self.like(list(self.elems), dt=dt)
        if dt.kind in "SU" and self.dt.kind == dt.kind and (
                dt.itemsize == 0 or dt.itemsize >= self.dt.itemsize):
            return self.like(list(self.elems), dt=dt if dt.itemsize else self.dt)
        if dt.kind == self.dt.kind and dt.itemsize >= self.dt.itemsize and dt.kind in "iufc":
            # the value stays the same
            return self.like(list(self.elems), dt=dt)
        raise core.Limit(f"{self.dt} to {dt} of opaque values")
    if self.dt.kind in "OSU" or dt.kind in "OSU":
        return self.like([cast_text(e, self.dt, dt) for e in self.elems], dt=dt)
    return _astype(self, dtype, *a, **k)


def cast_text(e, src, dt):
    if dt.kind == "O" or src.kind == "O" and dt.kind not in "SU" and not textlike(e):
        if dt.kind == "O" or not has_sym(e):
            return e if dt.kind == "O" else np.dtype(dt).type(e).item()
        if dt.kind in "iu" and type(e) is SymInt:
            i = np.iinfo(dt)
            if not core.CUR.decide(z3.And(e.e >= int(i.min), e.e <= int(i.max))):
                raise OverflowError("Python int too large to convert to C long")
            return e
        if dt.kind == "f":
            return dense.tofloat(e)
        if dt.kind == "b":
            return dense.cast(e, None, dt)
        raise core.Limit(f"object to {dt}")
    if dt.kind in "SU" and textlike(e):
        w = dt.itemsize // (4 if dt.kind == "U" else 1)
        if dt.kind == "U" and isinstance(e, bytes):
            e = ops.mcall(e, "decode", "ascii")
        elif dt.kind == "S" and isinstance(e, str):
            e = ops.mcall(e, "encode", "ascii")
        return ops.getitem(e, slice(0, w)) if w and int(ops.call(len, e)) > w else e
    if textlike(e) and dt.kind in "iu":
        return ops.call(int, e)
    if textlike(e) and dt.kind == "f":
        return ops.call(float, e)
    raise core.Limit(f"{src} to {dt}")


# texts as elements of object arrays
_is_scalar, _compare, _cast = dense.is_scalar, dense.compare, dense.cast
_weak = dense.scalar_weak


def is_scalar(x):
    return _is_scalar(x) or textlike(x)


def scalar_weak(x):
    if core.is_sym(x) and textlike(x):
        return b"" if isinstance(x, bytes) else ""
    return _weak(x)


def compare(op, a, b):
    if textlike(a) or textlike(b):
        if op not in ("eq", "ne"):
            raise core.Limit("order of texts")
        if not textlike(a) or not textlike(b) or \
                isinstance(a, bytes) is not isinstance(b, bytes):
            return op == "ne"
        a, b = content(a), content(b)
        return dense.CMP[op](a, b)
    return _compare(op, a, b)


def cast(v, src, dt):
    if dt.kind in "OSU" or textlike(v):
        return cast_text(v, src, dt)
    return _cast(v, src, dt)


dense.is_scalar, dense.compare, dense.cast = is_scalar, compare, cast
dense.scalar_weak = scalar_weak


def view(self, dtype=None, type=None, fill_value=None):
    if dtype is None or isinstance_real(dtype, builtins.type) and issubclass(dtype, np.ndarray):
        return _view(self, dtype, type, fill_value)
    dt = np.dtype(dtype)
    if dt == self.dt:
        return self.like(self.elems)
    if dt.kind == self.dt.kind and dt.itemsize == self.dt.itemsize:
        return self.like(swapped(self.elems), dt=dt)
    return _view(self, dtype, type, fill_value)


def swapped(elems):
    if not all(type(e) is Sample for e in elems):
        raise core.Limit("byte order of computed values")
    return [e.swap() for e in elems]


def byteswap(self, inplace=False):
    if self.itemsize == 1:
        return self.copy()
    out = swapped(self.elems)
    if inplace:
        self.elems[:] = out
        return self
    return self.like(out)


DenseArr.astype, DenseArr.view, DenseArr.byteswap = astype, view, byteswap
_old_bcast = DenseArr.__setitem__


@ops.handler(np.char.decode)
def np_decode(a, encoding="utf-8", errors="strict"):
    if type(a) is not DenseArr:
        return np.char.decode(ops.deep_concrete(a), encoding, errors)
    out = []
    for e in a.elems:
        out.append(ops.mcall(e, "decode", encoding or "utf-8", errors or "strict"))
    n = max([1] + [int(ops.call(len, e)) for e in out])
    return a.like(out, dt=np.dtype(f"U{n}"))


# ------------------------------------------------------------ structured arrays
class Rec(Sym):
    """structured array, column by column"""
    __slots__ = ("cols", "n", "dt", "sub", "meta_data", "masked")

    def __init__(self, cols, n, dt, sub=None, meta_data=None, masked=False):
        self.cols, self.n, self.dt = cols, n, dt
        self.sub, self.meta_data, self.masked = sub, meta_data, masked

    @property
    def __class__(self):
        return self.sub or (np.ma.MaskedArray if self.masked else np.recarray)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        raise core.Limit("comparison of structured arrays")

    shape = property(lambda self: (self.n,))
    ndim = property(lambda self: 1)
    size = property(lambda self: self.n)
    dtype = property(lambda self: self.dt)

    def len_(self):
        return self.n

    __len__ = len_

    def __bool__(self):
        raise ValueError("truth value of an array")

    def like(self, cols, dt=None):
        return Rec(cols, self.n, dt or self.dt, self.sub, self.meta_data, self.masked)

    def copy(self, *a, **k):
        return self.like({k: v.copy() for k, v in self.cols.items()})

    def view(self, dtype=None, type=None):
        if isinstance_real(dtype, builtins.type) and issubclass(dtype, np.ndarray):
            type, dtype = dtype, None
        if dtype is None:
            out = self.like(self.cols)
            if type is not None:
                out.masked = issubclass(type, np.ma.MaskedArray)
                out.sub = None if type in (np.ndarray, np.recarray, np.ma.MaskedArray) else type
                if out.sub and out.meta_data is None:
                    import collections
                    out.meta_data = collections.OrderedDict()
            return out
        dt = np.dtype(dtype)
        if dt.names is None or len(dt.names) != len(self.dt.names):
            raise core.Limit("view of a structured array")
        return self.like({n: self.cols[m].view(dt[n].base)
                          for n, m in zip(dt.names, self.dt.names)}, dt)

    def byteswap(self, inplace=False):
        return self.like({k: v.byteswap() for k, v in self.cols.items()})

    def cast(self, dtype):
        dt = np.dtype(dtype)
        if dt.names != self.dt.names:
            raise core.Limit("structured cast with renaming")
        out = self.like({n: plain(self.cols[n].astype(dt[n].base)) for n in dt.names}, dt)
        out.sub, out.masked = None, False
        return out

    def __getitem__(self, k):
        if isinstance_real(k, str):
            if k not in self.cols:
                raise ValueError(f"no field of name {k}")
            c = self.cols[k]
            c = c.like(c.elems)
            if self.masked and c.mask_ is None:
                c.mask_ = [False] * c.size
            if not self.masked:
                c.mask_ = None
            c.sub = self.sub
            return c
        if isinstance_real(k, list) and all(isinstance_real(x, str) for x in k):
            return self.like({x: self.cols[x] for x in k}, self.dt[k])
        raise core.Limit("row of a structured array")

    def field(self, k):
        return self[k]

    def __setitem__(self, k, v):
        if not isinstance_real(k, str):
            raise core.Limit("row of a structured array")
        if k not in self.dt.names:
            raise ValueError(f"no field of name {k}")
        dt = self.dt[k]
        v = dense.of(v)
        shape = (self.n,) + dt.shape
        v = v.broadcast(shape)
        m = v.mask_
        v = v.astype(dt.base)
        self.cols[k] = DenseArr(list(v.elems), shape, dt.base,
                                None if m is None else list(m))

    @property
    def mask(self):
        if not self.masked:
            raise AttributeError("mask")
        return {k: dense.of(c.mask_ or [False] * c.size).reshape(c.shape_)
                for k, c in self.cols.items()}

    @property
    def fill_value(self):
        if not self.masked:
            raise AttributeError("fill_value")
        return {n: np.zeros(self.dt[n].shape) for n in self.dt.names}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        sub = object.__getattribute__(self, "sub")
        f = getattr(sub, name, None) if sub is not None else None
        if isinstance_real(f, types.FunctionType):
            return types.MethodType(f, self)
        raise core.Limit(f"{name} of a structured array")


def plain(a):
    return DenseArr(a.elems, a.shape_, a.dt)


def np_recarray(shape, dtype=None, *a, **k):
    if core.CUR is None or a or k or dtype is None:
        return np.recarray(shape, dtype, *a, **k)
    n = int(shape[0] if isinstance_real(shape, tuple) else shape)
    dt = np.dtype(dtype)
    cols = {}
    for name in dt.names:
        sh = (n,) + dt[name].shape
        cols[name] = DenseArr([Garbage()] * int(np.prod(sh)), sh, dt[name].base)
    return Rec(cols, n, dt)


class Garbage(Sym):
    """uninitialised"""
    def __eq__(self, o):
        raise core.Limit("uninitialised memory")
    __hash__ = object.__hash__


@ops.handler(np.ma.MaskedArray.__new__)
def ma_new(cls, data=None, *a, **k):
    if type(data) is not DenseArr or a or any(v is not None for v in k.values()):
        return np.ma.MaskedArray.__new__(cls, ops.deep_concrete(data), *a, **k)
    return data.view(cls)


ops.ALWAYS[np.recarray] = np_recarray


# ---------------------------------------------------------------------- frames
def frame(a):
    if type(a) is Rec:
        for c in a.cols.values():
            if c.ndim != 1:
                raise ValueError("Per-column arrays must each be 1-dimensional")
        return frames.SymFrame(list(a.cols), [frames.SymCol(c) for c in a.cols.values()],
                               z3.IntVal(a.n))
    if a.ndim == 1:
        a = a.reshape(a.size, 1)
    n, m = a.shape_
    return frames.SymFrame(list(range(m)), [
        frames.SymCol(a[:, j]) for j in range(m)], z3.IntVal(n))


_df = ops.CALLS[pd.DataFrame]


@ops.handler(pd.DataFrame)
def h_frame(data=None, *a, **k):
    if type(data) in (DenseArr, Rec) and not a and not k:
        if type(data) is DenseArr and data.mask_ is not None:
            data = nan_masked(data)
        return frame(data)
    return _df(data, *a, **k)


def col_mask(col, cond, *a, **k):
    """Series.mask: NaN where the condition holds"""
    arr, c = dense.of(col.values), dense.of(cond)
    if a or k or arr is None or c is None:
        raise core.Limit("Series.mask")
    arr = arr.like(list(arr.elems))
    arr.mask_ = list(c.elems)
    return frames.SymCol(nan_masked(arr))


frames.SymCol.mask = col_mask


def nan_masked(a):
    """pandas turns masked elements into NaN"""
    ms = [bool(m) for m in a.mask_]
    if not any(ms):
        return plain(a)
    if a.dt.kind in "iu":
        a = a.astype("f8")
    dt = a.dt if a.dt.kind == "f" else np.dtype(object)
    return DenseArr([float("nan") if m else e for e, m in zip(a.elems, ms)], a.shape_, dt)


_concat = pd.concat


@ops.handler(pd.concat)
def pd_concat(objs, *a, axis=0, **k):
    objs = list(objs)
    if not all(type(o) is frames.SymFrame for o in objs) or axis not in (1, "columns"):
        return _concat(objs, *a, axis=axis, **k)
    names, cols = [], []
    for o in objs:
        names += o.names_
        cols += o.cols
    return frames.SymFrame(names, cols, objs[0].n)


def decodes(arr, idx, file, offset, dt):
    """an element is the number of type dt at an offset of a file"""
    if len(idx) != arr.ndim or any(i >= n for i, n in zip(idx, arr.shape_)):
        return False
    k = int(np.arange(arr.size).reshape(arr.shape_)[tuple(idx)])
    e = arr.elems[k]
    if type(e) is not Sample or e.swapped or e.file is not file or \
            arr.mask_ is not None and arr.mask_[k] is not False:
        return False
    if (e.dt.kind, e.dt.itemsize) != (dt.kind, dt.itemsize) or \
            dt.itemsize > 1 and e.dt.str[0] != dt.str[0] or arr.dt.kind != dt.kind:
        return False
    # (left for the solver to refute)
    return core.SymBool(z3.simplify(e.off - offset, som=True) == 0)
