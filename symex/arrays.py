"""
Layout model of numpy arrays read from files: an array is a strided view of
file bytes with symbolic shape and strides.  Element values are opaque; what
is tracked is which file bytes each element is decoded from and how.
"""
from __future__ import annotations

import builtins

import numpy as np
import z3

from . import core, ops, poly, streams
from .core import Sym, SymInt, has_sym, isinstance_real, mkint, zint
from .streams import SymSpan, SymStream, simp, slice_bounds


def prove_eq(a, b):
    """a == b: identity if provable, else fork"""
    if type(a) is int:
        a = z3.IntVal(a)
    if type(b) is int:
        b = z3.IntVal(b)
    if poly.equal(a, b):
        return True
    return core.CUR.decide(a == b)


def surely(e):
    """is e valid on this path (no fork)"""
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return core.CUR._check(z3.Not(e)) == z3.unsat


def prod(xs):
    out = z3.IntVal(1)
    for x in xs:
        out = out * x
    return simp(out)


class Flags:
    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, k):
        k = {"C": "C_CONTIGUOUS", "CONTIGUOUS": "C_CONTIGUOUS",
             "F": "F_CONTIGUOUS", "FORTRAN": "F_CONTIGUOUS"}.get(k, k)
        if k == "C_CONTIGUOUS":
            return self.arr.is_contig()
        if k == "WRITEABLE":
            return True
        raise core.Limit(f"flag {k}")

    c_contiguous = property(lambda self: self["C_CONTIGUOUS"])
    contiguous = c_contiguous


class SymDtype(Sym):
    """structured dtype whose field offsets may be symbolic"""
    __slots__ = ("names_", "formats", "offsets", "itemsize_", "npfields")

    def __init__(self, names, formats, offsets, itemsize):
        self.names_, self.formats = list(names), list(formats)
        self.offsets, self.itemsize_ = list(offsets), itemsize

    @property
    def __class__(self):
        return np.dtype

    names = property(lambda self: tuple(self.names_))
    itemsize = property(lambda self: mkint(simp(zint(self.itemsize_))))
    shape = ()
    kind = "V"
    isnative = True

    @property
    def fields(self):
        return {n: (as_dtype(f), o) for n, f, o in
                zip(self.names_, self.formats, self.offsets)}

    def __len__(self):
        return len(self.names_)

    def len_(self):
        return len(self.names_)

    def __hash__(self):
        return 5

    def __eq__(self, o):
        return self is o

    def __getitem__(self, k):
        f = self.formats[k if isinstance_real(k, int) else self.names_.index(k)]
        return as_dtype(f)

    def newbyteorder(self, order="S"):
        return SymDtype(self.names_, [as_dtype(f).newbyteorder(order)
                                      for f in self.formats],
                        self.offsets, self.itemsize_)


class VoidDtype(Sym):
    """V or S dtype of symbolic width"""
    __slots__ = ("kind", "width")
    names = fields = None
    shape = ()
    isnative = True
    char = "V"

    def __init__(self, kind, width):
        self.kind, self.width = kind, simp(zint(width))

    @property
    def __class__(self):
        return np.dtype

    itemsize = property(lambda self: mkint(self.width))

    @property
    def str(self):
        return f"|{self.kind}?"

    def __str__(self):
        return f"|{self.kind}?"

    def __hash__(self):
        return 6

    def __eq__(self, o):
        return self is o

    def __len__(self):
        return 0

    def newbyteorder(self, order="S"):
        return self


class SubDtype(Sym):
    """several items of a structured dtype"""
    __slots__ = ("base", "shape")
    names = fields = None
    kind = "V"
    isnative = True

    def __init__(self, base, shape):
        self.base, self.shape = base, tuple(shape)

    @property
    def __class__(self):
        return np.dtype

    itemsize = property(lambda self: mkint(itemsize_of(self)))

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o

    def __len__(self):
        return 0

    def newbyteorder(self, order="S"):
        return SubDtype(self.base.newbyteorder(order), self.shape)


def sub_dtype(base, shape):
    """np.dtype((base, shape)) if some of it is symbolic"""
    if not isinstance_real(shape, (tuple, list)):
        shape = (shape,)
    base = as_dtype(base)
    if type(base) is SubDtype:
        return SubDtype(base.base, tuple(shape) + base.shape)
    if type(base) is VoidDtype:
        raise core.Limit("items of symbolic width")
    if type(base) is not SymDtype and not any(has_sym(n) for n in shape):
        return np.dtype((base, tuple(int(n) for n in shape)))
    for n in shape:
        if has_sym(n) and core.CUR.decide(zint(n) < 0):
            raise ValueError("negative dimensions")
    return SubDtype(base, shape)


def itemsize_of(dt):
    if type(dt) is SymDtype:
        return simp(zint(dt.itemsize_))
    if type(dt) is SubDtype:
        return simp(itemsize_of(dt.base) * prod([zint(n) for n in dt.shape]))
    if type(dt) is VoidDtype:
        return dt.width
    return z3.IntVal(dt.itemsize)


class SymArr(Sym):
    """strided view of file bytes"""
    __slots__ = ("file", "off", "shape_", "strides", "dt", "xf", "contig", "cache",
                 "sub", "meta_data")

    def __init__(self, file, off, shape, strides, dt, xf=(), contig=False, sub=None,
                 meta_data=None):
        self.file, self.off = file, simp(off)
        self.shape_ = tuple(simp(s) for s in shape)
        self.strides = tuple(simp(s) for s in strides)
        self.dt, self.xf, self.contig = dt, tuple(xf), contig
        self.cache = None
        # a subclass of ndarray that carries metadata
        self.sub, self.meta_data = sub, meta_data

    # identity
    @property
    def __class__(self):
        return self.sub or np.ndarray

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError("truth value of an array")

    def __eq__(self, o):
        return self is o

    def __getattr__(self, name):
        # methods that arrays of values have
        from . import dense
        if name.startswith("_") or name in ("mask", "fill_value") \
                or not hasattr(dense.DenseArr, name):
            raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")
        return getattr(self.dense(), name)

    def like(self, **kw):
        d = dict(file=self.file, off=self.off, shape=self.shape_,
                 strides=self.strides, dt=self.dt, xf=self.xf,
                 contig=self.contig, sub=self.sub, meta_data=self.meta_data)
        d.update(kw)
        return SymArr(**d)

    # attributes
    shape = property(lambda self: tuple(mkint(s) for s in self.shape_))
    ndim = property(lambda self: len(self.shape_))
    size = property(lambda self: mkint(prod(self.shape_)))
    dtype = property(lambda self: self.dt)
    flags = property(lambda self: Flags(self))
    T = property(lambda self: self.transpose())
    data = property(lambda self: self)
    base = None

    @property
    def itemsize(self):
        return mkint(itemsize_of(self.dt))

    @property
    def nbytes(self):
        return self.size * self.itemsize

    def len_(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return mkint(self.shape_[0])

    def __len__(self):
        return int(self.len_())

    def is_contig(self):
        if self.contig:
            return True
        exp = itemsize_of(self.dt)
        conds = []
        for n, s in reversed(list(zip(self.shape_, self.strides))):
            if not poly.equal(s, exp):
                conds.append(z3.Or(n == 1, s == exp))
            exp = simp(n * exp)
        if not conds:
            return True
        # arrays with an empty axis are contiguous too; sizes here are >= 1
        return core.CUR.decide(z3.And(*conds))

    def offset_of(self, *idx):
        off = self.off
        for i, s in zip(idx, self.strides):
            off = off + zint(i) * s
        return simp(off)

    # shaping
    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1 and isinstance_real(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order == "F":
            return self.transpose().reshape(tuple(reversed(shape))).transpose()
        if order != "C":
            raise core.Limit("reshape order")
        shape = [s if isinstance_real(s, Sym) else int(s) for s in shape]
        total = prod(self.shape_)
        unknown = [i for i, s in enumerate(shape)
                   if (s == -1 if not isinstance_real(s, Sym) else False)]
        new = [zint(s) for s in shape]
        for s in new:
            if not z3.is_int_value(s) and core.CUR.decide(s < 0):
                raise ValueError("negative dimensions are not allowed")
        if len(unknown) > 1:
            raise ValueError("can only specify one unknown dimension")
        if unknown:
            rest = prod([s for i, s in enumerate(new) if i not in unknown])
            q = mkint(total) // mkint(rest)
            if not prove_eq(zint(q) * rest, total):
                raise ValueError("cannot reshape array")
            new[unknown[0]] = zint(q)
        elif not prove_eq(prod(new), total):
            raise ValueError("cannot reshape array")
        return self._reshape(new)

    def _merged(self):
        """maximal merged axes [(dim, stride)]"""
        out = []
        for n, s in zip(self.shape_, self.strides):
            if z3.is_int_value(n) and n.as_long() == 1:
                continue
            if out:
                pn, ps = out[-1]
                if poly.equal(ps, s * n) or surely(ps == s * n):
                    out[-1] = (simp(pn * n), s)
                    continue
            out.append((n, s))
        return out

    def _reshape(self, new):
        old = self._merged()
        isz = itemsize_of(self.dt)
        strides, oi, rest = [], 0, None
        todo = list(new)
        out = []
        while todo:
            n = todo.pop(0)
            if z3.is_int_value(n) and n.as_long() == 1:
                out.append(isz)
                continue
            if oi >= len(old):
                # remaining dims must all be 1
                if surely(n == 1):
                    out.append(isz)
                    continue
                raise core.Limit("reshape: axis split")
            d, s = old[oi]
            # consume new dims until their product equals d
            group = [n]
            while not (poly.equal(prod(group), d) or surely(prod(group) == d)):
                if not todo:
                    raise core.Limit("reshape: axis split")
                group.append(todo.pop(0))
            acc = s
            sub = []
            for g in reversed(group):
                sub.append(acc)
                acc = simp(acc * g)
            out.extend(reversed(sub))
            oi += 1
        if oi < len(old):
            for d, _ in old[oi:]:
                if not surely(d == 1):
                    raise core.Limit("reshape: axis merge")
        return self.like(shape=new, strides=out, contig=False)

    def ravel(self, order="C"):
        return self.reshape(-1)

    flatten = ravel

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance_real(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [int(a) % self.ndim for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        return self.like(shape=[self.shape_[a] for a in axes],
                         strides=[self.strides[a] for a in axes], contig=False)

    def swapaxes(self, a, b):
        order = list(range(self.ndim))
        order[a], order[b] = order[b], order[a]
        return self.transpose(*order)

    def squeeze(self, axis=None):
        keep = []
        ax = None if axis is None else [
            a % self.ndim for a in (axis if isinstance_real(axis, tuple) else (axis,))]
        for i, n in enumerate(self.shape_):
            if ax is not None:
                if i in ax:
                    if not prove_eq(n, 1):
                        raise ValueError("cannot squeeze")
                    continue
            elif prove_eq(n, 1):
                continue
            keep.append(i)
        return self.like(shape=[self.shape_[i] for i in keep],
                         strides=[self.strides[i] for i in keep])

    def copy(self, order="C"):
        return self.like(contig=True)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self

    def byteswap(self, inplace=False):
        return self.like(xf=_push(self.xf, ("swap",)), contig=True)

    def newbyteorder(self, order="S"):
        return self.view(self.dt.newbyteorder(order))

    def view(self, dtype=None, type=None):
        cls = type
        if isinstance_real(dtype, builtins.type) and issubclass(dtype, np.ndarray):
            dtype, cls = None, dtype
        if cls is not None:
            if self.has_values():
                return self.dense().view(dtype, cls)
            if issubclass(cls, np.ma.MaskedArray):
                raise core.Limit("masked array of opaque data")
            arr = self.like(sub=None if cls is np.ndarray else cls)
            return arr if dtype is None else arr.view(dtype)
        if dtype is None:
            return self
        dt = dtype if isinstance_real(dtype, SymDtype) else np.dtype(dtype)
        if not poly.equal(itemsize_of(dt), itemsize_of(self.dt)):
            raise core.Limit("view with another item size")
        if any(x[0] != "swap" for x in self.xf):
            raise core.Limit("view of converted data")
        return self.like(dt=dt)

    def astype(self, dtype, *a, **k):
        if dtype is self.dt:
            return self.copy()
        dt = as_dtype(dtype)
        if type(dt) in (VoidDtype, SymDtype):
            raise core.Limit("cast to a structured type")
        if self.has_values() and type(self.dt) not in (VoidDtype, SymDtype):
            return self.dense().astype(dt)
        if type(self.dt) in (VoidDtype, SymDtype):
            return self.like(xf=_push(self.xf, ("astype", str(self.dt), str(dt))),
                             dt=dt, contig=True)
        if dt == self.dt:
            return self.copy()
        if preserving(self.dt, dt):
            # every value is kept: decoding is still that of the source
            if self.xf and self.xf[-1][0] == "cast":
                return self.like(dt=dt, contig=True)
            if all(x[0] == "swap" for x in self.xf):
                src = self.dt if len(self.xf) % 2 == 0 else self.dt.newbyteorder("S")
                return self.like(xf=(("cast", str(src)),), dt=dt, contig=True)
        return self.like(xf=_push(self.xf, ("astype", str(self.dt), str(dt))),
                         dt=dt, contig=True)

    def __getitem__(self, k):
        if self.cache is not None:
            return self.cache[k]
        if isinstance_real(k, str):
            if type(self.dt) is SymDtype:
                o, sub = self.dt.offsets[self.dt.names_.index(k)], self.dt[k]
                if not sub.shape:
                    return self.like(off=self.off + zint(o), dt=sub, contig=False)
                return self.items(sub, zint(o))
            f = self.dt.fields[k]
            sub = f[0]
            if sub.shape:
                return self.items(sub, f[1])
            return self.like(off=self.off + f[1], dt=sub, contig=False)
        if not isinstance_real(k, tuple):
            k = (k,)
        n_real = sum(1 for x in k if x is not None and x is not Ellipsis)
        if any(x is Ellipsis for x in k):
            i = [j for j, x in enumerate(k) if x is Ellipsis][0]
            fill = self.ndim - n_real
            k = k[:i] + (slice(None),) * fill + k[i + 1:]
        if sum(1 for x in k if x is not None) > self.ndim:
            raise IndexError("too many indices for array")
        k = k + (slice(None),) * (self.ndim - sum(1 for x in k if x is not None))
        off, shape, strides, ax = self.off, [], [], 0
        for x in k:
            if x is None:
                shape.append(z3.IntVal(1))
                strides.append(z3.IntVal(0))
                continue
            n, s = self.shape_[ax], self.strides[ax]
            ax += 1
            if isinstance_real(x, slice):
                step = 1 if x.step is None else int(x.step)
                if step == 1:
                    a, b = slice_bounds(x.start, x.stop, n)
                    off = simp(off + a * s)
                    shape.append(simp(b - a))
                    strides.append(s)
                elif step == -1 and x.start is None and x.stop is None:
                    off = simp(off + (n - 1) * s)
                    shape.append(n)
                    strides.append(simp(-s))
                elif step > 1:
                    a, b = slice_bounds(x.start, x.stop, n)
                    off = simp(off + a * s)
                    shape.append(simp((b - a + step - 1) / z3.IntVal(step)))
                    strides.append(simp(s * step))
                else:
                    raise core.Limit("slice step")
            elif isinstance_real(x, int) or hasattr(x, "__index__"):
                i = zint(x)
                if core.CUR.decide(i < 0):
                    i = simp(i + n)
                if not core.CUR.decide(z3.And(i >= 0, i < n)):
                    raise IndexError("index out of bounds")
                off = simp(off + i * s)
            else:
                return self.dense()[k if len(k) > 1 else k[0]]
        return self.like(off=off, shape=shape, strides=strides, contig=False)

    def items(self, sub, off):
        """a field that is an array"""
        shp = [zint(n) for n in sub.shape]
        st, acc = [], itemsize_of(sub.base)
        for n in reversed(shp):
            st.append(acc)
            acc = simp(acc * n)
        return self.like(off=self.off + off, dt=sub.base,
                         shape=self.shape_ + tuple(shp),
                         strides=self.strides + tuple(reversed(st)), contig=False)

    def __iter__(self):
        n = int(mkint(self.shape_[0]))
        return iter([self[i] for i in range(n)])

    # values
    def has_values(self):
        from . import dense
        return type(self.file) is dense.ValFile and self.dt.kind in "iufb" and \
            all(x[0] == "swap" for x in self.xf)

    def dense(self):
        """the values of an array that lies in a file of symbolic values"""
        import itertools
        from . import dense
        if self.cache is not None:
            return self.cache
        f = self.file
        if type(f) is not dense.ValFile:
            raise core.Limit("values of opaque data")
        if type(self.dt) in (SymDtype, VoidDtype):
            raise core.Limit("values of records")
        kind, isz, order, rest = decode_kind(self)
        src = np.dtype(f"{order}{kind}{isz}") if kind in "iufb" and isz > 1 else \
            np.dtype(f"{kind}{isz}")
        if rest:
            raise core.Limit("values of converted data")
        shape = [int(mkint(n)) for n in self.shape_]
        out = []
        for idx in itertools.product(*[range(n) for n in shape]):
            out.append(f.value(int(mkint(self.offset_of(*idx))), src))
        self.cache = dense.DenseArr(out, shape, self.dt)
        return self.cache

    def tolist(self):
        return self.dense().tolist()

    def contains_(self, v):
        return self.dense().contains_(v)

    def _cmp(self, op, o):
        return self.dense()._cmp(op, o)

    def _bin(self, op, o, swap=False):
        return self.dense()._bin(op, o, swap)

    def _operands(self, o, swap):
        return self.dense()._operands(o, swap)


def _densify():
    names = ["min", "max", "any", "all", "sum", "item", "filled"]
    for n in names:
        def f(self, *a, _n=n, **k):
            return getattr(self.dense(), _n)(*a, **k)
        setattr(SymArr, n, f)
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and",
              "or", "xor", "lshift", "rshift"):
        for p in ("", "r"):
            def f(self, o, _n=f"__{p}{n}__"):
                return getattr(self.dense(), _n)(o)
            setattr(SymArr, f"__{p}{n}__", f)
    for n in ("neg", "invert", "abs"):
        def f(self, _n=f"__{n}__"):
            return getattr(self.dense(), _n)()
        setattr(SymArr, f"__{n}__", f)
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        def f(self, o, _n=f"__{n}__"):
            if _n == "__eq__" and (o is self or o is None):
                return o is self
            return getattr(self.dense(), _n)(o)
        setattr(SymArr, f"__{n}__", f)


SymArr.__array_ufunc__ = None
_densify()


def _setitem(self, k, v):
    self.dense()[k] = v


SymArr.__setitem__ = _setitem


def preserving(src, dst):
    if src.kind == dst.kind == "c":
        return src.itemsize <= dst.itemsize
    if src.kind in "iu" and dst.kind == "f":
        return src.itemsize < dst.itemsize or src.itemsize * 8 < {4: 24, 8: 53}[dst.itemsize]
    return src.kind in "iuf" and dst.kind in "iuf" and np.can_cast(src, dst, "safe") \
        and not (src.kind in "iu" and dst.kind == "f")


def _push(xf, x):
    if x == ("swap",) and xf and xf[-1] == ("swap",):
        return xf[:-1]
    return xf + (x,)


def decode_kind(arr):
    """(kind, itemsize, byteorder, other transforms) of the elements"""
    dt, xf = arr.dt, arr.xf
    if xf and xf[-1][0] == "cast":
        # value-preserving cast: decoding is that of the source dtype
        src = np.dtype(xf[-1][1])
        return src.kind, src.itemsize, src.str[0], ()
    order = dt.str[0]
    rest = []
    for x in xf:
        if x == ("swap",):
            order = {"<": ">", ">": "<"}.get(order, order)
        else:
            rest.append(x)
    return dt.kind, dt.itemsize, order, tuple(rest)


# ------------------------------------------------------------ numpy handlers
def as_dtype(dt):
    if type(dt) in (SymDtype, VoidDtype, SubDtype):
        return dt
    if isinstance_real(dt, tuple) and len(dt) == 2:
        return sub_dtype(*dt)
    if type(dt) is ops.LazyStr:
        p = [x for x in dt.parts if type(x) is tuple or x != ""]
        flat = [x[0] if type(x) is tuple else x for x in p]
        if len(flat) > 1 and not any(has_sym(x) for x in flat[:-1]):
            head = "".join(map(str, flat[:-1]))
            if head in ("V", "S", "|V", "|S") and type(flat[-1]) in (
                SymInt, core.SymReal
            ):
                w = ops.call(int, flat[-1])
                if core.CUR.decide(zint(w) < 0):
                    raise TypeError("data type not understood")
                return VoidDtype(head[-1], w)
        return np.dtype(ops.deep_concrete(dt))
    return np.dtype(dt)


def mkflat(span, dt, n):
    isz = itemsize_of(dt)
    return SymArr(span.file, span.start, (n,), (isz,), dt)


@ops.handler(np.fromfile)
def np_fromfile(file, dtype=float, count=-1, sep="", offset=0, like=None):
    dt = as_dtype(dtype)
    if type(file) is not SymStream:
        f = streams.lookup(file)
        if f is None:
            return np.fromfile(file, ops.deep_concrete(dtype),
                               ops.deep_concrete(count), sep, offset)
        file = SymStream(SymSpan(f, 0, f.size))
    if file.kind != "raw":
        # numpy asks for the descriptor of the underlying file
        file.fileno()
        raise core.Limit("np.fromfile on a decompressing stream")
    if zint(offset) is not None:
        file.seek(offset, 1)
    isz = itemsize_of(dt)
    avail = file._avail()
    count = zint(count)
    if z3.is_int_value(isz):
        navail = simp(avail / isz)
    else:
        navail = zint(mkint(avail) // mkint(isz))
    if core.CUR.decide(count < 0):
        n = navail
    elif core.CUR.decide(simp(count * isz) <= avail):
        n = count
    else:
        n = navail
    arr = mkflat(SymSpan(file.span.file, file.span.start + file.pos, n * isz), dt, n)
    file.pos = simp(file.pos + n * isz)
    return arr


ops.ALWAYS[np.fromfile] = np_fromfile


@ops.handler(np.frombuffer)
def np_frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    if type(buffer) is ops.SymBytes:
        from . import dense
        f = dense.ValFile("bytes", [
            bytes([c]) if type(c) is int else ("u1", core.SymInt(c)) for c in buffer.cs])
        buffer = SymSpan(f, 0, f.size)
    if type(buffer) is SymArr and not buffer.xf and buffer.cache is None and \
            poly.equal(itemsize_of(buffer.dt), 1) and buffer.ndim == 1 and \
            buffer.is_contig():
        buffer = SymSpan(buffer.file, buffer.off, buffer.shape_[0])
    if type(buffer) is not SymSpan:
        b = ops.deep_concrete(buffer)
        return np.frombuffer(b, ops.deep_concrete(dtype),
                             ops.deep_concrete(count), ops.deep_concrete(offset))
    dt = as_dtype(dtype)
    isz, offset, count = itemsize_of(dt), zint(offset), zint(count)
    avail = simp(buffer.length - offset)
    if core.CUR.decide(count < 0):
        q = mkint(avail) // mkint(isz)
        if not prove_eq(zint(q) * isz, avail):
            raise ValueError("buffer size must be a multiple of element size")
        n = zint(q)
    else:
        if not core.CUR.decide(simp(count * isz) <= avail):
            raise ValueError("buffer is smaller than requested size")
        n = count
    return mkflat(SymSpan(buffer.file, buffer.start + offset, n * isz), dt, n)


def _method(name):
    def h(arr, *a, **k):
        return getattr(arr, name)(*a, **k)
    return h


for _n in ("reshape", "ravel", "transpose", "swapaxes", "squeeze"):
    ops.CALLS[getattr(np, _n)] = _method(_n)


@ops.handler(np.moveaxis)
def np_moveaxis(a, source, destination):
    n = a.ndim
    src = [int(s) % n for s in (source if isinstance_real(source, (tuple, list)) else [source])]
    dst = [int(s) % n for s in (destination if isinstance_real(destination, (tuple, list)) else [destination])]
    order = [i for i in range(n) if i not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(*order)


@ops.handler(np.rollaxis)
def np_rollaxis(a, axis, start=0):
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    order = list(range(n))
    if axis < start:
        start -= 1
    order.remove(axis)
    order.insert(start, axis)
    return a.transpose(*order)


@ops.handler(np.ascontiguousarray, np.copy, np.asarray, np.array,
             np.require)
def np_contig(a, dtype=None, *args, **k):
    if type(a) is SymArr:
        if isinstance_real(dtype, list):
            return structured_cast(a, dtype)
        if dtype is not None:
            a = a.astype(dtype)
        return a.like(contig=True, sub=None, meta_data=None)
    return np.array(ops.deep_concrete(a), dtype)


@ops.handler(np.asanyarray)
def np_asany(a, dtype=None, *args, **k):
    if type(a) is SymArr and dtype is None:
        return a
    return np_contig(a, dtype, *args, **k)


class Uninit:
    name, content = "uninitialised memory", None


@ops.handler(np.empty)
def np_empty(shape, dtype=float, *a, **k):
    if not isinstance_real(shape, (tuple, list)):
        shape = (shape,)
    dt = as_dtype(dtype)
    shape = [zint(s) for s in shape]
    strides, acc = [], itemsize_of(dt)
    for n in reversed(shape):
        strides.insert(0, acc)
        acc = simp(acc * n)
    return SymArr(Uninit(), z3.IntVal(0), shape, strides, dt)


def structured_cast(a, spec):
    names = [s[0] for s in spec]
    if names != list(a.dt.names):
        raise core.Limit("structured cast with renaming")
    return StructCast(a, spec)


class StructCast(Sym):
    """structured array converted field by field"""
    __slots__ = ("arr", "spec")

    def __init__(self, arr, spec):
        self.arr, self.spec = arr, spec

    @property
    def __class__(self):
        return np.ndarray


@ops.handler(np.expand_dims)
def np_expand_dims(a, axis):
    k = [slice(None)] * a.ndim
    k.insert(axis % (a.ndim + 1), None)
    return a[tuple(k)]


@ops.handler(np.shape)
def np_shape(a):
    return a.shape


@ops.handler(np.size)
def np_size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@ops.handler(np.ndim)
def np_ndim(a):
    return a.ndim


@ops.handler(np.prod)
def np_prod(a, *args, **k):
    if isinstance_real(a, (list, tuple)):
        out = 1
        for x in a:
            out = out * x
        return out
    raise core.Limit("np.prod")


import math as _math

ops.CALLS[_math.prod] = np_prod


@ops.handler(np.isnan, np.isfinite, np.isinf)
def np_isnan_dummy(x):
    raise core.Limit()


def _scalar(f, finite):
    def h(x):
        if type(x) in (core.SymInt, core.SymReal, core.SymBool):
            return finite
        raise core.Limit(f.__name__)
    return h


ops.CALLS[np.isnan] = _scalar(np.isnan, False)
ops.CALLS[np.isinf] = _scalar(np.isinf, False)
ops.CALLS[np.isfinite] = _scalar(np.isfinite, True)


_np_dtype = np.dtype


@ops.handler(np.dtype)
def np_dtype(spec, *a, **k):
    if type(spec) is SymDtype:
        return spec
    if isinstance_real(spec, dict):
        names, formats = spec["names"], spec["formats"]
        formats = [as_dtype(f if isinstance_real(f, (Sym, tuple)) else
                            ops.deep_concrete(f)) for f in formats]
        offsets = spec.get("offsets")
        end = z3.IntVal(0)
        if offsets is None:
            offsets, pos = [], 0
            for f in formats:
                offsets.append(pos)
                pos = pos + f.itemsize
        for f, o in zip(formats, offsets):
            o = zint(o)
            if core.CUR.decide(o < 0):
                raise ValueError("offset cannot be negative")
            e = simp(o + itemsize_of(f))
            end = end if core.CUR.decide(e <= end) else e
        if len(set(map(str, names))) != len(names):
            raise ValueError("field occurs more than once")
        if spec.get("itemsize") is not None:
            isz = zint(spec["itemsize"])
            if core.CUR.decide(isz < end):
                raise ValueError("itemsize too small")
            end = isz
        return SymDtype(names, formats, offsets, mkint(end))
    if type(spec) in (ops.LazyStr, VoidDtype, SubDtype) or \
            isinstance_real(spec, tuple) and len(spec) == 2:
        return as_dtype(spec)
    return np.dtype(ops.deep_concrete(spec), *a, **k)


def _vax():
    import vax

    def h(a, *args, **k):
        if type(a) is SymArr:
            return a.like(xf=_push(a.xf, ("vax32",)), dt=np.dtype("float32"),
                          contig=True)
        return vax.from_vax32(a, *args, **k)
    ops.ALWAYS[vax.from_vax32] = h


_vax()
