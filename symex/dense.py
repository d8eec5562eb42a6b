"""
Small arrays of symbolic scalars: numpy arrays (and masked arrays) of concrete
shape whose elements are solver terms.  Integers wrap as the array's type
does; floating-point numbers are exact reals (rounding is modelled only where
double values are narrowed to single precision).
"""
from __future__ import annotations

import builtins
import itertools
import math
import struct
from fractions import Fraction

import numpy as np
import z3

from . import core, ops
from .core import Sym, SymBool, SymInt, SymReal, isinstance_real, mkbool, mkint, zint, zreal


class ValFile:
    """a file of literal bytes and of symbolic values: cells
    [(dtype, value) or bytes]"""

    def __init__(self, name, cells):
        self.name, self.content = name, None
        self.cells, pos = {}, 0
        self.raw = bytearray()
        for c in cells:
            if isinstance_real(c, bytes):
                self.raw += c
                pos += len(c)
                continue
            dt = np.dtype(c[0])
            self.cells[pos] = (dt, c[1])
            if core.is_sym(c[1]):
                self.raw += b"\0" * dt.itemsize
            else:
                self.raw += np.array([c[1]]).astype(dt).tobytes()
            pos += dt.itemsize
        self.size = z3.IntVal(pos)

    def value(self, off, dt):
        dt = np.dtype(dt)
        c = self.cells.get(off)
        if c is not None and (c[0].kind, c[0].itemsize) == (dt.kind, dt.itemsize) \
                and (dt.itemsize == 1 or c[0].str[0] == dt.str[0]):
            return c[1]
        for o in range(max(0, off - 15), off + dt.itemsize):
            c = self.cells.get(o)
            if c is not None and o + c[0].itemsize > off and core.is_sym(c[1]):
                if c[0].kind in "iu" and dt.kind in "iu":
                    return self.bytes_value(off, dt)
                raise core.Limit("symbolic value read with another type")
        if off < 0 or off + dt.itemsize > len(self.raw):
            raise core.Limit("read outside the file")
        return np.frombuffer(bytes(self.raw[off:off + dt.itemsize]), dt)[0].item()

    def byte(self, off):
        for o in range(max(0, off - 15), off + 1):
            c = self.cells.get(o)
            if c is not None and o + c[0].itemsize > off:
                dt, v = c
                if not core.is_sym(v):
                    break
                if dt.kind not in "iu":
                    raise core.Limit("byte of a symbolic real")
                k = off - o
                if dt.str[0] == ">":
                    k = dt.itemsize - 1 - k
                return (v // (1 << (8 * k))) % 256
        return self.raw[off]

    def bytes_value(self, off, dt):
        bs = [self.byte(off + k) for k in range(dt.itemsize)]
        if dt.str[0] != ">":
            bs = bs[::-1]
        v = 0
        for b in bs:
            v = v * 256 + b
        if dt.kind == "i":
            v = wrap(v, dt)
        return v


def wrap(v, dt):
    info = np.iinfo(dt)
    lo, hi = int(info.min), int(info.max)
    if not core.is_sym(v):
        v = int(v)
        return (v - lo) % (hi - lo + 1) + lo
    e = zint(v)
    if core.CUR.decide(z3.And(e >= lo, e <= hi)):
        return v
    return mkint(z3.simplify((e - lo) % (hi - lo + 1) + lo))


def finite(v):
    return not isinstance_real(v, float) or math.isfinite(v)


def tofloat(v):
    """value as a float-like scalar"""
    if type(v) is SymReal:
        return v
    if type(v) in (SymInt, SymBool):
        return SymReal(zreal(v))
    return float(v)


def to_f32(v):
    if type(v) is not SymReal:
        with np.errstate(all="ignore"):
            return float(np.float32(v))
    e = v.e
    if e.decl().kind() == z3.Z3_OP_TO_REAL and core.CUR.decide(
        z3.And(e.arg(0) >= -2 ** 24, e.arg(0) <= 2 ** 24)
    ):
        return v
    core.CUR.fresh += 1
    r = z3.Real(f"f32!{core.CUR.fresh}")
    big = z3.RealVal(int(np.finfo(np.float32).max))
    a = z3.If(e >= 0, e, -e)
    if core.CUR.decide(a > big):
        raise core.Limit("float32 overflow")
    d = z3.If(r >= e, r - e, e - r)
    tiny = Fraction(float(np.finfo(np.float32).tiny))
    step = Fraction(1, 2 ** 149)
    if core.CUR.decide(a >= z3.RealVal(f"{tiny.numerator}/{tiny.denominator}")):
        core.CUR.add(d * 2 ** 24 <= a)
    else:
        # subnormal numbers are multiples of 2**-149
        core.CUR.fresh += 1
        k = z3.Int(f"f32k!{core.CUR.fresh}")
        core.CUR.add(r == z3.ToReal(k) * z3.RealVal(f"1/{2 ** 149}"))
        core.CUR.add(d * 2 ** 150 <= 1)
    return SymReal(r)


def cast(v, src, dst):
    if dst.kind == "O":
        return v
    if dst.kind == "b":
        if type(v) is SymBool or isinstance_real(v, bool):
            return v
        if isinstance_real(v, float) and v != v:
            return True
        r = v != 0
        return r
    if dst.kind in "iu":
        if type(v) is SymBool:
            return v._int()
        if type(v) is SymReal:
            v = v.trunc()
        elif isinstance_real(v, float):
            if not math.isfinite(v):
                raise core.Limit("cast of a non-finite value to an integer")
            v = int(v)
        return wrap(v, dst)
    if dst.kind == "f":
        f = tofloat(v)
        if dst.itemsize == 4 and not (src.kind == "f" and src.itemsize <= 4):
            if src.kind in "iub" and src.itemsize * 8 <= 24:
                return f
            return to_f32(f)
        return f
    if dst.kind == "U":
        raise core.Limit("cast to text")
    raise core.Limit(f"cast to {dst}")


def is_scalar(x):
    return isinstance_real(x, (bool, int, float, np.generic)) or type(x) in (
        SymInt, SymReal, SymBool)


def scalar_weak(x):
    """stand-in with which numpy decides the type of the result"""
    if type(x) is SymInt:
        return 0
    if type(x) is SymReal:
        return 0.0
    if type(x) is SymBool:
        return False
    return x


def of(x):
    """DenseArr of an array model, a numpy array or None"""
    from . import arrays
    if type(x) is DenseArr:
        return x
    if type(x) is arrays.SymArr:
        return x.dense()
    if isinstance_real(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        return DenseArr([v.item() if hasattr(v, "item") else v for v in np.ma.getdata(x).ravel()],
                        x.shape, x.dtype, [bool(b) for b in m.ravel()])
    if isinstance_real(x, np.ndarray):
        return DenseArr([v.item() if hasattr(v, "item") else v for v in x.ravel()],
                        x.shape, x.dtype)
    if isinstance_real(x, (list, tuple)):
        return of_list(x)
    if isinstance_real(x, Sym) and type(x).__name__ in ("Picture", "OpenPicture"):
        return x.arr
    if isinstance_real(x, np.generic):
        return DenseArr([x.item()], (), x.dtype)
    return None


def of_list(x):
    shape, flat = [], list(x)
    shape.append(len(flat))
    if any(type(f) is DenseArr for f in flat):
        flat = [of(f) if of(f) is not None else f for f in flat]
        flat = [f if type(f) is DenseArr else DenseArr([f], (), np.asarray(scalar_weak(f)).dtype)
                for f in flat]
    while flat and (isinstance_real(flat[0], (list, tuple)) or type(flat[0]) is DenseArr
                    or isinstance_real(flat[0], np.ndarray)):
        if type(flat[0]) is DenseArr or isinstance_real(flat[0], np.ndarray):
            flat = [of(f) for f in flat]
            if any(f.shape != flat[0].shape for f in flat):
                raise ValueError("inhomogeneous shape")
            dt = np.result_type(*[f.dtype for f in flat])
            sh = tuple(shape) + flat[0].shape
            flat = [f.astype(dt) for f in flat]
            mask = None
            return DenseArr([e for f in flat for e in f.elems], sh, dt, mask)
        n = len(flat[0])
        if any(len(f) != n for f in flat):
            raise ValueError("inhomogeneous shape")
        shape.append(n)
        flat = [i for f in flat for i in f]
    if not flat:
        return DenseArr([], tuple(shape), np.dtype(float))
    if any(isinstance_real(v, str) for v in flat):
        dt = np.dtype("U1")
    else:
        dt = np.result_type(*[np.asarray(scalar_weak(v)).dtype for v in flat])
    return DenseArr([cast_list(v, dt) for v in flat], tuple(shape), dt)


def cast_list(v, dt):
    if dt.kind == "f":
        return tofloat(v)
    return v.item() if isinstance_real(v, np.generic) else v


def arith(op, a, b, dt):
    """one element"""
    if dt.kind in "iu":
        a = a._int() if type(a) is SymBool else a
        b = b._int() if type(b) is SymBool else b
        if op == "pow":
            return wrap(a ** b, dt)
        if op in ("floordiv", "mod"):
            if core.is_sym(b):
                if core.CUR.decide(zint(b) == 0):
                    return 0
            elif b == 0:
                return 0
        r = PY[op](a, b)
        return wrap(r, dt) if op not in ("and", "or", "xor", "rshift", "mod") else r
    if dt.kind == "b":
        if op in ("and", "mul"):
            return core.SymBool(z3.And(core.zbool(a), core.zbool(b))) if \
                core.is_sym(a) or core.is_sym(b) else a and b
        if op in ("or", "add"):
            return core.SymBool(z3.Or(core.zbool(a), core.zbool(b))) if \
                core.is_sym(a) or core.is_sym(b) else a or b
        if op == "xor":
            return core.SymBool(z3.Xor(core.zbool(a), core.zbool(b))) if \
                core.is_sym(a) or core.is_sym(b) else a != b
        raise core.Limit("arithmetic of booleans")
    # floats
    a, b = tofloat(a), tofloat(b)
    if not core.is_sym(a) and not core.is_sym(b):
        with np.errstate(all="ignore"):
            return float(NP[op](np.float64(a), np.float64(b)))
    if not finite(a) or not finite(b):
        if (not core.is_sym(a) and a != a) or (not core.is_sym(b) and b != b):
            return float("nan")
        inf, other, left = (a, b, True) if not finite(a) else (b, a, False)
        if op == "add" or (op == "sub" and left):
            return inf
        if op == "sub":
            return -inf
        if op in ("mul", "div"):
            if op == "div" and not left:
                return 0.0
            if core.CUR.decide(other.e == 0):
                return float("nan") if op == "mul" else inf
            return inf if core.CUR.decide(other.e > 0) else -inf
        raise core.Limit("arithmetic with infinity")
    if op == "div":
        e = zreal(b)
        if core.CUR.decide(e == 0):
            if core.CUR.decide(zreal(a) == 0):
                return float("nan")
            return float("inf") if core.CUR.decide(zreal(a) > 0) else float("-inf")
        return SymReal(z3.simplify(zreal(a) / e))
    if op == "pow":
        if core.is_sym(b):
            b = core.CUR.pick(b.e, core.py_real, cap=300)
        if Fraction(b).denominator != 1:
            raise core.Limit("fractional power")
        b = int(b)
        if core.is_sym(a):
            return a ** b
        f = Fraction(a) ** b
        return SymReal(z3.RealVal(f"{f.numerator}/{f.denominator}"))
    if op in ("add", "sub", "mul"):
        r = PY[op](a, b)
        return SymReal(z3.simplify(r.e)) if type(r) is SymReal else r
    raise core.Limit(f"real {op}")


PY = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b, "floordiv": lambda a, b: a // b,
    "mod": lambda a, b: a % b, "and": lambda a, b: a & b,
    "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "lshift": lambda a, b: a << b, "rshift": lambda a, b: a >> b,
}
NP = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
      "pow": np.power, "floordiv": np.floor_divide, "mod": np.mod}
UF = {"add": np.add, "sub": np.subtract, "mul": np.multiply,
      "div": np.true_divide, "pow": np.power, "floordiv": np.floor_divide,
      "mod": np.remainder, "and": np.bitwise_and, "or": np.bitwise_or,
      "xor": np.bitwise_xor, "lshift": np.left_shift, "rshift": np.right_shift}


def compare(op, a, b):
    if not core.is_sym(a) and not core.is_sym(b):
        return bool(CMP[op](a, b))
    for x, flip in ((a, False), (b, True)):
        if not core.is_sym(x) and not finite(x):
            if x != x:
                return op == "ne"
            lt = (x > 0) == flip      # a < b
            return {"lt": lt, "le": lt, "gt": not lt, "ge": not lt,
                    "eq": False, "ne": True}[op]
    if isinstance_real(a, str) or isinstance_real(b, str):
        return op == "ne"
    return CMP[op](a, b)


CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
       "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def or_(xs):
    terms = []
    for x in xs:
        if x is True:
            return True
        if type(x) is SymBool:
            terms.append(x.e)
        elif bool(x):
            return True
    return mkbool(z3.simplify(z3.Or(*terms))) if terms else False


def and_(xs):
    return not_(or_([not_(x) for x in xs]))


def not_(x):
    return ~x if type(x) is SymBool else not bool(x)


class Data(Sym):
    pass


class DenseArr(Sym):
    __slots__ = ("elems", "shape_", "dt", "mask_", "sub", "meta_data", "fill_")
    __array_ufunc__ = None
    __array_priority__ = 100

    def __init__(self, elems, shape, dt, mask=None, sub=None, meta_data=None):
        # lists of elements are shared between views
        self.elems = elems if type(elems) is list else list(elems)
        self.shape_ = tuple(int(s) for s in shape)
        self.dt = np.dtype(dt)
        self.mask_ = mask
        # a subclass of ndarray that carries metadata
        self.sub, self.meta_data, self.fill_ = sub, meta_data, None
        assert len(self.elems) == math.prod(self.shape_)

    @property
    def __class__(self):
        return self.sub or (np.ndarray if self.mask_ is None else np.ma.MaskedArray)

    shape = property(lambda self: self.shape_)
    ndim = property(lambda self: len(self.shape_))
    size = property(lambda self: len(self.elems))
    dtype = property(lambda self: self.dt)
    itemsize = property(lambda self: self.dt.itemsize)
    nbytes = property(lambda self: self.size * self.itemsize)
    T = property(lambda self: self.transpose())
    base = None

    @property
    def flags(self):
        return np.empty(0).flags

    @property
    def data(self):
        return DenseArr(self.elems, self.shape_, self.dt)

    @property
    def mask(self):
        if self.mask_ is None:
            raise AttributeError("mask")
        return DenseArr(self.mask_, self.shape_, bool)

    @mask.setter
    def mask(self, m):
        if self.mask_ is None:
            raise AttributeError("mask")
        if is_scalar(m):
            self.mask_ = [m] * self.size
            return
        self.mask_ = list(of(m).broadcast(self.shape_).elems)

    def set_fill_value(self, value=None):
        if value is not None and self.dt.kind in "iu" and zint(value) is not None:
            info, v = np.iinfo(self.dt), zint(value)
            if not core.CUR.decide(z3.And(v >= int(info.min), v <= int(info.max))):
                raise TypeError("Cannot convert fill_value")
        self.fill_ = value

    @property
    def fill_value(self):
        if self.fill_ is None:
            return np.ma.default_fill_value(np.empty(0, self.dt))
        return self.fill_

    @fill_value.setter
    def fill_value(self, v):
        self.set_fill_value(v)

    def compressed(self):
        xs = self.valid()
        return DenseArr(xs, (len(xs),), self.dt)

    def filled(self, value=None):
        if value is None:
            raise core.Limit("default fill value")
        if self.mask_ is None:
            return self.copy()
        out = self.data.copy()
        for i, m in enumerate(self.mask_):
            if core.truth(m) if hasattr(core, "truth") else bool(m):
                out.elems[i] = cast(value, np.asarray(scalar_weak(value)).dtype, self.dt)
        return out

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.elems[0])
        raise ValueError("The truth value of an array is ambiguous")

    def len_(self):
        if not self.shape_:
            raise TypeError("len() of unsized object")
        return self.shape_[0]

    __len__ = len_

    def __deepcopy__(self, memo):
        return self.copy()

    # ------------------------------------------------------------ structure
    def like(self, elems, shape=None, dt=None, mask="same"):
        out = DenseArr(elems, self.shape_ if shape is None else shape,
                       self.dt if dt is None else dt,
                       self.mask_ if isinstance_real(mask, str) else mask,
                       self.sub, self.meta_data)
        if out.dt == self.dt:
            out.fill_ = self.fill_
        return out

    def copy(self, *a, **k):
        return self.like(list(self.elems),
                         mask=None if self.mask_ is None else list(self.mask_))

    __copy__ = copy

    def take_(self, ixarr):
        flat = [int(i) for i in ixarr.ravel()]
        if flat == list(range(self.size)):
            # a view
            return self.like(self.elems, ixarr.shape)
        return self.like([self.elems[i] for i in flat], ixarr.shape, mask=None
                         if self.mask_ is None else [self.mask_[i] for i in flat])

    @property
    def ix(self):
        return np.arange(self.size).reshape(self.shape_)

    def broadcast(self, shape):
        return self.take_(np.broadcast_to(self.ix, shape))

    def reshape(self, *shape, order="C", copy=None):
        if len(shape) == 1 and isinstance_real(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self.take_(self.ix.reshape(*ops.deep_concrete(shape), order=order))

    def ravel(self, order="C"):
        return self.take_(self.ix.ravel(order))

    flatten = ravel

    def transpose(self, *axes):
        return self.take_(self.ix.transpose(*axes))

    def swapaxes(self, a, b):
        return self.take_(self.ix.swapaxes(a, b))

    def squeeze(self, axis=None):
        return self.take_(self.ix.squeeze(axis))

    def _key(self, k):
        if type(k) is DenseArr and k.dt.kind == "b":
            return np.array([bool(x) for x in k.elems], dtype=bool).reshape(k.shape_)
        if type(k) is DenseArr:
            return np.array([int(x) for x in k.elems], dtype=int).reshape(k.shape_)
        if isinstance_real(k, tuple):
            return tuple(self._key(x) for x in k)
        if isinstance_real(k, slice):
            return slice(*[ops.deep_concrete(x) for x in (k.start, k.stop, k.step)])
        if isinstance_real(k, list) and any(core.is_sym(x) for x in k):
            return [ops.deep_concrete(x) for x in k]
        if isinstance_real(k, np.ndarray) and k.ndim == 0 and k.dtype.kind in "iu":
            return int(k)
        return ops.deep_concrete(k) if core.is_sym(k) else k

    def __getitem__(self, k):
        key = self._key(k)
        r = self.ix[key]
        if isinstance_real(key, (list, np.ndarray)):
            out = self.take_(r)
            return out.copy() if out.elems is self.elems else out
        if isinstance_real(r, np.integer):
            if self.mask_ is not None and bool(self.mask_[int(r)]):
                return np.ma.masked
            return self.scalar(self.elems[int(r)])
        return self.take_(r)

    def scalar(self, v):
        if core.is_sym(v):
            return v
        return self.dt.type(v) if self.dt.kind != "O" else v

    def __setitem__(self, k, v):
        r = np.asarray(self.ix[self._key(k)])
        if is_scalar(v):
            vals = [cast(v, np.asarray(scalar_weak(v)).dtype, self.dt)] * r.size
            ms = [False] * r.size
        elif v is np.ma.masked:
            for i in r.ravel():
                self.mask_[i] = True
            return
        else:
            v = of(v)
            b = v.broadcast(r.shape)
            vals = [cast(x, v.dt, self.dt) for x in b.elems]
            ms = b.mask_ or [False] * r.size
        for i, x, m in zip(r.ravel(), vals, ms):
            self.elems[i] = x
            if self.mask_ is not None:
                self.mask_[i] = m

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def contains_(self, v):
        v = self.weak(v)
        return or_([compare("eq", x, v) if not isinstance_real(v, str) else False
                    for x in self.elems])

    def __contains__(self, v):
        return bool(self.contains_(v))

    def tolist(self):
        if self.ndim == 1:
            return list(self.elems)
        return [x.tolist() for x in self]

    def item(self, *a):
        if self.size != 1:
            raise ValueError("can only convert an array of size 1")
        return self.elems[0]

    # ---------------------------------------------------------------- types
    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt == self.dt and k.get("copy") is False:
            return self
        if dt == self.dt or (dt.kind == self.dt.kind and dt.itemsize == self.dt.itemsize):
            return self.like(list(self.elems), dt=dt)
        return self.like([cast(x, self.dt, dt) for x in self.elems], dt=dt)

    def view(self, dtype=None, type=None, fill_value=None):
        cls = type
        if isinstance_real(dtype, builtins.type) and issubclass(dtype, np.ndarray):
            dtype, cls = None, dtype
        if dtype is None:
            out = self.like(self.elems)
            if cls is not None:
                base = (np.ndarray, np.ma.MaskedArray)
                out.sub = None if cls in base else cls
                if not issubclass(cls, np.ma.MaskedArray):
                    out.mask_ = None
                elif out.mask_ is None:
                    out.mask_ = [False] * self.size
            return out
        raise core.Limit("view of computed values")

    def byteswap(self, inplace=False):
        raise core.Limit("byteswap of computed values")

    # ----------------------------------------------------------- arithmetic
    def _operands(self, o, swap):
        """(left elements, right elements, shape, right dtype, mask)"""
        if is_scalar(o):
            bdt, m = scalar_weak(o), self.mask_
            if m is not None and not isinstance_real(bdt, np.generic):
                # numpy.ma turns scalars into arrays of the default types
                bdt = np.asarray(bdt).dtype
            return [o] * self.size, self.elems, self.shape_, bdt, m
        o = of(o)
        if o is None:
            return None
        shape = np.broadcast_shapes(self.shape_, o.shape_)
        x, y = self.broadcast(shape), o.broadcast(shape)
        m = None
        if x.mask_ is not None or y.mask_ is not None:
            m = [or_([p, q]) for p, q in zip(x.mask_ or [False] * x.size,
                                            y.mask_ or [False] * y.size)]
        return y.elems, x.elems, shape, o.dt, m

    def _bin(self, op, o, swap=False):
        r = self._operands(o, swap)
        if r is None:
            return NotImplemented
        other, mine, shape, odt, m = r
        if type(o) is SymInt and self.dt.kind in "iu" and self.mask_ is None:
            # numpy refuses Python integers that the type cannot hold
            info = np.iinfo(self.dt)
            if not core.CUR.decide(z3.And(o.e >= int(info.min), o.e <= int(info.max))):
                raise OverflowError("Python integer out of bounds")
        a = np.empty(0, self.dt)
        b = np.empty(0, odt) if isinstance_real(odt, np.dtype) else odt
        x, y = (b, a) if swap else (a, b)
        with np.errstate(all="ignore"):
            dt = UF[op](x, y).dtype
        out = []
        for p, q in zip(mine, other):
            p, q = (q, p) if swap else (p, q)
            out.append(arith(op, num(p, dt), num(q, dt), dt))
        return DenseArr(out, shape, dt, m)

    def _ibin(self, op, o):
        r = self._bin(op, o)
        if r is NotImplemented:
            return r
        if not np.can_cast(r.dt, self.dt, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(
                UF[op], "same_kind", r.dt, self.dt, 0)
        r = r.broadcast(self.shape_)
        vals = [cast(x, r.dt, self.dt) if r.dt != self.dt else x for x in r.elems]
        if r.mask_ is not None and self.mask_ is None and type(o) is DenseArr:
            self.mask_ = r.mask_
        elif self.mask_ is not None:
            # what is masked stays as it is
            vals = [v if m is False else x if m is True else ite(m, x, v)
                    if type(m) is SymBool else v for v, x, m in
                    zip(vals, self.elems, self.mask_)]
        self.elems[:] = vals
        return self

    def weak(self, v):
        """Python floats are compared at the array's precision"""
        if self.dt == np.float32 and self.mask_ is None and type(v) is float:
            return to_f32(v)
        return v

    def _cmp(self, op, o):
        r = self._operands(o, False)
        if r is None:
            return NotImplemented
        other, mine, shape, odt, m = r
        other = [self.weak(v) for v in other] if is_scalar(o) else other
        return DenseArr([compare(op, p, q) for p, q in zip(mine, other)],
                        shape, bool, m)

    def __eq__(self, o):
        r = self._cmp("eq", o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp("ne", o)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __invert__(self):
        if self.dt.kind == "b":
            return self.like([not_(x) for x in self.elems])
        return self.like([arith("sub", arith("mul", x, -1, np.dtype("i8")), 1, self.dt)
                          for x in self.elems])

    def __neg__(self):
        return self.like([arith("sub", 0, x, self.dt) for x in self.elems])

    def __pos__(self):
        return self

    def __abs__(self):
        out = []
        for x in self.elems:
            if type(x) is SymReal or type(x) is SymInt:
                out.append(abs(x))
            else:
                out.append(abs(x))
        return self.like([wrap(x, self.dt) if self.dt.kind in "iu" else x for x in out])

    # ----------------------------------------------------------- reductions
    def valid(self):
        if self.mask_ is None:
            return list(self.elems)
        return [x for x, m in zip(self.elems, self.mask_) if not bool(m)]

    def _extreme(self, op):
        xs = self.valid()
        if not xs:
            if self.mask_ is not None:
                return np.ma.masked
            raise ValueError("zero-size array to reduction operation")
        if any(not core.is_sym(x) and x != x for x in xs):
            return self.scalar(float("nan"))
        best = xs[0]
        for x in xs[1:]:
            best = lesser(op, x, best)
        return self.scalar(best)

    def along(self, axis, f, dt, k):
        """f of the whole array, or of the lines along an axis"""
        if {x for x in k if k[x] is not None and x not in ("keepdims",)}:
            raise core.Limit(f"keywords of a reduction: {sorted(k)}")
        if k.get("keepdims") not in (None, False, np._NoValue):
            raise core.Limit("reduction that keeps axes")
        if axis is None or self.ndim == 1 and axis in (0, -1):
            return f(self)
        axis = ops.deep_concrete(axis)
        ax = sorted(x % self.ndim for x in (axis if isinstance_real(axis, tuple) else (axis,)))
        ix = np.moveaxis(self.ix, ax, range(len(ax)))
        ix = ix.reshape((-1,) + ix.shape[len(ax):])
        out = [f(self.take_(ix[(slice(None),) + n])) for n in np.ndindex(ix.shape[1:])]
        masked = [o is np.ma.masked for o in out]
        dt = dt or self.dt
        return DenseArr([num(self.elems[0] if m else o, dt) for o, m in zip(out, masked)],
                        ix.shape[1:], dt, masked if self.mask_ is not None else None)

    def min(self, axis=None, **k):
        return self.along(axis, lambda d: d._extreme("lt"), None, k)

    def max(self, axis=None, **k):
        return self.along(axis, lambda d: d._extreme("gt"), None, k)

    def ptp(self, axis=None, **k):
        return self.max(axis, **k) - self.min(axis, **k)

    def count(self, axis=None, **k):
        return self.along(axis, lambda d: len(d.valid()), np.dtype(int), k)

    def any(self, axis=None, **k):
        return self.along(axis, lambda d: or_(
            [cast(x, d.dt, np.dtype(bool)) for x in d.valid()]), np.dtype(bool), k)

    def all(self, axis=None, **k):
        return self.along(axis, lambda d: and_(
            [cast(x, d.dt, np.dtype(bool)) for x in d.valid()]), np.dtype(bool), k)

    def sum(self, axis=None, **k):
        dt = np.dtype("i8") if self.dt.kind in "ib" else (
            np.dtype("u8") if self.dt.kind == "u" else self.dt)

        def total(d):
            out = 0
            for x in d.valid():
                out = arith("add", num(out, dt), num(x, dt), dt)
            return out
        return self.along(axis, total, dt, k)

    def mean(self, axis=None, **k):
        if self.dt.kind == "f":
            return self.sum(axis, **k) / (self.size if axis is None else
                                          self.count(axis) if self.mask_ is not None else
                                          self.shape_[axis])
        return self.astype("f8").mean(axis, **k)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max, out, **k)

    def round(self, decimals=0, out=None):
        r = np_round(self, decimals)
        if out is None:
            return r
        out[...] = r
        return out

    def fill(self, value):
        self[...] = value

    def nonzero(self):
        return np.nonzero(self._key(self.astype(bool)))

    def take(self, indices, axis=None, **k):
        return self.take_(self.ix.take(ops.deep_concrete(indices), axis=axis, **k))

    def repeat(self, repeats, axis=None):
        return self.take_(self.ix.repeat(ops.deep_concrete(repeats), axis=axis))


def lesser(op, a, b):
    """the lesser (greater) of two, without a case if the path decides it"""
    c = compare(op, a, b)
    if type(c) is not SymBool:
        return a if c else b
    k = core.CUR.implied(c.e)
    if k is None and core.CUR.implied(zreal(a) == zreal(b) if type(a) is not type(b)
                                      else a.e == b.e):
        k = True
    if k is None:
        w = compare({"lt": "le", "gt": "ge"}[op], a, b)
        if type(w) is SymBool and core.CUR.implied(w.e):
            k = True
    return ite(c, a, b) if k is None else a if k else b


def ite(c, a, b):
    ia, ib = zint(a), zint(b)
    if ia is not None and ib is not None:
        return mkint(z3.simplify(z3.If(c.e, ia, ib)))
    if finite(a) and finite(b):
        return SymReal(z3.If(c.e, zreal(a), zreal(b)))
    return a if bool(c) else b


def num(v, dt):
    if isinstance_real(v, np.generic):
        v = v.item()
    if dt.kind == "f":
        return tofloat(v)
    if dt.kind in "iu":
        if type(v) is SymBool:
            return v._int()
        if isinstance_real(v, bool):
            return int(v)
    return v


for _op, _n in (("add", "add"), ("sub", "sub"), ("mul", "mul"),
                ("div", "truediv"), ("floordiv", "floordiv"), ("mod", "mod"),
                ("pow", "pow"), ("and", "and"), ("or", "or"), ("xor", "xor"),
                ("lshift", "lshift"), ("rshift", "rshift")):
    def _mk(op):
        return (lambda self, o: self._bin(op, o),
                lambda self, o: self._bin(op, o, True),
                lambda self, o: self._ibin(op, o))
    _f, _r, _i = _mk(_op)
    setattr(DenseArr, f"__{_n}__", _f)
    setattr(DenseArr, f"__r{_n}__", _r)
    setattr(DenseArr, f"__i{_n}__", _i)


# ---------------------------------------------------------- numpy functions
def elementwise(f, dt=bool):
    def h(x, *a, **k):
        if type(x) is SymInt or type(x) is SymBool or type(x) is SymReal:
            return f(x)
        d = of(x)
        return d.like([f(v) for v in d.elems], dt=dt)
    return h


def reg(fn, h):
    """handler for arrays of values; other models keep their handler"""
    old = ops.CALLS.get(fn)

    def g(x, *a, **k):
        if type(x) is DenseArr or old is None:
            return h(x, *a, **k)
        return old(x, *a, **k)
    ops.CALLS[fn] = g


def isfin(v):
    return True if core.is_sym(v) else math.isfinite(v)


reg(np.isfinite, elementwise(isfin))
reg(np.isnan, elementwise(lambda v: False if core.is_sym(v) else math.isnan(v)))
reg(np.isinf, elementwise(lambda v: False if core.is_sym(v) else math.isinf(v)))
for _fn in (np.isfinite, np.isnan, np.isinf):
    def _mk2(fn, old):
        from . import arrays

        def g(x, *a, **k):
            if type(x) is arrays.SymArr:
                x = x.dense()
            return old(x, *a, **k)
        return g
    ops.CALLS[_fn] = _mk2(_fn, ops.CALLS[_fn])

ops.CALLS[np.logical_not] = elementwise(lambda v: not_(cast(v, None, np.dtype(bool))))


def meth(name):
    def h(x, *a, **k):
        return getattr(of(x), name)(*a, **k)
    return h


for _fn, _n in ((np.any, "any"), (np.all, "all"), (np.min, "min"),
                (np.max, "max"), (np.amin, "min"), (np.amax, "max"),
                (np.sum, "sum"), (np.ptp, "ptp"), (np.mean, "mean"),
                (np.nanmin, "min"), (np.nanmax, "max"), (np.ma.min, "min"),
                (np.ma.max, "max"), (np.nonzero, "nonzero"), (np.take, "take"),
                (np.repeat, "repeat")):
    ops.CALLS[_fn] = meth(_n)
ops.CALLS[np.abs] = ops.CALLS[np.absolute] = lambda x, *a, **k: \
    abs(of(x)) if not is_scalar(x) else abs(x)
for _op, _uf in UF.items():
    def _mk3(op, uf):
        def h(a, b, out=None, casting="same_kind", dtype=None, **k):
            if k or dtype is not None:
                raise core.Limit(f"keywords of a ufunc: {sorted(k)}")
            if out is not None:
                r = h(a, b)
                out = out[0] if isinstance_real(out, tuple) else out
                if not np.can_cast(of(r).dt, out.dt, casting):
                    raise np._core._exceptions._UFuncOutputCastingError(
                        uf, casting, of(r).dt, out.dt, 0)
                out[...] = r
                return out
            if is_scalar(a) and is_scalar(b):
                return PY[op](a, b) if op in PY else a / b if op == "div" else a ** b
            if not is_scalar(a):
                return of(a)._bin(op, b)
            return of(b)._bin(op, a, True)
        return h
    ops.CALLS[_uf] = _mk3(_op, _uf)
ops.CALLS[np.logical_or] = lambda a, b: of(a).astype(bool)._bin("or", of(b).astype(bool))
ops.CALLS[np.logical_and] = lambda a, b: of(a).astype(bool)._bin("and", of(b).astype(bool))
for _op, _uf in (("eq", np.equal), ("ne", np.not_equal), ("lt", np.less),
                 ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal)):
    ops.CALLS[_uf] = (lambda op: lambda a, b: of(a)._cmp(op, b))(_op)


def ctor(t):
    dt = np.dtype(t)

    def h(x=0, *a, **k):
        if not is_scalar(x):
            return of(x).astype(dt)
        if dt.kind in "iu" and type(x) is SymInt:
            info = np.iinfo(dt)
            if not core.CUR.decide(z3.And(x.e >= int(info.min), x.e <= int(info.max))):
                raise OverflowError("Python integer out of bounds")
        return DenseArr([cast(x, np.asarray(scalar_weak(x)).dtype, dt)], (), dt)
    return h


for _t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16,
           np.uint32, np.uint64, np.float32, np.float64):
    ops.CALLS[_t] = ctor(_t)


def rounded(v):
    if core.is_sym(v):
        return SymReal(zreal(round(v))) if type(v) is SymReal else v
    return float(np.round(v)) if isinstance_real(v, float) else v


@ops.handler(np.round, np.around, np.rint)
def np_round(x, decimals=0, *a, **k):
    if decimals != 0:
        raise core.Limit("rounding to decimals")
    if is_scalar(x):
        return rounded(x)
    d = of(x)
    return d.like([rounded(v) for v in d.elems]) if d.dt.kind == "f" else d.copy()


@ops.handler(np.sort)
def np_sort(x, axis=-1, *a, **k):
    d = of(x)
    if d.ndim != 1 or d.mask_ is not None:
        raise core.Limit("sorting along an axis")
    return DenseArr(ordered(d.elems), d.shape_, d.dt)


def ordered(xs):
    out = []
    for x in xs:
        out.append(x)
        for k in range(len(out) - 1, 0, -1):
            a, b = out[k - 1], out[k]
            out[k - 1], out[k] = lesser("lt", a, b), lesser("gt", a, b)
            if out[k] is b:
                break
    return out


@ops.handler(np.quantile)
def np_quantile(a, q, *r, **k):
    q = of(q) if not is_scalar(q) else q
    return np_percentile(a, [Fraction(x) * 100 for x in q.elems] if type(q) is DenseArr
                         else Fraction(q) * 100, *r, **k)


@ops.handler(np.median)
def np_median(a, axis=None, **k):
    return np_percentile(a, 50, axis)


@ops.handler(np.percentile)
def np_percentile(a, q, axis=None, out=None, overwrite_input=False,
                  method="linear", keepdims=False, **k):
    d = of(a)
    if axis is not None or method != "linear" or out is not None or keepdims or k:
        raise core.Limit("other kinds of percentiles")
    xs = ordered([tofloat(v) for v in d.elems])     # masks are ignored

    def at(p):
        p = Fraction(ops.deep_concrete(p)) / 100
        v = p * (len(xs) - 1)
        i = math.floor(v)
        if i >= len(xs) - 1:
            return xs[-1]
        w = v - i
        if w == 0:
            return xs[i]
        x, y = zreal(xs[i]), zreal(xs[i + 1])
        return SymReal(z3.simplify(x + (y - x) * z3.RealVal(str(w))))
    if type(q) is DenseArr or isinstance_real(q, np.ndarray):
        q = of(q).elems
    if isinstance_real(q, (list, tuple)):
        return DenseArr([at(p) for p in q], (len(q),), "f8")
    return DenseArr([at(q)], (), "f8")


@ops.handler(np.isin)
def np_isin(element, test_elements, *a, invert=False, **k):
    x = of(element)
    t = of(test_elements if not is_scalar(test_elements) else [test_elements])
    # numbers are compared in their common type
    out = []
    for v in x.elems:
        r = False if t.dt.kind == "U" else or_([compare("eq", v, c) for c in t.elems])
        out.append(not_(r) if invert else r)
    return DenseArr(out, x.shape_, bool)


@ops.handler(np.ma.masked_array, np.ma.array, np.ma.MaskedArray, np.ma.asarray,
             np.ma.asanyarray)
def np_masked(data, mask=None, dtype=None, copy=False, **k):
    x = of(data)
    if dtype is not None:
        x = x.astype(dtype)
    m = list(x.mask_) if x.mask_ is not None else [False] * x.size
    if mask is not None and mask is not np.ma.nomask:
        if is_scalar(mask):
            m = [or_([p, mask]) for p in m]
        else:
            m = [or_([p, q]) for p, q in zip(m, of(mask).broadcast(x.shape_).elems)]
    out = x.like(list(x.elems) if copy else x.elems, mask=m)
    if out.sub is not None and not issubclass(out.sub, np.ma.MaskedArray):
        out.sub = None
    out.fill_ = k.get("fill_value", x.fill_)
    return out


@ops.handler(np.ma.mask_or)
def np_mask_or(a, b, *r, **k):
    return of(a)._bin("or", of(b))


@ops.handler(np.ma.getmaskarray, np.ma.getmask)
def np_getmask(x):
    x = of(x)
    return DenseArr(x.mask_ or [False] * x.size, x.shape_, bool)


@ops.handler(np.ma.getdata)
def np_getdata(x, *a, **k):
    return of(x).data


@ops.handler(np.ma.count)
def np_ma_count(x, axis=None, keepdims=None):
    return len(of(x).valid())


@ops.handler(np.ma.is_masked)
def np_is_masked(x):
    from . import arrays
    if type(x) is arrays.SymArr:
        return False
    x = of(x)
    if x is None:
        return False
    return False if x.mask_ is None else or_(x.mask_)


@ops.handler(np.ma.masked_where)
def np_masked_where(c, x, copy=True):
    return np_masked(x, of(c).data, copy=copy)


@ops.handler(np.ma.masked_invalid)
def np_masked_invalid(x, copy=True):
    d = of(x)
    return np_masked(d, DenseArr([not isfin(v) for v in d.elems], d.shape_, bool))


@ops.handler(np.where)
def np_where(c, *xy):
    if not xy:
        c = of(c)
        return np.where(np.array([bool(x) for x in c.elems], bool).reshape(c.shape_))
    c = of(c)
    x, y = [of(v) if not is_scalar(v) else v for v in xy]
    dts = [v.dt if type(v) is DenseArr else scalar_weak(v) for v in (x, y)]
    dt = np.result_type(*dts)
    shape = np.broadcast_shapes(c.shape_, *[v.shape_ for v in (x, y) if type(v) is DenseArr])
    c = c.broadcast(shape)
    xs, ys = [v.broadcast(shape).elems if type(v) is DenseArr else [v] * c.size
              for v in (x, y)]
    out = []
    for k, p, q in zip(c.elems, xs, ys):
        p, q = num(p, dt), num(q, dt)
        out.append(ite(k, p, q) if type(k) is SymBool else (p if k else q))
    return DenseArr(out, shape, dt)


def stack(arrs, axis=0):
    arrs = [of(a) for a in arrs]
    dt = np.result_type(*[a.dt for a in arrs])
    arrs = [a.astype(dt) for a in arrs]
    flat, ms, ixs, n = [], [], [], 0
    masked = any(a.mask_ is not None for a in arrs)
    for a in arrs:
        flat += a.elems
        ms += a.mask_ or [False] * a.size
        ixs.append(a.ix + n)
        n += a.size
    base = DenseArr(flat, (n,), dt, ms if masked else None)
    return base, ixs


def stacker(npf, ma=False):
    def h(arrs, *a, **k):
        base, ixs = stack(list(arrs))
        out = base.take_(npf(ixs, *a, **k))
        if ma and out.mask_ is None or not ma and out.mask_ is not None:
            # (numpy's own functions lose masks)
            out.mask_ = [False] * out.size
        return out
    return h


for _fn, _ma in ((np.stack, False), (np.dstack, False), (np.hstack, False),
                 (np.vstack, False), (np.concatenate, False), (np.ma.dstack, True),
                 (np.ma.stack, True), (np.ma.vstack, True), (np.ma.hstack, True)):
    _npf = getattr(np, _fn.__name__) if _ma else _fn
    ops.CALLS[_fn] = stacker(_npf, _ma)

for _fn in (np.rollaxis, np.moveaxis, np.expand_dims, np.swapaxes, np.squeeze,
            np.transpose, np.ravel, np.reshape):
    def _mk4(fn):
        return lambda x, *a, **k: x.take_(fn(x.ix, *a, **k))
    reg(_fn, _mk4(_fn))


def np_conv(old, copies, any_):
    def h(x, dtype=None, *a, **k):
        if isinstance_real(x, Sym) and type(x).__name__ in ("Picture", "OpenPicture"):
            x = x.arr
        if type(x) is DenseArr:
            y = x.astype(dtype) if dtype is not None and np.dtype(dtype) != x.dt \
                else x.copy() if copies else x.view()
            if not any_:
                y.mask_, y.sub, y.meta_data = None, None, None
            return y
        if is_scalar(x) and core.is_sym(x):
            dt = np.asarray(scalar_weak(x)).dtype
            if dtype is None:
                return DenseArr([x], (), dt)
            info = np.iinfo(dtype) if np.dtype(dtype).kind in "iu" else None
            if info is not None and zint(x) is not None and not core.CUR.decide(
                z3.And(zint(x) >= int(info.min), zint(x) <= int(info.max))
            ):
                raise OverflowError("Python integer out of bounds")
            return DenseArr([cast(x, dt, np.dtype(dtype))], (), dtype)
        if isinstance_real(x, (list, tuple)) and core.has_sym(x, 4):
            d = of_list(x)
            return d.astype(dtype) if dtype is not None else d
        return old(x, dtype, *a, **k)
    return h


for _fn in (np.ascontiguousarray, np.copy, np.asarray, np.array, np.require,
            np.asanyarray):
    ops.CALLS[_fn] = np_conv(ops.CALLS[_fn], _fn in (np.copy, np.array),
                             _fn is np.asanyarray)


@ops.handler(np.zeros_like, np.ones_like, np.empty_like, np.full_like)
def np_like(x, *a, **k):
    raise core.Limit("array constructor")


for _n, _v in (("zeros_like", 0), ("ones_like", 1), ("empty_like", 0)):
    ops.CALLS[getattr(np, _n)] = (lambda v: lambda x, dtype=None, **k: DenseArr(
        [cast(v, np.dtype(int), np.dtype(dtype or of(x).dt))] * of(x).size,
        of(x).shape_, dtype or of(x).dt))(_v)


def np_minimum(op):
    def h(a, b, *r, **k):
        x = of(a) if not is_scalar(a) else None
        if x is None:
            return h(b, a)
        o, mine, shape, odt, m = x._operands(b, False)
        dt = np.result_type(x.dt, odt)
        out = []
        for p, q in zip(mine, o):
            p, q = num(p, dt), num(q, dt)
            out.append(lesser(op, p, q))
        return DenseArr(out, shape, dt, m)
    return h


ops.CALLS[np.minimum] = np_minimum("lt")
ops.CALLS[np.maximum] = np_minimum("gt")


@ops.handler(np.clip)
def np_clip(x, lo=None, hi=None, out=None, **k):
    if out is not None:
        r = np_clip(x, lo, hi)
        out[...] = r
        return out
    out = of(x)
    if lo is not None:
        out = np_minimum("gt")(out, lo)
    if hi is not None:
        out = np_minimum("lt")(out, hi)
    return out
