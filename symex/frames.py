"""
Model of the DataFrames pdr makes from binary tables (columns are strided
views of the file), and glue that lets real pandas objects carry symbolic
integers in object columns (format definitions).
"""
from __future__ import annotations

import builtins

import numpy as np
import pandas as pd
import z3

from . import arrays, core, dense, ops, strings
from .arrays import SymArr, StructCast, SymDtype
from .core import Sym, has_sym, isinstance_real, mkint


class SymFrame(Sym):
    """columns: [(name, SymCol)]"""
    __slots__ = ("names_", "cols", "n")

    def __init__(self, names, cols, n):
        self.names_, self.cols, self.n = list(names), list(cols), n

    @property
    def __class__(self):
        return pd.DataFrame

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        raise core.Limit("frame comparison")

    def __bool__(self):
        raise ValueError("truth value of a DataFrame")

    @property
    def columns(self):
        return pd.Index(self.names_)

    @columns.setter
    def columns(self, names):
        names = list(names)
        if len(names) != len(self.cols):
            raise ValueError("Length mismatch")
        self.names_ = names

    def keys(self):
        return self.columns

    def __iter__(self):
        return iter(self.names_)

    def contains_(self, k):
        return k in self.names_

    def __len__(self):
        return int(mkint(self.n))

    def len_(self):
        return mkint(self.n)

    @property
    def shape(self):
        return (mkint(self.n), len(self.cols))

    @property
    def empty(self):
        return core.mkbool(z3.simplify(self.n == 0))

    def _ix(self, name):
        ixs = [i for i, n in enumerate(self.names_) if n == name]
        if not ixs:
            raise KeyError(name)
        if len(ixs) > 1:
            raise core.Limit("duplicate column")
        return ixs[0]

    def __getitem__(self, k):
        if isinstance_real(k, str):
            return self.cols[self._ix(k)]
        names = list(k)
        if names and all(isinstance_real(x, (bool, np.bool_)) for x in names):
            names = [n for n, f in zip(self.names_, names) if f]
        return SymFrame(names, [self.cols[self._ix(n)] for n in names], self.n)

    def __setitem__(self, k, v):
        if isinstance_real(k, str):
            if type(v) in (SymArr, dense.DenseArr):
                v = SymCol(v)
            if isinstance_real(v, (list, np.ndarray)):
                v = object_series(v)
            if type(v) is not SymCol and not isinstance_real(v, pd.Series):
                raise core.Limit("column assignment")
            if k in self.names_:
                self.cols[self._ix(k)] = v
            else:
                self.names_.append(k)
                self.cols.append(v)
            return
        names = list(k)
        if type(v) is not SymFrame or len(v.cols) != len(names):
            raise core.Limit("frame assignment")
        for n, c in zip(names, v.cols):
            self[n] = c

    def astype(self, dt, *a, **k):
        return SymFrame(self.names_, [c.astype(dt) for c in self.cols], self.n)

    def copy(self, deep=True):
        return SymFrame(self.names_, self.cols, self.n)

    def drop(self, labels=None, axis=0, columns=None, **k):
        if columns is None:
            if axis not in (1, "columns"):
                raise core.Limit("row drop")
            columns = labels
        if isinstance_real(columns, str):
            columns = [columns]
        columns = list(columns)
        for c in columns:
            self._ix(c)
        keep = [(n, c) for n, c in zip(self.names_, self.cols) if n not in columns]
        return SymFrame([n for n, _ in keep], [c for _, c in keep], self.n)


class Str:
    def __init__(self, col):
        self.col = col

    def decode(self, enc, *a):
        return self.col.push(("decode", enc))


class SymCol(Sym):
    __slots__ = ("arr", "ops_")

    def __init__(self, arr, ops_=()):
        self.arr, self.ops_ = arr, tuple(ops_)

    @property
    def __class__(self):
        return pd.Series

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        raise core.Limit("column comparison")

    def __bool__(self):
        raise ValueError("truth value of a Series")

    def push(self, op):
        return SymCol(self.arr, self.ops_ + (op,))

    @property
    def values(self):
        if self.ops_:
            raise core.Limit("values of a transformed column")
        return self.arr

    to_numpy = lambda self, *a, **k: self.values

    @property
    def dtype(self):
        return self.arr.dtype

    str = property(lambda self: Str(self))
    name = None

    def copy(self, deep=True):
        return self

    def astype(self, dt, *a, **k):
        if dt in (builtins.bool, np.bool_, "bool"):
            return self.push(("bool",))
        return SymCol(self.arr.astype(dt), self.ops_)

    def mul(self, k):
        return self.push(("mul", k))

    __mul__ = __rmul__ = multiply = mul

    def add(self, k):
        return self.push(("add", k))

    __add__ = __radd__ = add

    def __len__(self):
        return len(self.arr)

    def len_(self):
        return self.arr.len_()

    def series(self):
        """the values as a real Series of objects"""
        a = self.arr
        if self.ops_:
            raise core.Limit("values of a transformed column")
        if type(a) is dense.DenseArr:
            return object_series(a.tolist())
        kind = a.dt.kind
        src = a.dt
        if kind == "O" and len(a.xf) == 1 and a.xf[0][0] == "astype":
            src = np.dtype(a.xf[0][1])
        elif a.xf:
            return object_series(a.dense().tolist())
        if src.kind not in "VS":
            return object_series(a.dense().tolist())
        if type(a.file) is not dense.ValFile:
            raise core.Limit("values of opaque data")
        out = []
        for i in range(int(mkint(a.shape_[0]))):
            o = int(mkint(a.offset_of(i)))
            cs = [a.file.byte(o + k) for k in range(src.itemsize)]
            b = strings.SymBytes.make(
                [c.e if type(c) is core.SymInt else int(c) for c in cs])
            if src.kind == "S":
                b = b.rstrip(b"\0")
            out.append(b)
        return object_series(out)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.series(), name)

    def __iter__(self):
        return iter(self.series())


def object_series(values, index=None, name=None):
    values = list(values)
    arr = np.empty(len(values), object)
    for i, v in enumerate(values):
        arr[i] = v
    return pd.Series(arr, index=index, name=name)


def frame_of(data):
    if type(data) is StructCast:
        cols = []
        for name, dt in data.spec:
            a = data.arr[name]
            cols.append(SymCol(a.astype(dt)))
        return SymFrame([s[0] for s in data.spec], cols, data.arr.shape_[0])
    if data.dt.names is None:
        if data.ndim != 1:
            raise core.Limit("frame of a matrix")
        return SymFrame([0], [SymCol(data)], data.shape_[0])
    return SymFrame(data.dt.names, [SymCol(data[n]) for n in data.dt.names],
                    data.shape_[0])


_DF = pd.DataFrame


@ops.handler(pd.DataFrame)
def h_frame(data=None, *a, **k):
    if type(data) in (SymArr, StructCast):
        return frame_of(data)
    if type(data) is SymFrame:
        return data.copy()
    return _DF(data, *a, **k)


_S = pd.Series


@ops.handler(pd.Series)
def h_series(data=None, *a, **k):
    if type(data) is SymCol:
        return data
    return _S(data, *a, **k)


def obj_with_syms(s):
    return isinstance_real(s, (pd.Series, np.ndarray)) and s.dtype == object \
        and any(has_sym(v) for v in s)


def hook(recv, name, args, kwargs):
    if name in ("map", "apply") and args and len(args) == 1 and callable(args[0]) \
            and not kwargs and isinstance_real(recv, (pd.Series, SymCol)):
        s = recv.series() if type(recv) is SymCol else recv
        if obj_with_syms(s):
            return object_series([ops.call(args[0], v) for v in s], s.index, s.name)
    if name != "astype" or not isinstance_real(recv, (pd.Series, np.ndarray)):
        return ops.MISSING
    if isinstance_real(recv, Sym) or recv.dtype != object or not obj_with_syms(recv):
        return ops.MISSING
    dt = args[0] if args else kwargs.get("dtype")
    if dt in (int, "int", "int64", np.int64):
        conv = int
    elif dt in (float, "float", "float64", np.float64):
        conv = float
    elif dt in (object, "O", "object"):
        return recv
    else:
        return ops.MISSING
    vals = []
    for v in recv:
        if conv is int and isinstance_real(v, float) and v != v:
            raise ValueError("cannot convert float NaN to integer")
        vals.append(ops.call(conv, v))
    if isinstance_real(recv, np.ndarray):
        out = np.empty(len(vals), object)
        out[:] = vals
        return out
    out = pd.Series(np.empty(len(vals), object), index=recv.index, name=recv.name)
    for i, v in enumerate(vals):
        out.iloc[i] = v
    return out


ops.HOOKS.append(hook)


# assigning symbolic values into a numeric column makes it an object column
# (pandas would refuse, because it cannot tell what they are)
from pandas.core.internals import blocks as _blocks

_coerce = _blocks.Block.coerce_to_target_dtype


def coerce(self, other, *a, **k):
    if has_sym(other) or obj_with_syms(other):
        return self.astype(np.dtype(object))
    return _coerce(self, other, *a, **k)


_blocks.Block.coerce_to_target_dtype = coerce


_from_records = pd.DataFrame.from_records


def from_records(data, *a, **k):
    if type(data) is SymArr and not a and not k:
        return frame_of(data)
    return _from_records(data, *a, **k)


def records_hook(recv, name, args, kwargs):
    if name == "from_records" and recv is pd.DataFrame:
        return from_records(*args, **kwargs)
    return ops.MISSING


ops.HOOKS.append(records_hook)
