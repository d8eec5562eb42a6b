"""
Model of multidict.MultiDict whose keys may be symbolic strings (the real one
is a C type that accepts only str).  Used in place of the real class in runs
that ask for it with sx.symbolic_keys().
"""
from __future__ import annotations

from cytoolz import countby
from multidict import MultiDict

from . import core, ops, strings
from .core import Sym, isinstance_real

_NO = object()


def same(a, b):
    if isinstance_real(a, strings._SeqBase):
        return bool(a == b)
    if isinstance_real(b, strings._SeqBase):
        return bool(b == a)
    return a == b


class SymMultiDict(Sym):
    __slots__ = ("ps",)

    def __init__(self, *args, **kwargs):
        self.ps = []
        self.extend(*args, **kwargs)

    @property
    def __class__(self):
        return MultiDict if type(self) is SymMultiDict else type(self)

    def __hash__(self):
        raise TypeError("unhashable type: 'MultiDict'")

    # adding
    def add(self, key, value):
        if not isinstance_real(key, (str, strings.SymStr)):
            raise TypeError("MultiDict keys should be either str or subclasses of str")
        self.ps.append((key, value))

    def extend(self, arg=(), /, **kwargs):
        for k, v in _pairs(arg):
            self.add(k, v)
        for k, v in kwargs.items():
            self.add(k, v)

    def update(self, arg=(), /, **kwargs):
        seen = []
        for k, v in list(_pairs(arg)) + list(kwargs.items()):
            if not any(same(k, s) for s in seen):
                seen.append(k)
                self.ps = [p for p in self.ps if not same(p[0], k)]
            self.add(k, v)

    def __setitem__(self, key, value):
        out, done = [], False
        for k, v in self.ps:
            if same(k, key):
                if not done:
                    out.append((k, value))
                    done = True
            else:
                out.append((k, v))
        if not done:
            out.append((key, value))
        self.ps = out

    def setdefault(self, key, default=None):
        v = self.get(key, _NO)
        if v is _NO:
            self.add(key, default)
            return default
        return v

    # looking up
    def getall(self, key, default=_NO):
        out = [v for k, v in self.ps if same(k, key)]
        if out:
            return out
        if default is _NO:
            raise KeyError(key)
        return default

    def getone(self, key, default=_NO):
        for k, v in self.ps:
            if same(k, key):
                return v
        if default is _NO:
            raise KeyError(key)
        return default

    def __getitem__(self, key):
        return self.getone(key)

    def get(self, key, default=None):
        return self.getone(key, default)

    def contains_(self, key):
        return any(same(k, key) for k, _ in self.ps)

    __contains__ = contains_

    # removing
    def __delitem__(self, key):
        if not self.contains_(key):
            raise KeyError(key)
        self.ps = [p for p in self.ps if not same(p[0], key)]

    def popone(self, key, default=_NO):
        for i, (k, v) in enumerate(self.ps):
            if same(k, key):
                del self.ps[i]
                return v
        if default is _NO:
            raise KeyError(key)
        return default

    pop = popone

    def popall(self, key, default=_NO):
        out = self.getall(key, default)
        self.ps = [p for p in self.ps if not same(p[0], key)]
        return out

    def popitem(self):
        return self.ps.pop(0)

    def clear(self):
        self.ps = []

    # views
    def items(self):
        return list(self.ps)

    def keys(self):
        return [k for k, _ in self.ps]

    def values(self):
        return [v for _, v in self.ps]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.ps)

    def len_(self):
        return len(self.ps)

    def __bool__(self):
        return bool(self.ps)

    def copy(self):
        new = SymMultiDict()
        new.ps = list(self.ps)
        return new

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        new = SymMultiDict()
        new.ps = [(k, copy.deepcopy(v, memo)) for k, v in self.ps]
        return new

    def __eq__(self, o):
        if not isinstance_real(o, (SymMultiDict, MultiDict)):
            return NotImplemented
        other = list(o.items())
        if len(other) != len(self.ps):
            return False
        return all(same(a, c) and b == d
                   for (a, b), (c, d) in zip(self.ps, other))

    def __repr__(self):
        return f"<SymMultiDict({self.ps!r})>"


def _pairs(arg):
    if hasattr(arg, "items"):
        return list(arg.items())
    return [(p[0], p[1]) for p in arg]


def install():
    """MultiDict itself is the model (for classes derived from it); to be
    called before pdr is imported"""
    import multidict
    from collections.abc import MutableMapping
    MutableMapping.register(SymMultiDict)
    multidict.MultiDict = SymMultiDict


@ops.handler(countby)
def h_countby(key, seq):
    out = {}
    for x in seq:
        k = ops.call(key, x)
        if isinstance_real(k, Sym) or ops.among_sym(out):
            f = ops.find_key(out, k)
            k = k if f is ops.MISSING else f
        out[k] = out.get(k, 0) + 1
    return out


@ops.handler(MultiDict, always=True)
def h_multidict(*args, **kwargs):
    if core.CUR is not None and core.CUR.state.get("symkeys"):
        return SymMultiDict(*args, **kwargs)
    return MultiDict(*args, **kwargs)
