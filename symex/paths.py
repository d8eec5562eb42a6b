"""
Paths whose last component is symbolic, and directories that hold files with
symbolic names.
"""
from __future__ import annotations

import os
import pathlib

import z3

from . import core, ops, streams, strings
from .core import Sym, isinstance_real, mkbool
from .strings import SymStr

P = pathlib.Path
PACKED = {".gz": "gz", ".bz2": "bz2", ".zip": "zipext"}
CONCRETE = type(P())


def dirs():
    return core.CUR.state.setdefault("dirs", {}) if core.CUR is not None else {}


def split(s):
    """(concrete directory text or '', name) of a path's text"""
    cs = s.cs if isinstance_real(s, SymStr) else tuple(map(ord, s))
    cut = -1
    for i, c in enumerate(cs):
        if type(c) is not int:
            if strings.fork(c == 47):
                raise core.Limit("separator in a symbolic name")
        elif c == 47:
            cut = i
    head, name = cs[:cut + 1], cs[cut + 1:]
    if any(type(c) is not int for c in head):
        raise core.Limit("symbolic directory")
    return "".join(map(chr, head)), SymStr.make(name)


class SymPath(Sym):
    __slots__ = ("dir", "name")

    def __init__(self, d, name):
        self.dir, self.name = d, name      # pathlib.Path, SymStr

    @property
    def __class__(self):
        return CONCRETE

    def to_str_(self):
        d = str(self.dir)
        if d == ".":
            return self.name
        return strings.lift_str(d if d.endswith("/") else d + "/") + self.name

    def concrete(self):
        return P(self.dir, self.name.concrete())

    def __str__(self):
        return str(self.concrete())

    def __fspath__(self):
        raise core.Limit("symbolic path in C code")

    as_posix = to_str_

    def __repr__(self):
        return f"<SymPath {self.dir} {self.name!r}>"

    def __hash__(self):
        return hash((self.dir, self.name))

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SymPath:
            return o.dir == self.dir and self.name == o.name
        if isinstance_real(o, P):
            return o.parent == self.dir and self.name == o.name
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance_real(r, bool) else ~r

    @property
    def parent(self):
        return self.dir

    @property
    def parents(self):
        return (self.dir, *self.dir.parents)

    @property
    def parts(self):
        return (*self.dir.parts, self.name)

    @property
    def suffix(self):
        i = self.name.rfind(".")
        return self.name[i:] if 0 < i < len(self.name) - 1 else ""

    @property
    def suffixes(self):
        name = self.name
        if name.endswith("."):
            return []
        return ["." + s for s in name.lstrip(".").split(".")[1:]]

    @property
    def stem(self):
        i = self.name.rfind(".")
        return self.name[:i] if 0 < i < len(self.name) - 1 else self.name

    def with_suffix(self, suffix):
        return make(self.dir, self.stem + suffix)

    def with_name(self, name):
        return make(self.dir, name)

    def with_stem(self, stem):
        return make(self.dir, stem + self.suffix)

    def __truediv__(self, o):
        raise core.Limit("path below a symbolic name")

    @property
    def _raw_paths(self):
        raise TypeError("symbolic path")

    def __rtruediv__(self, d):
        return SymPath(P(d) / self.dir, self.name)

    def is_absolute(self):
        return self.dir.is_absolute()

    def absolute(self):
        return SymPath(self.dir.absolute(), self.name)

    resolve = expanduser = absolute

    def exists(self):
        return exists(self)

    is_file = exists

    def is_dir(self):
        return False

    def open(self, mode="r", *a, **k):
        return streams.h_open(self, mode, *a, **k)

    def stat(self):
        raise core.Limit("stat of a symbolic path")


def make(d, name):
    if isinstance_real(name, Sym):
        return SymPath(P(d), name)
    return P(d, name)


def h_path(*args):
    d = P()
    for i, a in enumerate(args):
        if type(a) is SymPath:
            head, name = a.dir, a.name
        elif isinstance_real(a, SymStr):
            head, name = split(a)
        else:
            d = d / a
            continue
        d = d / head
        if isinstance_real(name, Sym):
            if i < len(args) - 1:
                raise core.Limit("path below a symbolic name")
            return SymPath(d, name)
        d = d / name
    return d


ops.CALLS[pathlib.Path] = h_path
ops.CALLS[CONCRETE] = h_path
ops.CALLS[os.path.join] = lambda *a: ops.to_str(h_path(*a))
ops.CALLS[os.path.basename] = lambda p: h_path(p).name
ops.CALLS[os.path.dirname] = lambda p: str(h_path(p).parent)
ops.CALLS[os.path.abspath] = lambda p: ops.to_str(h_path(p).absolute())


def listing(d):
    """entries of a directory with symbolic names, or None"""
    return dirs().get(str(d))


def exists(p):
    """is there a file of this name?"""
    ents = listing(p.parent)
    if ents is None:
        if not os.path.isdir(p.parent):
            return False
        return os.path.exists(p.concrete() if isinstance_real(p, Sym) else p)
    terms = []
    for name, _ in ents:
        r = name == p.name
        if r is True:
            return True
        if type(r) is core.SymBool:
            terms.append(r.e)
    return mkbool(z3.simplify(z3.Or(*terms))) if terms else False


def entries(d):
    return [make(d, name) for name, _ in listing(d)]


def h_exists(p):
    q = h_path(p) if isinstance_real(p, Sym) else P(p)
    return exists(q) if isinstance_real(q, Sym) or listing(q.parent) is not None \
        else os.path.exists(p)


for f in (os.path.exists, os.path.isfile):
    ops.ALWAYS[f] = (lambda real: lambda p: h_exists(p) if dirs() else real(p))(f)


def h_listdir(d="."):
    return os.listdir(d) if listing(d) is None else [n for n, _ in listing(d)]


ops.ALWAYS[os.listdir] = h_listdir


def hook(recv, name, args, kwargs):
    if not isinstance_real(recv, P) or isinstance_real(recv, Sym):
        return ops.MISSING
    if name in ("joinpath", "__truediv__") and ops._any_sym(args, {}):
        return h_path(recv, *args)
    if name == "with_name" and ops._any_sym(args, {}):
        return make(recv.parent, args[0])
    if not dirs():
        return ops.MISSING
    if name == "iterdir" and listing(recv) is not None:
        return entries(recv)
    if name in ("exists", "is_file") and listing(recv.parent) is not None:
        return exists(recv)
    return ops.MISSING


ops.HOOKS.append(hook)


def find(fn):
    """the virtual file at a symbolic path (forks on its name), or None"""
    p = h_path(fn) if isinstance_real(fn, Sym) else P(fn)
    ents = listing(p.parent)
    for name, f in ents or ():
        if bool(name == p.name):
            f.packed = None
            for suffix, kind in PACKED.items():
                if bool(name.lower().endswith(suffix)):
                    f.packed = kind
            return f
    if ents is not None:
        raise FileNotFoundError(2, "No such file or directory")
    return None


# directory / name
_fspath = SymStr.__fspath__


def fspath(self):
    if dirs():
        raise TypeError("symbolic path")
    return _fspath(self)


SymStr.__fspath__ = fspath
SymStr.__rtruediv__ = lambda self, d: h_path(d, self)
