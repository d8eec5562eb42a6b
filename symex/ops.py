"""Runtime of rewritten code: proxy-aware versions of C-level operations."""
from __future__ import annotations

import ast as _ast
import builtins
import functools
import io
import math
import operator
import re
import types

import z3

from . import core, strings, symre
from .core import (
    Sym, SymBool, SymInt, SymReal, has_sym, isinstance_real, mkbool, mkint,
)
from .strings import SymBytes, SymStr, _SeqBase

MISSING = object()
CALLS = {}       # function -> handler(*args, **kwargs) (used if any arg is symbolic)
ALWAYS = {}      # function -> handler used on every call
JOINS = []       # bytes.join of symbolic items: f(separator, items)
HOOKS = []       # extra method-call hooks: f(recv, name, args, kwargs)


def _any_sym(args, kwargs):
    for a in args:
        if has_sym(a):
            return True
    for a in kwargs.values():
        if has_sym(a):
            return True
    return False


def key_of(f):
    try:
        hash(f)
    except TypeError:
        return None
    return f


_METH = (types.MethodDescriptorType, types.WrapperDescriptorType,
         types.ClassMethodDescriptorType)


def call(f, /, *args, **kwargs):
    if core.CUR is None:
        return f(*args, **kwargs)
    if type(f) is not types.FunctionType:
        args = forced(args)
    k = key_of(f)
    if k is not None:
        h = ALWAYS.get(k)
        if h is not None:
            return h(*args, **kwargs)
        h = CALLS.get(k)
        if h is not None and _any_sym(args, kwargs):
            return h(*args, **kwargs)
    t = type(f)
    if t is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if t.__name__ == "curry" and hasattr(f, "func"):
        if _any_sym(args, kwargs):
            return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if t in _METH and args and isinstance_real(args[0], Sym):
        if hasattr(args[0], f.__name__):
            return mcall(args[0], f.__name__, *args[1:], **kwargs)
    if t in _METH and args and isinstance_real(args[0], (str, bytes)):
        return mcall(args[0], f.__name__, *args[1:], **kwargs)
    if t is types.BuiltinMethodType and f.__self__ is not None and not isinstance(
        f.__self__, types.ModuleType
    ) and isinstance_real(f.__self__, (str, bytes)):
        return mcall(f.__self__, f.__name__, *args, **kwargs)
    if t is types.MethodType and isinstance_real(f.__self__, re.Pattern):
        return mcall(f.__self__, f.__name__, *args, **kwargs)
    try:
        return f(*args, **kwargs)
    except (TypeError, ValueError, AttributeError) as ex:
        # C code that cannot digest a proxy: concretise the arguments
        if t not in (types.BuiltinFunctionType, types.BuiltinMethodType, type):
            raise
        if not _any_sym(args, kwargs):
            raise
        a2 = [deep_concrete(a) for a in args]
        k2 = {k: deep_concrete(v) for k, v in kwargs.items()}
        return f(*a2, **k2)


def deep_concrete(x, depth=4):
    t = type(x)
    if issubclass(t, Sym):
        if t is SymInt:
            return x.__index__()
        if t is SymBool:
            return bool(x)
        if t is SymReal:
            return float(x)
        if hasattr(x, "concrete"):
            return x.concrete()
        return x
    if depth == 0:
        return x
    if t in (list, tuple, set):
        return t(deep_concrete(i, depth - 1) for i in x)
    if t is dict:
        return {deep_concrete(k): deep_concrete(v, depth - 1) for k, v in x.items()}
    return x


_KEYS = type({}.keys())
_DICTLIKE = {"get", "pop", "__getitem__", "__contains__", "getall", "getone",
             "setdefault"}


def is_mapping(x):
    t = type(x)
    return t is dict or t.__name__ in (
        "MultiDict", "mappingproxy", "OrderedDict", "defaultdict", "CIMultiDict",
        "MultiDictProxy",
    ) or issubclass(t, dict)


def by_key(x):
    """must lookups of a symbolic key compare it with every key?  (In
    const_hash mode symbolic keys find each other by themselves.)"""
    if not core.CUR.const_hash:
        return True
    if type(x) in (dict, types.MappingProxyType, set, frozenset, _KEYS):
        return any(not isinstance_real(k, Sym) for k in x)
    return False


def among_sym(x):
    """must lookups of a concrete key compare it with every key?"""
    return core.CUR.const_hash and type(x) in (dict, set, frozenset, _KEYS) and any(
        isinstance_real(k, Sym) for k in x)


def find_key(mapping, key):
    """concrete key of mapping equal to symbolic key (forks), or MISSING"""
    seen = []
    for k in list(mapping.keys()):
        if any(k is s for s in seen):
            continue
        seen.append(k)
        if type(k) is type(key) or isinstance_real(k, (str, int, float, bytes, tuple)) \
                or isinstance_real(k, Sym):
            if bool(key == k):
                return k
    return MISSING


def mcall(recv, name, /, *args, **kwargs):
    if core.CUR is None:
        return getattr(recv, name)(*args, **kwargs)
    if type(recv) is LazyStr:
        recv = recv.force()
    t = type(recv)
    if t is str or t is bytes:
        args = forced(args)
        if args and name == "join":
            items = list(args[0])
            if any(isinstance_real(i, Sym) for i in items):
                for h in JOINS:
                    r = h(recv, items)
                    if r is not MISSING:
                        return r
                items = [_strlike(i) for i in items]
                return (strings.lift_str if t is str else strings.lift_bytes)(recv).join(items)
            return recv.join(items)
        if name == "format" and _any_sym(args, kwargs):
            return fmt_method(recv, args, kwargs)
        if _any_sym(args, kwargs):
            z = [a for a in args if hasattr(a, "z_lift")]
            if z:
                return getattr(z[0].z_lift(recv), name)(*args, **kwargs)
            lifted = (strings.lift_str if t is str else strings.lift_bytes)(recv)
            return getattr(lifted, name)(*args, **kwargs)
        return getattr(recv, name)(*args, **kwargs)
    if name in _DICTLIKE and args and is_mapping(recv) and \
            (by_key(recv) if isinstance_real(args[0], Sym) else among_sym(recv)):
        k = find_key(recv, args[0])
        if k is MISSING:
            if name == "__contains__":
                return False
            if name in ("__getitem__",) or (
                name in ("pop", "getall", "getone") and len(args) < 2
            ):
                raise KeyError(args[0])
            if name == "setdefault":
                return recv.setdefault(deep_concrete(args[0]), *args[1:])
            return args[1] if len(args) > 1 else kwargs.get("default")
        return getattr(recv, name)(k, *args[1:], **kwargs)
    if t is re.Pattern:
        fn = getattr(re, name, None)
        if fn is not None and _any_sym(args, kwargs):
            if name in ("sub", "subn"):
                return CALLS[fn](recv, *args, **kwargs)
            return CALLS[fn](recv, *args, **kwargs)
    for hook in HOOKS:
        r = hook(recv, name, args, kwargs)
        if r is not MISSING:
            return r
    return call(getattr(recv, name), *args, **kwargs)


def _strlike(x):
    return x


def fmt_method(recv, args, kwargs):
    """'..{}..'.format(...) with auto/explicit simple fields"""
    import string
    out, auto = "", 0
    for lit, field, spec, conv in string.Formatter().parse(recv):
        out = out + lit
        if field is None:
            continue
        if field == "":
            val = args[auto]
            auto += 1
        elif field.isdigit():
            val = args[int(field)]
        elif field in kwargs:
            val = kwargs[field]
        else:
            return recv.format(*[deep_concrete(a) for a in args],
                               **{k: deep_concrete(v) for k, v in kwargs.items()})
        out = out + to_str(val, spec or None)
    return out


# -------------------------------------------------------------- comparisons
def is_(a, b):
    if type(a) is SymBool and isinstance_real(b, bool):
        return mkbool(z3.simplify(a.e if b else z3.Not(a.e)))
    if type(b) is SymBool and isinstance_real(a, bool):
        return is_(b, a)
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return (not r) if isinstance_real(r, bool) else ~r


def in_(a, b):
    if core.CUR is None:
        return a in b
    a, b = force(a), force(b)
    if isinstance_real(b, (str, bytes)) and isinstance_real(a, Sym):
        if hasattr(a, "z_lift"):
            return a.z_lift(b).contains_(a)
        lift = strings.lift_str if isinstance_real(b, str) else strings.lift_bytes
        r = lift(b).contains(a)
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))
    if isinstance_real(b, _SeqBase):
        r = b.contains(a)
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))
    if hasattr(b, "contains_"):
        return b.contains_(a)
    if by_key(b) if isinstance_real(a, Sym) else among_sym(b):
        if is_mapping(b):
            return find_key(b, a) is not MISSING
        if isinstance_real(b, (set, frozenset)) or type(b).__name__ in (
            "dict_keys", "_KeysView", "odict_keys"
        ):
            return any_eq(a, list(b))
    if type(b) in (tuple, list) and (isinstance_real(a, Sym) or any(
        isinstance_real(i, Sym) for i in b
    )):
        return any_eq(a, b)
    return a in b


def any_eq(a, items):
    terms = []
    for i in items:
        if i is a:
            return True
        r = a == i
        if r is True:
            return True
        if type(r) is SymBool:
            terms.append(r.e)
        elif r is False or r is NotImplemented:
            continue
        elif bool(r):
            return True
    if not terms:
        return False
    return mkbool(z3.simplify(z3.Or(*terms)))


def not_in(a, b):
    r = in_(a, b)
    return (not r) if isinstance_real(r, bool) else ~r


def getitem(obj, k):
    if core.CUR is None:
        return obj[k]
    obj, k = force(obj), force(k)
    if is_mapping(obj) and (
            by_key(obj) if isinstance_real(k, Sym) else among_sym(obj)):
        r = find_key(obj, k)
        if r is MISSING:
            raise KeyError(k)
        return obj[r]
    if isinstance_real(k, Sym):
        if isinstance_real(obj, (str, bytes, list, tuple)) and type(k) in (SymInt, SymBool):
            return seq_index(obj, k)
    return obj[k]


def seq_index(obj, k):
    return obj[k.__index__()]


# ------------------------------------------------------------------- strings
def to_str(v, spec=None, conv=-1):
    if isinstance_real(v, Sym):
        if hasattr(v, "to_str_"):
            return v.to_str_()
        if spec in (None, "") or (spec == "d" and type(v) is SymInt):
            if isinstance_real(v, SymStr) and conv != 114:
                return v
            if type(v) is SymInt:
                return strings.sym_str_of_int(v)
        elif type(v) is SymInt and isinstance_real(spec, str):
            m = re.fullmatch(r"0?(\d+)d?", spec)
            if m and spec[0] == "0":
                return strings_z(strings.sym_str_of_int(v), int(m.group(1)))
            if spec in ("b", "x", "o"):
                return strings_slice(strings.sym_bin(v, {"b": 2, "x": 16, "o": 8}[spec]))
            m = re.fullmatch(r"0(\d+)([bxo])", spec)
            if m and m.group(2) == "b":
                return strings.LazyBin(v, 2).zfill(int(m.group(1)))
            if m:
                s = strings_slice(strings.sym_bin(v, {"b": 2, "x": 16, "o": 8}[m.group(2)]))
                return strings_z(s, int(m.group(1)))
        v = deep_concrete(v)
    if has_sym(v):
        # containers: representation is only ever used for messages
        return "<symbolic>"
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    if isinstance_real(spec, Sym):
        spec = deep_concrete(spec)
    return format(v, spec or "")


def strings_z(s, n):
    return s.zfill(n)


def strings_slice(s):
    if isinstance_real(s, SymStr):
        neg = s.startswith("-")
        return s[2:] if not neg else "-" + s[3:]
    return s


class LazyStr(Sym):
    """text containing a symbolic number, formatted only when it is used
    (formatting forks on the number of digits)"""
    __slots__ = ("parts", "text")

    def __init__(self, parts):
        self.parts, self.text = parts, None

    # numpy and pandas: a scalar
    ndim = 0

    def __array__(self, dtype=None, copy=None):
        import numpy as np
        a = np.empty((), object)
        a[()] = self
        return a

    @property
    def __class__(self):
        return str

    def force(self):
        if self.text is None:
            self.text = _fstr(*self.parts)
        return self.text

    def concrete(self):
        return deep_concrete(self.force())

    def to_str_(self):
        return self.force()

    def __getattr__(self, name):
        if name.startswith("z_") or name.endswith("_"):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return bool(self.force())

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return getitem(self.force(), k)

    def __contains__(self, x):
        return in_(x, self.force())

    def __eq__(self, o):
        return self.force() == force(o)

    def __ne__(self, o):
        return self.force() != force(o)

    def __lt__(self, o):
        return self.force() < force(o)

    def __gt__(self, o):
        return self.force() > force(o)

    def __le__(self, o):
        return self.force() <= force(o)

    def __ge__(self, o):
        return self.force() >= force(o)

    def __add__(self, o):
        return self.force() + force(o)

    def __radd__(self, o):
        return o + self.force()

    def __mul__(self, o):
        return self.force() * o


def force(x):
    return x.force() if type(x) is LazyStr else x


def forced(args):
    for a in args:
        if type(a) is LazyStr:
            return [force(a) for a in args]
    return args


def fstr(*parts):
    for p in parts:
        if type(p) is tuple and type(p[0]) in (SymInt, SymReal, LazyStr):
            return LazyStr(parts)
    return _fstr(*parts)


def _fstr(*parts):
    out = ""
    for p in parts:
        if type(p) is tuple:
            out = out + to_str(p[0], p[2], p[1])
        else:
            out = out + p
    return out


def msgstr(*parts):
    """f-string of an exception or warning message"""
    if any(has_sym(p[0]) for p in parts if type(p) is tuple):
        return "<message>"
    return fstr(*parts)


def mod(a, b):
    if isinstance_real(a, (str, bytes)) and has_sym(b):
        if isinstance_real(a, str):
            args = list(b) if isinstance_real(b, tuple) else [b]
            bits = re.split(r"(%[sd])", a)
            if "%" not in "".join(bits[::2]) and len(bits[1::2]) == len(args):
                out = ""
                for i, x in enumerate(bits):
                    out = out + (x if i % 2 == 0 else to_str(args[i // 2]))
                return out
        return a % deep_concrete(b)
    return a % b


# ------------------------------------------------------------- call handlers
def handler(*fs, always=False):
    def deco(h):
        for f in fs:
            (ALWAYS if always else CALLS)[f] = h
        return h
    return deco


@handler(builtins.int)
def h_int(x=0, base=MISSING):
    if base is not MISSING:
        if isinstance_real(x, _SeqBase):
            return strings.sym_int_of_str(x, base)
        return int(x, deep_concrete(base))
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x._int()
    if type(x) is SymReal:
        return x.trunc()
    if isinstance_real(x, _SeqBase):
        return strings.sym_int_of_str(x, 10)
    if hasattr(x, "to_int_"):
        return x.to_int_()
    return int(deep_concrete(x))


# ------------------------------------------- numbers standing for symbols
TOKEN = re.compile(r"(?<!\d)99000\d{4}(?!\d)")


def tokens():
    return core.CUR.state.get("placeholders")


def untoken(v):
    """replace placeholder numbers in a concrete literal"""
    ph = tokens()
    t = type(v)
    if t in (int, float):
        if t is float and v != v:
            return v
        n = ph.get(str(abs(int(v)))) if v in (int(v), ) and abs(v) < 1e12 \
            else None
        if n is None:
            return v
        return n if v > 0 else -n
    if t is str:
        return v
    if t in (tuple, list):
        return t(untoken(i) for i in v)
    if t in (set, frozenset):
        return t(untoken(i) for i in v)
    if t is dict:
        return {k: untoken(i) for k, i in v.items()}
    return v


def _token_conv(f):
    def h(*a, **k):
        if a and not has_sym(a[0]) and isinstance_real(a[0], str) and tokens() \
                and TOKEN.search(a[0]):
            return untoken(f(*a, **k))
        if _any_sym(a, k) and f in CALLS:
            return CALLS[f](*a, **k)
        return f(*a, **k)
    ALWAYS[f] = h


_token_conv(builtins.int)
_token_conv(builtins.float)
_token_conv(_ast.literal_eval)


@handler(builtins.float)
def h_float(x=0.0):
    if type(x) is SymReal:
        return x
    if type(x) is SymInt:
        return SymReal(z3.ToReal(x.e))
    if type(x) is SymBool:
        return SymReal(z3.ToReal(x._int().e))
    if isinstance_real(x, _SeqBase):
        return strings.sym_float_of_str(x)
    return float(deep_concrete(x))


@handler(builtins.bool)
def h_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) in (SymInt, SymReal):
        return x != 0
    return bool(x)


@handler(operator.truth)
def h_truth(x):
    return h_bool(x)


@handler(operator.not_)
def h_not(x):
    return not x


@handler(builtins.str)
def h_str(x="", *a):
    if isinstance_real(x, SymBytes) and a:
        return x.decode(*a)
    return to_str(x)


@handler(builtins.repr)
def h_repr(x):
    if type(x) is SymInt:
        return strings.sym_str_of_int(x)
    if has_sym(x) and not isinstance_real(x, Sym):
        return "<symbolic>"
    return repr(deep_concrete(x))


@handler(builtins.format)
def h_format(x, spec=""):
    return to_str(x, spec)


@handler(builtins.bytes)
def h_bytes(x=b"", *a):
    if isinstance_real(x, SymBytes):
        return x
    if isinstance_real(x, (list, tuple)):
        return SymBytes.make([
            c.e if type(c) is SymInt else int(c) for c in x])
    return bytes(deep_concrete(x), *a)


@handler(builtins.len)
def h_len(x):
    if hasattr(x, "len_"):
        return x.len_()
    return len(x)


@handler(builtins.type)
def h_type(x, *a):
    if a:
        return type(x, *a)
    return x.__class__ if isinstance_real(x, Sym) else type(x)


@handler(builtins.bin)
def h_bin(x):
    return strings.LazyBin(x)


@handler(builtins.hex)
def h_hex(x):
    return strings.sym_bin(x, 16)


@handler(builtins.oct)
def h_oct(x):
    return strings.sym_bin(x, 8)


@handler(builtins.ord)
def h_ord(x):
    c = x.cs[0]
    return c if type(c) is int else SymInt(c)


@handler(builtins.chr)
def h_chr(x):
    return SymStr.make((x.e,))


@handler(builtins.divmod)
def h_divmod(a, b):
    return a // b, a % b


@handler(builtins.round)
def h_round(x, n=None):
    if type(x) is SymReal and n is not None:
        return round(float(x), n)
    return x.__round__() if isinstance_real(x, Sym) else round(x, n)


@handler(builtins.abs)
def h_abs(x):
    return abs(x)


@handler(builtins.sum)
def h_sum(xs, start=0):
    out = start
    for x in xs:
        out = out + x
    return out


def _minmax(better):
    def h(*args, key=None, default=MISSING):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError("empty sequence")
        if key is None and all(
            type(x) is SymInt or (isinstance_real(x, int)) for x in xs
        ):
            out = core.zint(xs[0])
            for x in xs[1:]:
                v = core.zint(x)
                out = z3.If(v < out if better == "<" else v > out, v, out)
            return mkint(z3.simplify(out))
        best = xs[0]
        bk = call(key, best) if key else best
        for x in xs[1:]:
            kx = call(key, x) if key else x
            if (kx < bk) if better == "<" else (kx > bk):
                best, bk = x, kx
        return best
    return h


CALLS[builtins.min] = _minmax("<")
CALLS[builtins.max] = _minmax(">")


@handler(builtins.map, always=True)
def h_map(f, *its):
    return (call(f, *a) for a in zip(*its)) if len(its) > 1 else (
        call(f, a) for a in its[0]
    )


@handler(builtins.filter, always=True)
def h_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


@handler(builtins.any, always=True)
def h_any(it):
    for x in it:
        if x:
            return True
    return False


@handler(builtins.sorted)
def h_sorted(xs, key=None, reverse=False):
    out = []
    for x in xs:
        kx = call(key, x) if key else x
        i = len(out)
        if reverse:
            while i > 0 and out[i - 1][0] < kx:
                i -= 1
        else:
            while i > 0 and kx < out[i - 1][0]:
                i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]


@handler(functools.reduce, always=True)
def h_reduce(f, xs, *init):
    xs = iter(xs)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(xs)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in xs:
        acc = call(f, acc, x)
    return acc


@handler(operator.contains)
def h_contains(a, b):
    return in_(b, a)


@handler(operator.is_)
def h_is(a, b):
    return is_(a, b)


@handler(operator.getitem)
def h_getitem(a, b):
    return getitem(a, b)


@handler(math.ceil)
def h_ceil(x):
    return x.__ceil__()


@handler(math.floor)
def h_floor(x):
    return x.__floor__()


@handler(math.trunc)
def h_trunc(x):
    return x.__trunc__()


@handler(math.isnan)
def h_isnan(x):
    return False


@handler(math.prod)
def h_prod(xs, start=1):
    out = start
    for x in xs:
        out = out * x
    return out


# re
def _re(mode):
    def h(pattern, s, flags=0, **kw):
        if hasattr(s, "re_"):
            return s.re_(mode, pattern, flags)
        if not isinstance_real(s, _SeqBase):
            return getattr(re, mode)(deep_concrete(pattern), deep_concrete(s), flags)
        try:
            return symre.sym_match(pattern, s, flags, mode)
        except symre.Unsupported as ex:
            core.CUR.note(f"regex concretised: {ex}")
            return getattr(re, mode)(pattern, s.concrete(), flags)
    return h


for _m in ("match", "search", "fullmatch"):
    CALLS[getattr(re, _m)] = _re(_m)


@handler(re.sub)
def h_sub(pattern, repl, s, count=0, flags=0):
    if hasattr(s, "re_"):
        return re.sub(pattern, repl, s.concrete(), count, flags)
    if hasattr(s, "lacks"):
        return s.lacks(pattern, flags)
    if not isinstance_real(s, _SeqBase):
        return re.sub(pattern, deep_concrete(repl), s, count, flags)
    return symre.sym_sub(pattern, repl, s, count, flags)


@handler(re.findall)
def h_findall(pattern, s, flags=0):
    if hasattr(s, "re_"):
        s = s.concrete()
        return re.findall(pattern, s, flags)
    return symre.sym_findall(pattern, s, flags)


@handler(re.finditer)
def h_finditer(pattern, s, flags=0):
    return iter(symre.sym_finditer(pattern, s, flags))


@handler(re.split)
def h_split(pattern, s, maxsplit=0, flags=0):
    return symre.sym_split(pattern, s, maxsplit, flags)


# ------------------------------------------------------------- literal_eval
DEBUG_BAIL = False


class _Lit:
    """Python-literal grammar over symbolic strings (subset: numbers, quoted
    strings without escapes, tuples/lists/sets, True/False/None, unary +/-).
    Anything else is decided by the real parser on the concretised text."""

    def __init__(self, s):
        self.s, self.cs, self.i, self.brace = s, s.cs, 0, False

    def is_(self, chars):
        if self.i >= len(self.cs):
            return False
        return strings.fork(strings.disj(
            [strings.ceq(self.cs[self.i], ord(c)) for c in chars]))

    def digit(self):
        return self.i < len(self.cs) and strings.fork(
            strings.in_ranges(self.cs[self.i], strings.DIGIT))

    def ws(self):
        while self.is_(" \t"):
            self.i += 1

    def fail(self):
        raise SyntaxError("invalid syntax")

    def bail(self):
        if DEBUG_BAIL:
            import traceback
            traceback.print_stack(limit=4)
        raise _Bail()

    def top(self):
        # leading spaces/tabs are stripped by literal_eval
        while self.is_(" \t"):
            self.i += 1
        v = self.tuple_body(end=None)
        self.ws()
        if self.i < len(self.cs):
            self.leftover()
        return v

    def leftover(self, end=None):
        """text after a complete literal: an error, except in a few cases
        that are left to the real parser"""
        if self.is_("#") and end is not None and not any(
                strings.fork(strings.disj([strings.ceq(c, 10), strings.ceq(c, 13)]))
                for c in self.cs[self.i:]):
            self.fail()         # the bracket is never closed
        if self.is_("#\\\n\r\f\"'" + (":" if self.brace else "")):
            self.bail()
        if self.is_("+-") and any(strings.fork(strings.disj(
                [strings.ceq(c, 74), strings.ceq(c, 106)])) for c in self.cs):
            self.bail()         # complex numbers
        self.fail()

    def word(self):
        """a name: never part of a literal, except for a few words that are
        left to the real parser.  (Whether it is a SyntaxError or a
        ValueError is not distinguished.)"""
        rest = self.cs[self.i:]
        for k in ("True", "False", "None", "set"):
            n = len(k)
            if len(rest) < n:
                continue
            c = [strings.ceq(x, ord(y)) for x, y in zip(rest, k)]
            if len(rest) > n:
                c.append(strings.disj([
                    strings.ceq(rest[n], ord(x)) for x in (
                        " \t(" if k == "set" else " \t,()[]{}#\"'\n\r"
                        + (":" if self.brace else ""))]))
            elif k == "set":
                continue
            if all(strings.fork(x) for x in c):
                if k == "set":          # only set() is a literal
                    self.i += 3
                    self.ws()
                    if not self.is_("("):
                        self.fail()
                self.bail()
        q = [strings.disj([strings.ceq(x, 34), strings.ceq(x, 39)]) for x in rest[:3]]
        al = [strings.in_ranges(x, strings.ALPHA) for x in rest[:2]]
        if len(rest) > 1 and strings.fork(q[1]) or \
                len(rest) > 2 and strings.fork(q[2]) and strings.fork(al[1]):
            self.bail()         # string prefix
        self.fail()

    def tuple_body(self, end, raw=False):
        items, comma = [], False
        self.ws()
        while True:
            self.ws()
            if self.i >= len(self.cs):
                if end is not None or not items:
                    self.fail()
                break
            if end is not None and self.is_(end):
                break
            items.append(self.value())
            self.ws()
            if self.is_(","):
                comma = True
                self.i += 1
                continue
            break
        if end is not None:
            if self.i >= len(self.cs):
                self.fail()
            if not self.is_(end):
                self.leftover(end)
            self.i += 1
        if raw:
            return items
        if comma or (not items):
            return tuple(items)
        return items[0]

    def value(self):
        self.ws()
        if self.i >= len(self.cs):
            self.fail()
        if self.is_("+-"):
            m = self.is_("-")
            self.i += 1
            self.ws()
            if not (self.digit() or self.is_(".")):
                self.bail()
            v = self.number()
            return -v if m else v
        if self.digit() or self.is_("."):
            return self.number()
        if self.is_("\"'"):
            q = '"' if self.is_('"') else "'"
            self.i += 1
            if self.is_(q):
                self.i += 1
                if self.is_(q):
                    self.bail()
                out = ()
            else:
                st = self.i
                while True:
                    if self.i >= len(self.cs):
                        self.fail()
                    if self.is_("\\"):
                        self.bail()
                    if self.is_("\n\r"):
                        self.fail()
                    if self.is_(q):
                        break
                    self.i += 1
                out = self.cs[st:self.i]
                self.i += 1
            self.ws()
            if self.is_("\"'"):
                self.bail()
            return SymStr.make(out)
        if self.is_("("):
            self.i += 1
            return self.tuple_body(")")
        if self.is_("{["):
            br = self.is_("{")
            self.brace = self.brace or br
            self.i += 1
            body = self.tuple_body("}" if br else "]", raw=True)
            if not br:
                return body
            return set_of(body) if body else {}
        if strings.fork(strings.disj([
                strings.in_ranges(self.cs[self.i], strings.ALPHA),
                strings.ceq(self.cs[self.i], 95)])):
            self.word()
        if self.is_("~.[({\\#\n\r\f") or strings.fork(
                strings.in_ranges(self.cs[self.i], ((127, 0x110000),))):
            self.bail()
        self.fail()

    def number_word(self, prefix):
        """digits followed by a letter or underscore"""
        if self.is_("_jJ") or prefix and self.is_("xXoObB"):
            self.bail()
        self.fail()

    def number(self):
        st = self.i
        zero = lambda: strings.fork(strings.ceq(self.cs[st], 48))
        while self.digit():
            self.i += 1
        intpart = self.cs[st:self.i]
        isfloat = False
        if self.is_("."):
            isfloat = True
            self.i += 1
            fs = self.i
            while self.digit():
                self.i += 1
            if not intpart and self.i == fs:
                self.fail()
        if self.is_("eE"):
            self.i += 1
            if self.is_("+-"):
                self.i += 1
            es = self.i
            while self.digit():
                self.i += 1
            if self.i == es:
                self.bail()
            isfloat = True
        if self.i < len(self.cs) and strings.fork(strings.disj([
            strings.in_ranges(self.cs[self.i], strings.ALPHA),
            strings.ceq(self.cs[self.i], 95)])):
            self.number_word(self.i - st == 1 and zero())
        text = SymStr.make(self.cs[st:self.i])
        if isfloat:
            return call(float, text)
        if len(intpart) > 1 and zero():
            # 00 is legal, 01 is not
            if not strings.fork(strings.conj([
                strings.ceq(c, 48) for c in intpart])):
                self.fail()
            return 0
        return call(int, text)


class _Bail(Exception):
    pass


def set_of(items):
    return h_set(items)


@handler(_ast.literal_eval)
def h_literal_eval(x):
    if not isinstance_real(x, SymStr):
        return _ast.literal_eval(deep_concrete(x))
    try:
        return _Lit(x).top()
    except _Bail:
        return _ast.literal_eval(x.concrete())


@handler(builtins.isinstance)
def h_isinstance(x, c):
    return isinstance(x, c)


@handler(builtins.zip, always=True)
def h_zip(*its, **kw):
    return zip(*its, **kw)


@handler(builtins.enumerate, always=True)
def h_enumerate(it, start=0):
    return enumerate(it, start)


def set_add(s, x):
    s.add(x)


import warnings as _warnings


@handler(_warnings.warn, always=True)
def h_warn(message, *a, **k):
    # messages are not part of any property; keep real control flow
    return _warnings.warn("symbolic" if has_sym(message) else message, *a, **k)


@handler(builtins.set)
def h_set(xs=()):
    """Sets of proxies: distinctness decided by forking equality."""
    out = []
    for x in xs:
        if not any(bool(x == y) for y in out):
            out.append(x)
    if any(isinstance_real(o, Sym) for o in out):
        return SymSet(out)
    return set(out)


CALLS[builtins.frozenset] = h_set


class SymSet(Sym):
    """Minimal set over proxies."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    @property
    def __class__(self):
        return set

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __bool__(self):
        return bool(self.items)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.items)

    def contains_(self, x):
        return any_eq(x, self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def pop(self):
        return self.items.pop()

    def __eq__(self, o):
        o = list(o)
        return len(o) == len(self.items) and all(
            any(bool(a == b) for b in o) for a in self.items)

    def union(self, *os):
        out = SymSet(self.items)
        for o in os:
            for x in o:
                out.add(x)
        return out

    __or__ = union

    def difference(self, *os):
        return SymSet([x for x in self.items if not any(
            bool(x == y) for o in os for y in o)])

    __sub__ = difference

    def intersection(self, *os):
        return SymSet([x for x in self.items if all(
            any(bool(x == y) for y in o) for o in os)])

    __and__ = intersection

    def concrete(self):
        return {deep_concrete(i) for i in self.items}
