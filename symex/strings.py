"""
Symbolic strings: concrete length, each character a Python int or a z3 Int
(code point).  ASCII semantics; harnesses restrict alphabets accordingly.
"""
from __future__ import annotations

import z3

from . import core
from .core import Sym, SymInt, mkbool, mkint, isinstance_real

WS = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32)
BWS = (9, 10, 11, 12, 13, 32)
LINEBREAKS = (10, 11, 12, 13, 28, 29, 30)


def ceq(a, b):
    """equality of two characters -> python bool or z3 Bool"""
    if type(a) is int and type(b) is int:
        return a == b
    return a == b


def conj(parts):
    out = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return False
        out.append(p)
    if not out:
        return True
    return z3.And(*out) if len(out) > 1 else out[0]


def disj(parts):
    out = []
    for p in parts:
        if p is False:
            continue
        if p is True:
            return True
        out.append(p)
    if not out:
        return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def neg(p):
    return (not p) if isinstance(p, bool) else z3.Not(p)


def in_ranges(c, ranges):
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    return disj([
        (c == lo) if lo == hi else z3.And(c >= lo, c <= hi)
        for lo, hi in ranges
    ])


def fork(p):
    if isinstance(p, bool):
        return p
    return core.CUR.decide(p)


DIGIT = ((48, 57),)
UPPER = ((65, 90),)
LOWER = ((97, 122),)
ALPHA = UPPER + LOWER
ALNUM = DIGIT + ALPHA
SPACE = tuple((c, c) for c in WS)


def c_upper(c):
    if type(c) is int:
        return ord(chr(c).upper()) if c < 128 else c
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def c_lower(c):
    if type(c) is int:
        return ord(chr(c).lower()) if c < 128 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


class _SeqBase(Sym):
    __slots__ = ("cs",)
    real = None   # str or bytes

    def __init__(self, cs):
        self.cs = tuple(cs)

    # conversion helpers
    @classmethod
    def chars(cls, x):
        """tuple of chars of a str-like x, or None"""
        if type(x) is cls:
            return x.cs
        if cls.real is str and isinstance_real(x, str):
            return tuple(map(ord, x))
        if cls.real is bytes and isinstance_real(x, (bytes, bytearray, memoryview)):
            return tuple(bytes(x))
        return None

    @classmethod
    def make(cls, cs):
        if all(type(c) is int for c in cs):
            return cls.from_ints(cs)
        return cls(cs)

    def concrete(self):
        out = []
        for c in self.cs:
            if type(c) is int:
                out.append(c)
            else:
                out.append(core.CUR.pick(c, core.py_int, cap=256))
        return self.from_ints(out)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __hash__(self):
        if core.CUR is not None and core.CUR.const_hash:
            return 7
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return f"<{type(self).__name__} {self.cs}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def eq(self, o):
        cs = self.chars(o)
        if cs is None or len(cs) != len(self.cs):
            return False
        return conj([ceq(a, b) for a, b in zip(self.cs, cs)])

    def __eq__(self, o):
        r = self.eq(o)
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def __ne__(self, o):
        r = neg(self.eq(o))
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def _lt(self, o, orequal):
        cs = self.chars(o)
        if cs is None:
            raise TypeError("'<' not supported")
        n = min(len(cs), len(self.cs))
        tail = (len(self.cs) < len(cs)) or (orequal and len(self.cs) == len(cs))
        r = z3.BoolVal(tail)
        for a, b in reversed(list(zip(self.cs[:n], cs[:n]))):
            a = z3.IntVal(a) if type(a) is int else a
            b = z3.IntVal(b) if type(b) is int else b
            r = z3.Or(a < b, z3.And(a == b, r))
        return mkbool(z3.simplify(r))

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        r = self._lt(o, True)
        return (not r) if isinstance_real(r, bool) else ~r

    def __ge__(self, o):
        r = self._lt(o, False)
        return (not r) if isinstance_real(r, bool) else ~r

    def __add__(self, o):
        cs = self.chars(o)
        if cs is None:
            return NotImplemented
        return self.make(self.cs + cs)

    def __radd__(self, o):
        cs = self.chars(o)
        if cs is None:
            return NotImplemented
        return self.make(cs + self.cs)

    def __mul__(self, n):
        return self.make(self.cs * n.__index__())

    __rmul__ = __mul__

    # searching
    def match_at(self, i, sub):
        if i < 0 or i + len(sub) > len(self.cs):
            return False
        return conj([ceq(a, b) for a, b in zip(self.cs[i:i + len(sub)], sub)])

    def _sub(self, x):
        if self.real is bytes and isinstance_real(x, int):
            return (x,)
        cs = self.chars(x)
        if cs is None:
            raise TypeError(f"must be {self.real.__name__}, not {type(x)}")
        return cs

    def __contains__(self, x):
        return fork(self.contains(x))

    def contains(self, x):
        sub = self._sub(x)
        return disj([
            self.match_at(i, sub) for i in range(len(self.cs) - len(sub) + 1)
        ])

    def _bounds(self, start, end):
        s, e, _ = slice(start, end).indices(len(self.cs))
        return s, e

    def find(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if fork(self.match_at(i, sub)):
                return i
        return -1

    def rfind(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if fork(self.match_at(i, sub)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, x, start=None, end=None):
        sub = self._sub(x)
        s, e = self._bounds(start, end)
        if len(sub) == 1:
            terms = [self.match_at(i, sub) for i in range(s, e)]
            n = sum(1 for t in terms if t is True)
            sym = [z3.If(t, 1, 0) for t in terms if not isinstance(t, bool)]
            return mkint(z3.simplify(z3.IntVal(n) + sum(sym))) if sym else n
        n, i = 0, s
        while i <= e - len(sub):
            if fork(self.match_at(i, sub)):
                n += 1
                i += max(len(sub), 1)
            else:
                i += 1
        return n

    def startswith(self, x, start=0, end=None):
        if isinstance_real(x, tuple):
            r = disj([self._sw(y, start, end) for y in x])
        else:
            r = self._sw(x, start, end)
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def _sw(self, x, start, end):
        s, e = self._bounds(start, end)
        sub = self._sub(x)
        if len(sub) > e - s:
            return False
        return self.match_at(s, sub)

    def endswith(self, x, start=0, end=None):
        s, e = self._bounds(start, end)

        def one(y):
            sub = self._sub(y)
            if len(sub) > e - s:
                return False
            return self.match_at(e - len(sub), sub)
        r = disj([one(y) for y in x]) if isinstance_real(x, tuple) else one(x)
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    # splitting / stripping
    def _stripset(self, chars):
        if chars is None:
            return WS if self.real is str else BWS
        return self._sub(chars)

    def lstrip(self, chars=None):
        st = self._stripset(chars)
        i = 0
        while i < len(self.cs) and fork(disj([ceq(self.cs[i], c) for c in st])):
            i += 1
        return self.make(self.cs[i:])

    def rstrip(self, chars=None):
        st = self._stripset(chars)
        j = len(self.cs)
        while j > 0 and fork(disj([ceq(self.cs[j - 1], c) for c in st])):
            j -= 1
        return self.make(self.cs[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            ws = WS if self.real is str else BWS
            out, curw = [], []
            n = len(self.cs)
            i = 0
            while i < n:
                c = self.cs[i]
                if fork(disj([ceq(c, w) for w in ws])):
                    if curw:
                        out.append(self.make(curw))
                        curw = []
                else:
                    if not curw and maxsplit >= 0 and len(out) >= maxsplit:
                        rest = self.make(self.cs[i:]).rstrip()
                        out.append(rest)
                        return out
                    curw.append(c)
                i += 1
            if curw:
                out.append(self.make(curw))
            return out
        sub = self._sub(sep)
        if not sub:
            raise ValueError("empty separator")
        out, start, i = [], 0, 0
        while i <= len(self.cs) - len(sub):
            if (maxsplit < 0 or len(out) < maxsplit) and fork(self.match_at(i, sub)):
                out.append(self.make(self.cs[start:i]))
                i += len(sub)
                start = i
            else:
                i += 1
        out.append(self.make(self.cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.concrete().rsplit(sep, maxsplit)
        sub = self._sub(sep)
        out, end = [], len(self.cs)
        i = end - len(sub)
        while i >= 0:
            if len(out) < maxsplit and fork(self.match_at(i, sub)) and i + len(sub) <= end:
                out.append(self.make(self.cs[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(self.make(self.cs[:end]))
        return out[::-1]

    def splitlines(self, keepends=False):
        breaks = LINEBREAKS if self.real is str else (10, 13)
        out, start, i = [], 0, 0
        n = len(self.cs)
        while i < n:
            if fork(disj([ceq(self.cs[i], b) for b in breaks])):
                e = i + 1
                if e < n and fork(conj([ceq(self.cs[i], 13), ceq(self.cs[e], 10)])):
                    e += 1
                out.append(self.make(self.cs[start:e if keepends else i]))
                start = i = e
            else:
                i += 1
        if start < n:
            out.append(self.make(self.cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self.make(self.cs), self.from_ints(()), self.from_ints(())
        k = len(self._sub(sep))
        return (self.make(self.cs[:i]), self.make(self.cs[i:i + k]),
                self.make(self.cs[i + k:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.from_ints(()), self.from_ints(()), self.make(self.cs)
        k = len(self._sub(sep))
        return (self.make(self.cs[:i]), self.make(self.cs[i:i + k]),
                self.make(self.cs[i + k:]))

    def replace(self, old, new, count=-1):
        o, nw = self._sub(old), self._sub(new)
        if not o:
            return self.from_ints(self.concrete().replace(old, new, count).encode()) \
                if self.real is bytes else self.concrete().replace(old, new, count)
        if len(o) == 1 and len(nw) == 1 and count < 0:
            out = []
            for c in self.cs:
                e = ceq(c, o[0])
                if e is True:
                    out.append(nw[0])
                elif e is False:
                    out.append(c)
                else:
                    out.append(z3.If(e, z3.IntVal(nw[0]) if type(nw[0]) is int else nw[0], c))
            return self.make(out)
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and fork(self.match_at(i, o)):
                out.extend(nw)
                i += len(o)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return self.make(out)

    def removeprefix(self, p):
        return self.make(self.cs[len(self._sub(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        k = len(self._sub(p))
        return self.make(self.cs[:len(self.cs) - k]) if (k and self.endswith(p)) else self

    def upper(self):
        return self.make(tuple(map(c_upper, self.cs)))

    def lower(self):
        return self.make(tuple(map(c_lower, self.cs)))

    casefold = lower

    def _all(self, ranges):
        if not self.cs:
            return False
        r = conj([in_ranges(c, ranges) for c in self.cs])
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def isdigit(self):
        return self._all(DIGIT)

    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALNUM)

    def isspace(self):
        return self._all(SPACE)

    def _cased(self, want, other):
        has = disj([in_ranges(c, want) for c in self.cs])
        no = conj([neg(in_ranges(c, other)) for c in self.cs])
        r = conj([has, no])
        return r if isinstance(r, bool) else mkbool(z3.simplify(r))

    def isupper(self):
        return self._cased(UPPER, LOWER)

    def islower(self):
        return self._cased(LOWER, UPPER)

    def isidentifier(self):
        return self.concrete().isidentifier()

    def isascii(self):
        return True

    def zfill(self, width):
        width = width.__index__()
        if len(self.cs) >= width:
            return self
        pad = width - len(self.cs)
        if self.cs and fork(disj([ceq(self.cs[0], 43), ceq(self.cs[0], 45)])):
            return self.make((self.cs[0],) + (48,) * pad + self.cs[1:])
        return self.make((48,) * pad + self.cs)

    def _fillc(self, fill):
        return self._sub(fill)[0] if fill is not None else 32

    def ljust(self, width, fill=None):
        pad = max(0, width.__index__() - len(self.cs))
        return self.make(self.cs + (self._fillc(fill),) * pad)

    def rjust(self, width, fill=None):
        pad = max(0, width.__index__() - len(self.cs))
        return self.make((self._fillc(fill),) * pad + self.cs)

    def join(self, items):
        out = []
        for i, it in enumerate(items):
            if i:
                out.extend(self.cs)
            cs = self.chars(it)
            if cs is None:
                raise TypeError("sequence item: expected str instance")
            out.extend(cs)
        return self.make(out)


class SymStr(_SeqBase):
    __slots__ = ()
    real = str

    @property
    def __class__(self):
        return str

    @staticmethod
    def from_ints(cs):
        return "".join(map(chr, cs))

    def __getitem__(self, k):
        if isinstance_real(k, slice):
            return self.make(self.cs[k])
        return self.make((self.cs[k.__index__()],))

    def __iter__(self):
        for c in self.cs:
            yield self.make((c,))

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def encode(self, *a, **k):
        return SymBytes.make(self.cs)

    def capitalize(self):
        return self.make(tuple(
            c_upper(c) if i == 0 else c_lower(c) for i, c in enumerate(self.cs)
        ))

    def __mod__(self, o):
        return self.concrete() % o

    def __fspath__(self):
        return self.concrete()


class SymBytes(_SeqBase):
    __slots__ = ()
    real = bytes

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def from_ints(cs):
        return bytes(cs)

    def __getitem__(self, k):
        if isinstance_real(k, slice):
            return self.make(self.cs[k])
        c = self.cs[k.__index__()]
        return c if type(c) is int else SymInt(c)

    def __iter__(self):
        for c in self.cs:
            yield c if type(c) is int else SymInt(c)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding if isinstance_real(encoding, str) else str(encoding)
        if enc.lower().replace("-", "").replace("_", "") in (
            "ascii", "utf8", "usascii"
        ):
            for c in self.cs:
                if type(c) is int:
                    if c >= 128:
                        return self.concrete().decode(encoding, errors)
                elif fork(c >= 128):
                    return self.concrete().decode(encoding, errors)
            return SymStr.make(self.cs)
        if enc.lower().replace("-", "").replace("_", "") in ("iso88591", "latin1"):
            # operations with other semantics for non-ASCII characters (such
            # as strip) would show in the replay
            return SymStr.make(self.cs)
        return self.concrete().decode(encoding, errors)

    def tobytes(self):
        return self

    def __bytes__(self):
        return self.concrete()


def lift_str(x):
    return SymStr(tuple(map(ord, x)))


def lift_bytes(x):
    return SymBytes(tuple(x))


# ------------------------------------------------------------- conversions
def digits_value(c):
    """value of a digit character in base 36, as z3/py int (unchecked)"""
    if type(c) is int:
        return int(chr(c), 36)
    return z3.If(c <= 57, c - 48, z3.If(c <= 90, c - 55, c - 87))


def sym_int_of_str(s, base=10):
    """int(SymStr, base) with Python's grammar (ASCII, base 2..36 or 0)."""
    if isinstance_real(s, _SeqBase):
        t = s.strip()
    else:
        return int(s, base)
    if not isinstance_real(t, _SeqBase):
        return int(t, base)
    base = base.__index__()
    cs = list(t.cs)
    bad = ValueError("invalid literal for int()")
    if base != 0 and not (2 <= base <= 36):
        raise ValueError("int() base must be >= 2 and <= 36, or 0")
    sign = 1
    if cs and fork(disj([ceq(cs[0], 43), ceq(cs[0], 45)])):
        if fork(ceq(cs[0], 45)):
            sign = -1
        cs = cs[1:]
    pre = {2: "bB", 8: "oO", 16: "xX"}.get(base, "")
    if base == 0 or (pre and len(cs) > 2 and fork(
            disj([ceq(cs[1], ord(p)) for p in pre])) and fork(ceq(cs[0], 48))):
        return int(t.concrete(), base)
    if not cs:
        raise bad
    if fork(disj([ceq(c, 95) for c in cs])):
        return int(t.concrete(), base)
    hi = base - 1
    if hi < 10:
        ranges = ((48, 48 + hi),)
    else:
        ranges = (DIGIT[0], (65, 65 + hi - 10), (97, 97 + hi - 10))
    if not fork(conj([in_ranges(c, ranges) for c in cs])):
        raise bad
    val = 0
    for c in cs:
        val = val * base + digits_value(c)
    if type(val) is int:
        return sign * val
    return mkint(z3.simplify(sign * val))


def sym_float_of_str(s):
    """float(SymStr): decimal grammar; exponent concretised."""
    t = s.strip()
    if not isinstance_real(t, _SeqBase):
        return float(t)
    cs = list(t.cs)
    bad = ValueError("could not convert string to float")
    sign = 1
    if cs and fork(disj([ceq(cs[0], 43), ceq(cs[0], 45)])):
        if fork(ceq(cs[0], 45)):
            sign = -1
        cs = cs[1:]
    if not cs:
        raise bad
    # nan/inf/underscore and friends: concrete
    if fork(disj([in_ranges(c, ((73, 73), (78, 78), (105, 105), (110, 110), (95, 95)))
                  for c in cs])):
        return float(t.concrete())
    mant, frac, nd, i, seen = 0, False, 0, 0, 0
    exp = 0
    while i < len(cs):
        c = cs[i]
        if fork(in_ranges(c, DIGIT)):
            mant = mant * 10 + digits_value(c)
            seen += 1
            if frac:
                nd += 1
        elif not frac and fork(ceq(c, 46)):
            frac = True
        elif seen and fork(disj([ceq(c, 101), ceq(c, 69)])):
            e = cs[i + 1:]
            if not e:
                raise bad
            es = SymStr.make(e)
            exp = es.__index__() if isinstance_real(es, SymInt) else None
            ev = sym_int_of_str(es, 10) if isinstance_real(es, _SeqBase) else int(es)
            exp = ev.__index__()
            i = len(cs)
            break
        else:
            raise bad
        i += 1
    if not seen:
        raise bad
    m = z3.IntVal(mant) if type(mant) is int else mant
    e = exp - nd
    if abs(e) > 40:
        core.CUR.note("float exponent bound")
        raise core.PathCut()
    scale = z3.RealVal(10 ** abs(e))
    r = z3.ToReal(m) * sign
    r = r * scale if e >= 0 else r / scale
    return core.SymReal(z3.simplify(r))


def sym_str_of_int(x):
    """str(SymInt): forks on sign and number of digits; digits stay symbolic."""
    e = x.e
    sign = ()
    if fork(e < 0):
        sign = (45,)
        e = -e
    n = 1
    while not fork(e < 10 ** n):
        n += 1
        if n > 24:
            core.CUR.note("str(int) digit bound")
            raise core.PathCut()
    cs = []
    for k in range(n - 1, -1, -1):
        d = z3.simplify((e / (10 ** k)) % 10 + 48)
        cs.append(d.as_long() if z3.is_int_value(d) else d)
    return SymStr.make(sign + tuple(cs))


class LazyBin(SymStr):
    """bin(x) less its first `skip` characters: forks on the number of digits
    unless zero-padded to a width that every value fits"""
    __slots__ = ("x", "skip", "full")

    def __init__(self, x, skip=0):
        self.x, self.skip, self.full = x, skip, None

    make = SymStr.make

    @property
    def cs(self):
        if self.full is None:
            s = sym_bin(self.x, 2)
            self.full = SymStr.chars(s)[self.skip:]
        return self.full

    def __getitem__(self, k):
        if self.full is None and self.skip == 0 and isinstance_real(k, slice) \
                and (k.start, k.stop, k.step) in ((2, None, None), (2, None, 1)):
            return LazyBin(self.x, 2)
        return SymStr.__getitem__(self, k)

    def removeprefix(self, p):
        if self.full is None and self.skip == 0 and p == "0b":
            return LazyBin(self.x, 2)
        return SymStr.removeprefix(self, p)

    def padded(self, width):
        """zero-padded digits, or None"""
        if self.full is not None or self.skip != 2:
            return None
        e = self.x.e
        if not core.CUR.decide(z3.And(e >= 0, e < 2 ** width)):
            return None
        cs = []
        for k in range(width - 1, -1, -1):
            d = (self.x // (1 << k)) % 2
            d = d + 48
            cs.append(d.e if type(d) is SymInt else d)
        return self.make(cs)

    def zfill(self, width):
        width = width.__index__()
        s = self.padded(width)
        return SymStr.zfill(self, width) if s is None else s

    def rjust(self, width, fill=None):
        width = width.__index__()
        s = self.padded(width) if fill == "0" else None
        return SymStr.rjust(self, width, fill) if s is None else s


def sym_bin(x, base=2):
    """bin(SymInt) / oct / hex"""
    pre = {2: "0b", 8: "0o", 16: "0x"}[base]
    e = x.e
    sign = ()
    if fork(e < 0):
        sign = (45,)
        e = -e
    n = 1
    while not fork(e < base ** n):
        n += 1
        if n > 130:
            core.CUR.note("bin digit bound")
            raise core.PathCut()
    cs = []
    for k in range(n - 1, -1, -1):
        d = (e / (base ** k)) % base
        d = z3.If(d < 10, d + 48, d + 87) if base == 16 else d + 48
        d = z3.simplify(d)
        cs.append(d.as_long() if z3.is_int_value(d) else d)
    return SymStr.make(sign + tuple(map(ord, pre)) + tuple(cs))
