"""Symbolic strings in z3's sequence theory, for code that only tests
identity strings (membership, equality, prefix/suffix).  Alphabet: upper-case
letters, digits and ' _-/.:#+'."""
from __future__ import annotations

import z3

from . import core
from .core import Sym, isinstance_real, mkbool

_R = z3.Range
ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-/.:#+"
ALPHABET_RE = z3.Star(z3.Union(
    _R("A", "Z"), _R("0", "9"), *[z3.Re(c) for c in " _-/.:#+"]
))


def py_str(v):
    if not z3.is_string_value(v):
        return None
    return v.as_string()


class ZStr(Sym):
    """case: None (as is) or 'lower' (the lower-cased view)."""
    __slots__ = ("e", "case")

    def __init__(self, e, case=None):
        self.e, self.case = e, case

    @property
    def __class__(self):
        return str

    def z_lift(self, lit):
        if isinstance_real(lit, ZStr):
            return lit
        return ZStr(z3.StringVal(lit), None)

    def _lit(self, x):
        """z3 term comparable with self.e for a concrete/sym x; None: never"""
        if isinstance_real(x, ZStr):
            if x.case != self.case and not z3.is_string_value(x.e):
                raise TypeError("mixed case views")
            return x.e
        if not isinstance_real(x, str):
            return None
        if self.case == "lower":
            if x != x.lower():
                return None
            x = x.upper()
        elif any(c.islower() for c in x):
            return None
        return z3.StringVal(x)

    def contains_(self, x):
        if z3.is_string_value(self.e) and isinstance_real(x, ZStr) and not z3.is_string_value(x.e):
            # symbolic needle in a literal haystack
            hay = py_str(self.e)
            if x.case == "lower":
                subs = {hay[i:j].upper() for i in range(len(hay))
                        for j in range(i, len(hay) + 1)
                        if hay[i:j] == hay[i:j].lower()}
            else:
                subs = {hay[i:j] for i in range(len(hay))
                        for j in range(i, len(hay) + 1)}
            return mkbool(z3.simplify(z3.Or(*[x.e == z3.StringVal(s) for s in subs])))
        v = self._lit(x)
        if v is None:
            if not isinstance_real(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            return False
        return mkbool(z3.simplify(z3.Contains(self.e, v)))

    def __contains__(self, x):
        return bool(self.contains_(x))

    def __eq__(self, o):
        v = self._lit(o)
        return False if v is None else mkbool(z3.simplify(self.e == v))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance_real(r, bool) else ~r

    def startswith(self, x, *a):
        if a:
            return self.concrete().startswith(x, *a)
        if isinstance_real(x, tuple):
            rs = [self.startswith(y) for y in x]
            return mkbool(z3.simplify(z3.Or(*[core.zbool(r) for r in rs])))
        v = self._lit(x)
        return False if v is None else mkbool(z3.simplify(z3.PrefixOf(v, self.e)))

    def endswith(self, x, *a):
        if a:
            return self.concrete().endswith(x, *a)
        if isinstance_real(x, tuple):
            rs = [self.endswith(y) for y in x]
            return mkbool(z3.simplify(z3.Or(*[core.zbool(r) for r in rs])))
        v = self._lit(x)
        return False if v is None else mkbool(z3.simplify(z3.SuffixOf(v, self.e)))

    def lower(self):
        return ZStr(self.e, "lower")

    casefold = lower

    def upper(self):
        return ZStr(self.e, None)

    def __bool__(self):
        return core.CUR.decide(self.e != z3.StringVal(""))

    def len_(self):
        return core.mkint(z3.simplify(z3.Length(self.e)))

    def __len__(self):
        return core.CUR.pick(z3.Length(self.e), core.py_int)

    def concrete(self):
        v = core.CUR.pick(self.e, py_str, cap=6)
        return v.lower() if self.case == "lower" else v

    def to_str_(self):
        return self

    def re_(self, mode, pattern, flags):
        import re
        r = to_z3re(pattern, flags, self.case)
        if r is None:
            core.CUR.note("regex on zstring concretised")
            return getattr(re, mode)(pattern, self.concrete(), flags)
        full = z3.Full(z3.ReSort(z3.StringSort()))
        if mode == "search":
            r = z3.Concat(full, r, full)
        elif mode == "match":
            r = z3.Concat(r, full)
        if core.CUR.decide(z3.InRe(self.e, r)):
            return _ZMatch(self, pattern, flags, mode)
        return None

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return f"<ZStr {self.e}>"

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __getitem__(self, k):
        return self.concrete()[k]

    def __iter__(self):
        return iter(self.concrete())

    def __add__(self, o):
        v = self._lit(o)
        if v is None:
            return self.concrete() + o
        return ZStr(z3.Concat(self.e, v), self.case)

    def __radd__(self, o):
        v = self._lit(o)
        if v is None:
            return o + self.concrete()
        return ZStr(z3.Concat(v, self.e), self.case)

    def __deepcopy__(self, memo):
        return self

    def __fspath__(self):
        return self.concrete()


class _ZMatch:
    def __init__(self, s, pattern, flags, mode):
        self.a = (s, pattern, flags, mode)

    def __bool__(self):
        return True

    def __getattr__(self, name):
        import re
        s, p, f, m = self.a
        return getattr(getattr(re, m)(p, s.concrete(), f), name)


def to_z3re(pattern, flags, case):
    """literal/alternation/dot/class/quantifier subset, unanchored"""
    import re
    from re import _constants as C, _parser as P
    if isinstance_real(pattern, re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    if not isinstance_real(pattern, str):
        return None
    anych = z3.Union(_R("A", "Z"), _R("0", "9"),
                     *[z3.Re(c) for c in " _-/.:#+"])

    def chars(codes):
        ok = [chr(c) for c in codes if chr(c) in ALPHABET]
        if not ok:
            return z3.Empty(z3.ReSort(z3.StringSort()))
        rs = [z3.Re(c) for c in ok]
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def fold(c):
        ch = chr(c)
        if case == "lower":
            return [ord(ch.upper())] if ch == ch.lower() else (
                [ord(ch)] if flags & re.I else [])
        if flags & re.I:
            return [ord(ch.upper())]
        return [c]

    def seq(items):
        rs = [one(i) for i in items]
        if not rs:
            return z3.Re("")
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(item):
        op, av = item
        if op is C.LITERAL:
            return chars(fold(av))
        if op is C.ANY:
            return anych
        if op is C.IN:
            codes, negate = set(), False
            for o, a in av:
                if o is C.NEGATE:
                    negate = True
                elif o is C.LITERAL:
                    codes.update(fold(a))
                elif o is C.RANGE:
                    for c in range(a[0], a[1] + 1):
                        codes.update(fold(c))
                elif o is C.CATEGORY and a is C.CATEGORY_DIGIT:
                    codes.update(range(48, 58))
                elif o is C.CATEGORY and a is C.CATEGORY_WORD:
                    codes.update(ord(c) for c in ALPHABET if c.isalnum() or c == "_")
                else:
                    raise ValueError
            if negate:
                codes = {ord(c) for c in ALPHABET} - codes
            return chars(sorted(codes))
        if op is C.BRANCH:
            alts = [seq(list(a)) for a in av[1]]
            return z3.Union(*alts)
        if op is C.SUBPATTERN:
            return seq(list(av[3]))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            r = seq(list(p))
            if hi is C.MAXREPEAT:
                return z3.Star(r) if lo == 0 else (
                    z3.Concat(*([r] * lo), z3.Star(r)))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        raise ValueError
    try:
        items = list(P.parse(pattern, flags))
        return seq(items)
    except (ValueError, KeyError):
        return None
