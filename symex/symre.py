"""Backtracking regular-expression matcher over symbolic strings.

Uses CPython's own pattern parser (re._parser), so patterns are whatever the
code under test compiles; matching follows CPython's priority order and forks
on symbolic character-class membership."""
from __future__ import annotations

import re
from re import _constants as C, _parser as P

import z3

from . import core
from .core import isinstance_real
from .strings import (
    SymBytes, SymStr, _SeqBase, ceq, conj, disj, in_ranges, neg, fork, DIGIT,
    ALNUM, SPACE,
)

WORD = ALNUM + ((95, 95),)
CATS = {
    C.CATEGORY_DIGIT: (DIGIT, False), C.CATEGORY_NOT_DIGIT: (DIGIT, True),
    C.CATEGORY_SPACE: (SPACE, False), C.CATEGORY_NOT_SPACE: (SPACE, True),
    C.CATEGORY_WORD: (WORD, False), C.CATEGORY_NOT_WORD: (WORD, True),
}


class Unsupported(Exception):
    pass


def parse(pattern, flags):
    return P.parse(pattern, flags)


def cls_match(items, c, flags):
    negate = False
    parts = []
    for op, av in items:
        if op is C.NEGATE:
            negate = True
        elif op is C.LITERAL:
            parts.append(lit(c, av, flags))
        elif op is C.RANGE:
            r = in_ranges(c, (av,))
            if flags & re.I:
                lo, hi = av
                alt = []
                for x in range(lo, min(hi, 127) + 1):
                    alt.append((ord(chr(x).swapcase()),) * 2)
                r = disj([r, in_ranges(c, alt)])
            parts.append(r)
        elif op is C.CATEGORY:
            rng, ng = CATS[av]
            p = in_ranges(c, rng)
            parts.append(neg(p) if ng else p)
        else:
            raise Unsupported(str(op))
    r = disj(parts)
    return neg(r) if negate else r


def lit(c, av, flags):
    if flags & re.I and chr(av).isalpha():
        return disj([ceq(c, ord(chr(av).lower())), ceq(c, ord(chr(av).upper()))])
    return ceq(c, av)


class Matcher:
    def __init__(self, pat, flags, s):
        self.s = s
        self.cs = s.cs
        self.n = len(s.cs)
        self.flags = flags

    # each m_* is a generator of end positions, in priority order; groups held
    # in a dict copied on capture
    def seq(self, items, k, i, g):
        if k == len(items):
            yield i, g
            return
        for j, g2 in self.one(items[k], i, g):
            yield from self.seq(items, k + 1, j, g2)

    def one(self, item, i, g):
        op, av = item
        f = self.flags
        if op is C.LITERAL:
            if i < self.n and fork(lit(self.cs[i], av, f)):
                yield i + 1, g
        elif op is C.NOT_LITERAL:
            if i < self.n and fork(neg(lit(self.cs[i], av, f))):
                yield i + 1, g
        elif op is C.ANY:
            if i < self.n and (f & re.S or fork(neg(ceq(self.cs[i], 10)))):
                yield i + 1, g
        elif op is C.IN:
            if i < self.n and fork(cls_match(av, self.cs[i], f)):
                yield i + 1, g
        elif op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, i, g)
        elif op is C.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                raise Unsupported("inline flags")
            for j, g2 in self.seq(list(p), 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                yield j, g2
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)
            if op is C.MAX_REPEAT:
                yield from self.rep_max(p, lo, hi, 0, i, g)
            elif op is C.MIN_REPEAT:
                yield from self.rep_min(p, lo, hi, 0, i, g)
            else:
                for r in self.rep_max(p, lo, hi, 0, i, g):
                    yield r
                    return
        elif op is C.AT:
            if self.at(av, i):
                yield i, g
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            p = list(p)
            if direction > 0:
                starts = [i]
            else:
                lo, hi = P.SubPattern(P.State(), p).getwidth()
                if lo != hi:
                    raise Unsupported("lookbehind")
                starts = [i - lo] if i - lo >= 0 else []
            hit = None
            for st in starts:
                for j, g2 in self.seq(p, 0, st, g):
                    if direction < 0 and j != i:
                        continue
                    hit = g2
                    break
            if op is C.ASSERT:
                if hit is not None:
                    yield i, hit
            elif hit is None:
                yield i, g
        elif op is C.GROUPREF:
            if av in g:
                a, b = g[av]
                sub = self.cs[a:b]
                if i + len(sub) <= self.n and fork(
                    conj([ceq(x, y) for x, y in zip(self.cs[i:i + len(sub)], sub)])
                ):
                    yield i + len(sub), g
        elif op is C.ATOMIC_GROUP:
            for r in self.seq(list(av), 0, i, g):
                yield r
                return
        else:
            raise Unsupported(str(op))

    def rep_max(self, p, lo, hi, count, i, g):
        if hi is C.MAXREPEAT or count < hi:
            for j, g2 in self.seq(p, 0, i, g):
                if j == i and count >= lo:
                    continue
                yield from self.rep_max(p, lo, hi, count + 1, j, g2)
        if count >= lo:
            yield i, g

    def rep_min(self, p, lo, hi, count, i, g):
        if count >= lo:
            yield i, g
        if hi is C.MAXREPEAT or count < hi:
            for j, g2 in self.seq(p, 0, i, g):
                if j == i and count >= lo:
                    continue
                yield from self.rep_min(p, lo, hi, count + 1, j, g2)

    def at(self, av, i):
        if av in (C.AT_BEGINNING_STRING,):
            return i == 0
        if av is C.AT_BEGINNING:
            if i == 0:
                return True
            return bool(self.flags & re.M) and fork(ceq(self.cs[i - 1], 10))
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.M:
                return fork(ceq(self.cs[i], 10))
            return i == self.n - 1 and fork(ceq(self.cs[i], 10))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and fork(in_ranges(self.cs[i - 1], WORD))
            b = i < self.n and fork(in_ranges(self.cs[i], WORD))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported(str(av))


class Exists:
    """whether there is a match at all, as one formula (no forks)"""

    def __init__(self, flags, s):
        self.cs, self.n, self.flags = s.cs, len(s.cs), flags
        self.at_memo, self.cost = {}, 0

    def seq(self, items, i):
        """where a match of items from i may end -> {end: condition}"""
        now = {i: True}
        for item in items:
            now = self.step(now, lambda j: self.one(item, j))
            if not now:
                break
        return now

    def step(self, now, fn):
        out = {}
        for j, p in now.items():
            for e, q in fn(j).items():
                out.setdefault(e, []).append(conj([p, q]))
        return {e: r for e, ps in out.items() if (r := disj(ps)) is not False}

    def one(self, item, i):
        key = (id(item), i)
        if key not in self.at_memo:
            self.cost += 1
            if self.cost > 4000:
                raise Unsupported("size")
            # item is kept alive by the memo
            self.at_memo[key] = item, self._one(item, i)
        return self.at_memo[key][1]

    def _char(self, p, i):
        return {} if p is False else {i + 1: p}

    def _one(self, item, i):
        op, av = item
        f = self.flags
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= self.n:
                return {}
            c = self.cs[i]
            if op is C.LITERAL:
                return self._char(lit(c, av, f), i)
            if op is C.NOT_LITERAL:
                return self._char(neg(lit(c, av, f)), i)
            if op is C.ANY:
                return self._char(True if f & re.S else neg(ceq(c, 10)), i)
            return self._char(cls_match(av, c, f), i)
        if op is C.BRANCH:
            return self.step({i: True}, lambda j: self.union([self.seq(a, j) for a in av[1]]))
        if op is C.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                raise Unsupported("inline flags")
            return self.seq(p, i)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            now, out, k = {i: True}, [], 0
            if lo == 0:
                out.append(now)
            while now and (hi is C.MAXREPEAT or k < hi):
                old, k = now, k + 1
                now = self.step(now, lambda j: {
                    e: q for e, q in self.seq(p, j).items() if e != j or k <= lo})
                if k >= lo:
                    out.append(now)
                if k > self.n + lo:
                    break
            return self.union(out)
        if op is C.AT:
            p = self.at(av, i)
            return {} if p is False else {i: p}
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction > 0:
                hit = disj(list(self.seq(p, i).values()))
            else:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported("lookbehind")
                hit = self.seq(p, i - lo).get(i, False) if i >= lo else False
            if op is C.ASSERT_NOT:
                hit = neg(hit)
            return {} if hit is False else {i: hit}
        raise Unsupported(str(op))

    def union(self, many):
        out = {}
        for m in many:
            for e, p in m.items():
                out.setdefault(e, []).append(p)
        return {e: r for e, ps in out.items() if (r := disj(ps)) is not False}

    def at(self, av, i):
        m = self.flags & re.M
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_BEGINNING:
            return True if i == 0 else ceq(self.cs[i - 1], 10) if m else False
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            return True if i == self.n else \
                ceq(self.cs[i], 10) if m or i == self.n - 1 else False
        raise Unsupported(str(av))


class SymMatch(core.Sym):
    """a match; where it is is only found out when asked for"""
    __slots__ = ("s", "pos", "_gs", "find", "pat", "names")

    def __init__(self, s, gs, find, pat, names):
        self.s, self._gs, self.find, self.pat, self.names = s, gs, find, pat, names

    @property
    def gs(self):
        if self._gs is None:
            try:
                self._gs = self.find()
            except Unsupported as ex:
                raise core.Limit(f"regular expression: {ex}")
            if self._gs is None:
                raise core.Limit("regular expression: match not found again")
        return self._gs

    def __bool__(self):
        return True

    def _id(self, k):
        return self.names[k] if isinstance_real(k, str) else k

    def span(self, k=0):
        return self.gs.get(self._id(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _g(self, k):
        k = self._id(k)
        if k not in self.gs:
            if k > self.pat.state.groups - 1:
                raise IndexError("no such group")
            return None
        a, b = self.gs[k]
        return self.s.make(self.s.cs[a:b])

    def group(self, *ks):
        if not ks:
            return self._g(0)
        if len(ks) == 1:
            return self._g(ks[0])
        return tuple(self._g(k) for k in ks)

    def __getitem__(self, k):
        return self._g(k)

    def groups(self, default=None):
        return tuple(
            default if (v := self._g(k)) is None else v
            for k in range(1, self.pat.state.groups)
        )

    @property
    def string(self):
        return self.s


def _prep(pattern, flags, s):
    if isinstance_real(pattern, re.Pattern):
        flags = pattern.flags
        pattern = pattern.pattern
    if not isinstance_real(pattern, (str, bytes)):
        pattern = pattern.concrete()
    p = parse(pattern, flags)
    flags = flags | p.state.flags
    return list(p), p, flags


def sym_match(pattern, s, flags=0, mode="match", pos=0):
    items, p, flags = _prep(pattern, flags, s)
    m = Matcher(items, flags, s)
    starts = range(pos, m.n + 1) if mode == "search" else [pos]

    def find():
        for st in starts:
            for j, g in m.seq(items, 0, st, {}):
                if mode == "fullmatch" and j != m.n:
                    continue
                return {**g, 0: (st, j)}
        return None

    found = None
    try:
        ex = Exists(flags, s)
        exists = disj([
            q for st in starts for e, q in ex.seq(items, st).items()
            if mode != "fullmatch" or e == m.n])
    except Unsupported:
        found = find()
        if found is None:
            return None
    else:
        if not fork(exists):
            return None
    return SymMatch(s, found, find, p, p.state.groupdict)


def sym_finditer(pattern, s, flags=0):
    pos, out = 0, []
    while pos <= len(s.cs):
        m = sym_match(pattern, s, flags, "search", pos)
        if m is None:
            break
        out.append(m)
        a, b = m.span()
        pos = b if b > a else b + 1
    return out


def sym_findall(pattern, s, flags=0):
    out = []
    for m in sym_finditer(pattern, s, flags):
        n = m.pat.state.groups - 1
        if n == 0:
            out.append(m.group())
        elif n == 1:
            g = m.group(1)
            out.append(s.from_ints(()) if g is None else g)
        else:
            out.append(tuple(s.from_ints(()) if g is None else g for g in m.groups()))
    return out


def sym_sub(pattern, repl, s, count=0, flags=0):
    out, last, n = [], 0, 0
    for m in sym_finditer(pattern, s, flags):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(s.cs[last:a])
        if callable(repl):
            r = repl(m)
        else:
            r = repl
            if "\\" in (r if isinstance_real(r, str) else ""):
                raise Unsupported("template replacement")
        out.extend(s.chars(r))
        last = b
        n += 1
    out.extend(s.cs[last:])
    return s.make(out)


def sym_split(pattern, s, maxsplit=0, flags=0):
    out, last, n = [], 0, 0
    for m in sym_finditer(pattern, s, flags):
        if maxsplit and n >= maxsplit:
            break
        a, b = m.span()
        out.append(s.make(s.cs[last:a]))
        out.extend(m.groups())
        last = b
        n += 1
    out.append(s.make(s.cs[last:]))
    return out
