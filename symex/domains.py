"""
Predicates over a single variable with values 0..255, as sets of values.
Expressions are kept, so that z3's expression ids stay valid as keys.
"""
from __future__ import annotations

import z3

FULL = (1 << 256) - 1
_PRED, _VARS, _KEEP = {}, {}, []
_NONE = object()
K = z3


def keep(e):
    _KEEP.append(e)


def member(var, mask):
    ranges, start = [], None
    for c in range(257):
        if mask >> c & 1:
            start = c if start is None else start
        elif start is not None:
            ranges.append((start, c - 1))
            start = None
    return z3.Or(*[z3.And(var >= a, var <= b) if a != b else var == a
                   for a, b in ranges])


class No(Exception):
    pass


def term(e):
    """(variable id or None, values for 0..255)"""
    if z3.is_int_value(e):
        return None, [e.as_long()] * 256
    if z3.is_const(e):
        if e.decl().kind() != z3.Z3_OP_UNINTERPRETED or not z3.is_int(e):
            raise No
        keep(e)
        return e.get_id(), list(range(256))
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        v, m = pred(ch[0])
        (va, a), (vb, b) = term(ch[1]), term(ch[2])
        return one(v, va, vb), [a[i] if m >> i & 1 else b[i] for i in range(256)]
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL) and len(ch) <= 4:
        v, out = term(ch[0])
        for c in ch[1:]:
            w, x = term(c)
            v = one(v, w)
            if k == z3.Z3_OP_ADD:
                out = [p + q for p, q in zip(out, x)]
            elif k == z3.Z3_OP_SUB:
                out = [p - q for p, q in zip(out, x)]
            else:
                out = [p * q for p, q in zip(out, x)]
        return v, out
    if k == z3.Z3_OP_UMINUS:
        v, out = term(ch[0])
        return v, [-p for p in out]
    raise No


def one(*vs):
    vs = {v for v in vs if v is not None}
    if len(vs) > 1:
        raise No
    return vs.pop() if vs else None


def pred(e):
    """(variable id or None, mask)"""
    k = e.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return None, FULL
    if k == z3.Z3_OP_FALSE:
        return None, 0
    ch = e.children()
    if k == z3.Z3_OP_NOT:
        v, m = pred(ch[0])
        return v, FULL & ~m
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        v, m = pred(ch[0])
        for c in ch[1:]:
            w, n = pred(c)
            v = one(v, w)
            m = m & n if k == z3.Z3_OP_AND else m | n
        return v, m
    ops = {z3.Z3_OP_EQ: lambda a, b: a == b, z3.Z3_OP_LE: lambda a, b: a <= b,
           z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_LT: lambda a, b: a < b,
           z3.Z3_OP_GT: lambda a, b: a > b, z3.Z3_OP_DISTINCT: lambda a, b: a != b}
    if k in ops and len(ch) == 2 and z3.is_int(ch[0]):
        (v, a), (w, b) = term(ch[0]), term(ch[1])
        m = 0
        for i in range(256):
            if ops[k](a[i], b[i]):
                m |= 1 << i
        return one(v, w), m
    raise No


def predicate(e):
    """(variable id, mask) if e is a predicate over one integer variable"""
    i = e.get_id()
    r = _PRED.get(i, _NONE)
    if r is _NONE:
        keep(e)
        try:
            r = pred(e)
            if r[0] is None:
                r = None
        except No:
            r = None
        _PRED[i] = r
    return r


def variables(e):
    """ids of the variables of e"""
    i = e.get_id()
    r = _VARS.get(i)
    if r is None:
        keep(e)
        r, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(j)
            elif z3.is_quantifier(x):
                todo.append(x.body())
            else:
                todo.extend(x.children())
        _VARS[i] = r
    return r
