"""Polynomial normal form of integer terms over opaque atoms: used to settle
equalities and exact divisions of products of symbolic sizes without calling
nonlinear arithmetic.  Everything it answers is an algebraic identity."""
from __future__ import annotations

from fractions import Fraction

import z3


def poly(e, depth=0):
    """{monomial (sorted tuple of atom ids): coeff}, atoms registered in ATOMS"""
    if type(e) is int:
        return {(): Fraction(e)} if e else {}
    k = e.decl().kind()
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): Fraction(v)} if v else {}
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return {(): f} if f else {}
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in e.children():
            out = add(out, poly(c))
        return out
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        out = poly(ch[0])
        for c in ch[1:]:
            out = add(out, scale(poly(c), -1))
        return out
    if k == z3.Z3_OP_UMINUS:
        return scale(poly(e.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        out = {(): Fraction(1)}
        for c in e.children():
            out = mul(out, poly(c))
        return out
    if k == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0))
    if k == z3.Z3_OP_DIV:
        d = poly(e.arg(1))
        if list(d) == [()]:
            return scale(poly(e.arg(0)), 1 / d[()])
    i = e.get_id()
    ATOMS[i] = e
    return {(i,): Fraction(1)}


ATOMS = {}


def add(a, b):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def scale(a, k):
    k = Fraction(k)
    return {m: c * k for m, c in a.items()} if k else {}


def mul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return out


def equal(a, b):
    return add(poly(a), scale(poly(b), -1)) == {}


def _lead(p):
    return max(p, key=lambda m: (len(m), m))


def _mono_div(m, d):
    rest = list(m)
    for x in d:
        if x in rest:
            rest.remove(x)
        else:
            return None
    return tuple(rest)


def exact_div(a, b):
    """polynomial q with a == q*b, or None"""
    if not b:
        return None
    q, r = {}, dict(a)
    lb = _lead(b)
    for _ in range(200):
        if not r:
            return q
        lr = _lead(r)
        m = _mono_div(lr, lb)
        if m is None:
            return None
        t = {m: r[lr] / b[lb]}
        q = add(q, t)
        r = add(r, scale(mul(t, b), -1))
    return None


def to_term(p):
    """integer z3 term of a polynomial with integer coefficients and integer
    atoms, else None"""
    terms = []
    for m, c in sorted(p.items()):
        if c.denominator != 1:
            return None
        fs = []
        for i in m:
            at = ATOMS[i]
            if not z3.is_int(at):
                return None
            fs.append(at)
        t = z3.IntVal(int(c))
        if fs:
            prod = fs[0]
            for f in fs[1:]:
                prod = prod * f
            t = prod if c == 1 else t * prod
        terms.append(t)
    if not terms:
        return z3.IntVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)
