"""Equality of rational expressions by normal form: every sum, product and quotient expanded over the remaining terms."""
from fractions import Fraction
import z3

LIMIT = 4000


class TooBig(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = dict(m)
            for x, e in n:
                k[x] = k.get(x, 0) + e
            k = tuple(sorted(k.items()))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def rational(e, atoms, dens, memo):
    """numerator and denominator; quotients are noted in dens"""
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = _rational(e, atoms, dens, memo)
    memo[k] = r
    return r


def _rational(e, atoms, dens, memo):
    go = lambda x: rational(x, atoms, dens, memo)
    if z3.is_int_value(e):
        v = e.as_long()
        return ({(): Fraction(v)} if v else {}), ONE
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return ({(): v} if v else {}), ONE
    if z3.is_to_real(e):
        return go(e.arg(0))
    if z3.is_add(e) or z3.is_sub(e):
        n, d = go(e.arg(0))
        for x in e.children()[1:]:
            p, q = go(x)
            s = -1 if z3.is_sub(e) else 1
            if d == q:
                n = padd(n, p, s)
            else:
                n, d = padd(pmul(n, q), pmul(p, d), s), pmul(d, q)
        return n, d
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = go(e.arg(0))
        return padd({}, n, -1), d
    if z3.is_mul(e):
        n, d = ONE, ONE
        for x in e.children():
            p, q = go(x)
            n, d = pmul(n, p), pmul(d, q)
        return n, d
    if z3.is_div(e):
        (n, d), (p, q) = go(e.arg(0)), go(e.arg(1))
        dens.append(e.arg(1))
        return pmul(n, q), pmul(d, p)
    s = z3.simplify(e)
    if s.get_id() != e.get_id() and not z3.is_app_of(s, z3.Z3_OP_ITE):
        if s.decl().kind() != e.decl().kind():
            return go(s)
        e = s
    a = atoms.setdefault(e.sexpr(), len(atoms))
    return {((a, 1),): Fraction(1)}, ONE


def identity(a, b):
    """denominators that must not be zero for a == b to hold identically, or None"""
    atoms, dens = {}, []
    try:
        memo = {}
        (n, d), (p, q) = rational(a, atoms, dens, memo), rational(b, atoms, dens, memo)
        if padd(pmul(n, q), pmul(p, d), -1):
            return None
    except TooBig:
        return None
    return dens


def _atom(e):
    return z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_REAL)


def _occurs(a, e, seen):
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return e.eq(a) or any(_occurs(a, x, seen) for x in e.children())


def _flat(fs):
    for f in fs:
        if z3.is_and(f):
            for x in _flat(f.children()):
                yield x
        elif z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            yield f


def prove(facts, goal, nonzero, most=60):
    """goal a == b of reals, from equalities among the facts used as definitions; nonzero(list of terms) decides the denominators"""
    subst = []
    eqs = list(_flat(list(facts)[::-1]))[:most]

    def apply(e):
        for _ in range(3):
            n = z3.substitute(e, *subst) if subst else e
            if n.eq(e):
                return n
            e = n
        return e
    for f in eqs:
        a, b = apply(z3.simplify(f.arg(0))), apply(z3.simplify(f.arg(1)))
        for p, q in ((a, b), (b, a)):
            if _atom(p) and not z3.is_var(p) and not _occurs(p, q, set()):
                subst.append((p, q))
                break
    a, b = apply(z3.simplify(goal.arg(0))), apply(z3.simplify(goal.arg(1)))
    dens = identity(a, b)
    if dens is None:
        return False
    return nonzero(dens)
