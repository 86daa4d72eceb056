"""Equality of two terms by a shared normal form that does not expand products.

Sums and products are flattened, sorted and collected, numeric factors are pulled out, a quotient is
a product with an inverse (divisions are taken as defined), a conditional whose condition is decided
by the facts is its branch, and arguments of functions are compared by their own normal form."""
from fractions import Fraction
import z3

ENABLED = False


class Table:
    def __init__(self, facts):
        self.ids = {}
        self.back = []
        self.memo = {}
        self.known = {}
        self.keep = []
        facts = list(facts)
        self.facts, self.solver = facts, None
        for _ in range(3):
            n = len(self.known)
            self.memo = {}
            for f in facts:
                self.learn(f, True)
            if len(self.known) == n:
                break
        self.memo = {}

    def intern(self, k):
        i = self.ids.setdefault(k, len(self.ids))
        if i == len(self.back):
            self.back.append(k)
        return i

    def learn(self, f, v):
        if z3.is_not(f):
            return self.learn(f.arg(0), not v)
        if z3.is_and(f) and v:
            for x in f.children():
                self.learn(x, True)
            return
        if z3.is_or(f) and not v:
            for x in f.children():
                self.learn(x, False)
            return
        if not z3.is_app(f) or z3.is_quantifier(f):
            return
        try:
            b, neg = self.boolean(f)
        except RecursionError:
            return
        if not isinstance(b, bool):
            self.known[b] = v != neg
            # strict and weak forms of the same comparison
            for o, r in IMPLIED.get((self.rev(b)[0], v != neg), ()):
                self.known.setdefault(self.intern((o,) + self.rev(b)[1:]), r)

    def rev(self, b):
        return self.back[b]

    # booleans: (id or bool, negated)
    def boolean(self, e):
        if z3.is_true(e):
            return True, False
        if z3.is_false(e):
            return False, False
        k = ('b', e.get_id())
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self._boolean(e)
        self.memo[k] = r
        return r

    def _boolean(self, e):
        if z3.is_not(e):
            b, n = self.boolean(e.arg(0))
            return (not b, False) if isinstance(b, bool) else (b, not n)
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = e.arg(0), e.arg(1)
            if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            d = self.poly_add(self.poly(a), self.poly(b), -1)          # d < 0 or d <= 0
            if all(m == ((), ()) for m in d):
                v = d.get(((), ()), Fraction(0))
                return (v < 0 if strict else v <= 0), False
            c, p = self.content(d)
            if len(p) == 1:
                c, p = self.signed(c, p)
                if p is None:
                    return (c < 0 if strict else c <= 0), False
            if c > 0:
                return (self.intern(('lt0', p)), False) if strict else (self.intern(('gt0', p)), True)
            # c*p < 0 with c < 0: p > 0
            return (self.intern(('gt0', p)), False) if strict else (self.intern(('lt0', p)), True)
        if z3.is_eq(e) and e.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
            d = self.poly_add(self.poly(e.arg(0)), self.poly(e.arg(1)), -1)
            if not d:
                return True, False
            return self.intern(('eq0', self.content(d)[1])), False
        if (z3.is_eq(e) or e.decl().kind() == z3.Z3_OP_IFF) and z3.is_bool(e.arg(0)):
            (a, m), (b, n) = self.boolean(e.arg(0)), self.boolean(e.arg(1))
            a = a if isinstance(a, bool) else self.known.get(a, a)
            b = b if isinstance(b, bool) else self.known.get(b, b)
            if isinstance(b, bool):
                (a, m), (b, n) = (b, n), (a, m)
            if isinstance(a, bool):
                v = a != m
                if isinstance(b, bool):
                    return (b != n) == v, False
                return b, n if v else not n
            if a > b:
                a, b = b, a
            return self.intern(('iff', a, b)), m != n
        if z3.is_and(e) or z3.is_or(e):
            stop = z3.is_or(e)
            out = set()
            for x in e.children():
                b, n = self.boolean(x)
                v = (b != n) if isinstance(b, bool) else self.known.get(b)
                if v is not None and not isinstance(b, bool):
                    v = v != n
                if v is not None:
                    if v == stop:
                        return stop, False
                    continue
                out.add((b, n))
            for b, n in list(out):
                k = self.rev(b)
                if stop and not n and k[0] == 'eq0':
                    for x, y in (('gt0', 'lt0'), ('lt0', 'gt0')):
                        g = (self.intern((x,) + k[1:]), False)
                        if g in out:
                            out -= {g, (b, n)}
                            out.add((self.intern((y,) + k[1:]), True))
                            v = self.known.get(self.intern((y,) + k[1:]))
                            if v is not None:
                                out.discard((self.intern((y,) + k[1:]), True))
                                if not v:
                                    return True, False
            if not out:
                return not stop, False
            if len(out) == 1:
                return next(iter(out))
            return self.intern(('or' if stop else 'and',) + tuple(sorted(out))), False
        return self.intern((e.decl().name(),) + tuple(self.any(x) for x in e.children()) if e.num_args() else ('c', e.decl().name())), False

    def signed(self, c, p):
        """a product compared with zero: factors of known sign do not matter"""
        (ns, ds), _ = p[0]
        out = []
        for x in ns + ds:
            q = self.rev(x)
            if q[0] == 'sum':
                q = q[1]
            else:
                q = ((((x,), ()), Fraction(1)),)
            if self.known.get(self.intern(('gt0', q))):
                continue
            if self.known.get(self.intern(('lt0', q))):
                c = -c
                continue
            out.append((x, q))
        if not out:
            return c, None
        if len(out) == 1:
            return c, out[0][1]
        return c, (((tuple(sorted(x for x, q in out)), ()), Fraction(1)),)

    def decided(self, e):
        b, n = self.boolean(e)
        if isinstance(b, bool):
            return b != n
        v = self.known.get(b)
        if v is None and small(e):
            v = self.ask(e)
            if v is not None:
                self.known[b] = v != n
            return v
        return None if v is None else v != n

    def ask(self, e):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 300)
            self.solver.add(*[f for f in self.facts if small(f)])
        for v in (True, False):
            if self.solver.check(z3.Not(e) if v else e) == z3.unsat:
                return v

    def any(self, e):
        if z3.is_bool(e):
            return self.intern(('bool',) + tuple(self.boolean(e)))
        if e.sort() in (z3.RealSort(), z3.IntSort()):
            return self.value(e)
        return self.intern(('t', e.decl().name()) + tuple(self.any(x) for x in e.children()))

    # reals: sum of coefficient * monomial, monomial = (numerator ids, denominator ids)
    def value(self, e):
        return self.intern(('sum', self.freeze(self.poly(e))))

    @staticmethod
    def freeze(p):
        return tuple(sorted(p.items()))

    @staticmethod
    def poly_add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def content(self, p):
        it = self.freeze(p)
        c = it[0][1]
        return c, tuple((m, x / c) for m, x in it)

    def factor(self, p):
        """(coefficient, numerator ids, denominator ids) of a sum taken as one factor"""
        if not p:
            return Fraction(0), (), ()
        if len(p) == 1:
            (m, c), = p.items()
            return c, m[0], m[1]
        c, q = self.content(p)
        return c, (self.intern(('sum', q)),), ()

    def poly(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self._poly(e)
        self.memo[k] = r
        return r

    def _poly(self, e):
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return {((), ()): v} if v else {}
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {((), ()): v} if v else {}
        if z3.is_to_real(e):
            return self.poly(e.arg(0))
        if z3.is_add(e):
            r = {}
            for x in e.children():
                r = self.poly_add(r, self.poly(x))
            return r
        if z3.is_sub(e):
            r = self.poly(e.arg(0))
            for x in e.children()[1:]:
                r = self.poly_add(r, self.poly(x), -1)
            return r
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            return self.poly_add({}, self.poly(e.arg(0)), -1)
        if z3.is_mul(e) or z3.is_div(e):
            ps = [self.poly(x) for x in e.children()]
            if z3.is_div(e):
                ps, inv = ps[:1], ps[1:]
            else:
                inv = []
            c, ns, ds = Fraction(1), [], []
            single = []
            for p in ps:
                a, n, d = self.factor(p)
                if a == 0:
                    return {}
                c, ns, ds = c * a, ns + list(n), ds + list(d)
                if len(p) > 1:
                    single.append(p)
            for p in inv:
                a, n, d = self.factor(p)
                if a == 0:
                    return {((self.intern(('div0', e.get_id())),), ()): Fraction(1)}
                c, ns, ds = c / a, ns + list(d), ds + list(n)
            # a number times one sum stays a sum
            if len(single) == 1 and not ds and len(ns) == 1:
                q = single[0]
                lead = self.content(q)[0]
                return {m: x * c / lead for m, x in q.items()}
            return {(tuple(sorted(ns)), tuple(sorted(ds))): c}
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            v = self.decided(e.arg(0))
            if v is not None:
                return self.poly(e.arg(1) if v else e.arg(2))
            a, b = self.value(e.arg(1)), self.value(e.arg(2))
            if a == b:
                return self.poly(e.arg(1))
            c, n = self.boolean(e.arg(0))
            if n:
                a, b = b, a
            return {((self.intern(('ite', c, a, b)),), ()): Fraction(1)}
        if e.num_args() == 0:
            return {((self.intern(('c', e.decl().name())),), ()): Fraction(1)}
        if e.decl().name() in ('sin!', 'cos!'):
            # odd and even
            p = self.poly(e.arg(0))
            s = Fraction(1)
            if p and self.freeze(p)[0][1] < 0:
                p = self.poly_add({}, p, -1)
                s = Fraction(-1) if e.decl().name() == 'sin!' else s
            return {((self.intern((e.decl().name(), self.intern(('sum', self.freeze(p))))),), ()): s}
        return {((self.intern((e.decl().name(),) + tuple(self.any(x) for x in e.children())),), ()): Fraction(1)}


def small(e, most=40):
    n, todo = 0, [e]
    while todo:
        x = todo.pop()
        n += 1
        if n > most:
            return False
        todo += x.children()
    return True


IMPLIED = {('lt0', True): (('gt0', False), ('eq0', False)), ('gt0', True): (('lt0', False), ('eq0', False)),
           ('eq0', True): (('lt0', False), ('gt0', False))}


def prove(facts, goal):
    t = Table(facts)
    a, b = t.value(goal.arg(0)), t.value(goal.arg(1))
    return a == b
