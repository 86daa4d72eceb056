"""L-moments and fits to them (Utilities/lmomentFit.py)."""
from fractions import Fraction
import z3
from engine.contract import task
from engine.interp import Loop, Native, PyRaise
from engine.sym import *
from engine.models import qvar, REG
from engine import ring

L = 'Utilities/lmomentFit.py'


# -- sums ------------------------------------------------------------------------------------------------------------------
# weight of the j-th smallest of n values (from 0) in n * l1, n * l2 and n * l3: l1 = b0, l2 = 2 b1 - b0, l3 = 6 b2 - 6 b1 + b0
def weight(m, n, j):
    n, j = toreal(n), toreal(j)
    if m == 0:
        return Fraction(1)
    b1 = truediv(j, n - 1)
    if m == 1:
        return sub(mul(2, b1), 1)
    b2 = truediv(mul(j, j - 1), mul(n - 1, n - 2))
    return add(sub(mul(6, b2), mul(6, b1)), 1)


def total(ip, m):
    return ip.st['total'][m]


def half(ip):
    n = ip.st['n']
    return floordiv(n, 2)


def middle(ip, m):
    """the value in the middle of an odd number, with its weight"""
    n, x = ip.st['n'], ip.st['x']
    h = half(ip)
    return ite(eq(n, mul(2, h)), Fraction(0), mul(weight(m, n, h), x.at(h)))


def equal(c, cond, a, b):
    """a == b under the condition, by normal form of rational expressions or by the solver"""
    d = ring.identity(z(toreal(a)), z(toreal(b)))
    if d is not None and all(c.must(Implies(cond, Not(eq(x, 0)))) for x in d):
        return True
    return c.must(Implies(cond, eq(a, b)))


def ssum(ip, a, k):
    c = ip.ctx
    v = a[0]
    if not isinstance(v, SArr) or v.kind == 'b' or 'n' not in ip.st:
        return REG['builtins.sum'](ip, a, k)
    n, x = ip.st['n'], ip.st['x']
    ln, i = v.shape[0], c.int('i')
    h = half(ip)
    s = None
    for m in range(3):
        f = lambda j: mul(weight(m, n, j), x.at(j))
        if c.must(eq(ln, h)) and equal(c, And(0 <= i, lt(i, h)), v.at(i), add(f(i), f(sub(sub(n, 1), i)))):
            s = sub(total(ip, m), middle(ip, m))
        elif c.must(eq(ln, n)) and equal(c, And(0 <= i, lt(i, n)), v.at(i), f(i)):
            s = total(ip, m)
        if s is not None:
            break
    return c.real('sum') if s is None else s


def data(ip):
    c = ip.ctx
    n = c.input('n', c.int('n'))
    c.assume(n >= 3)
    x = ip.fresh_array((n,), 'r', 'x')
    i, j = qvar(2)
    c.assume(z3.ForAll([i, j], z(Implies(And(0 <= i, i <= j, lt(j, n)), le(x.at(i), x.at(j))))))
    ip.st = {'n': n, 'x': x, 'total': [c.real('total%d' % m) for m in range(3)]}
    c.assume(ip.st['total'][1] >= 0)                     # task 'second L-moment'
    return n, x


def moments(ip, r, count=3):
    c, n = ip.ctx, toreal(ip.st['n'])
    t = ip.st['total']
    c.prove('post: first L-moment', eq(mul(r.at(0), n), t[0]))
    if count > 1:
        c.prove('post: second L-moment', eq(mul(r.at(1), n), t[1]))
        c.prove('post: the second L-moment is not negative', le(0, r.at(1)))
    if count > 2:
        if 'resolve' in ip.st:
            ip.st['resolve']()
        c.prove('post: L-skewness', Implies(Not(eq(t[1], 0)), eq(mul(r.at(2), t[1]), t[2])))


@task('P25', 'sums over pairs', [L + '::samlmu3'])
def fold(ip):
    """sum over the first half of f(i) + f(n-1-i), plus the middle, is the sum of all: by induction"""
    c = ip.ctx
    f, T, S = [z3.Function(x, IS, RS) for x in 'fTS']
    n, k = c.int('n'), c.int('k')
    i = qvar()
    c.assume(n >= 0, T(0) == 0, S(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, T(i + 1) == T(i) + f(i))), z3.ForAll([i], z3.Implies(i >= 0, S(i + 1) == S(i) + f(i) + f(n - 1 - i))))
    P = lambda k: S(k) == T(k) + T(n) - T(n - k)
    c.prove('lemma: for no pairs', P(0))
    c.prove('lemma: one pair more', Implies(And(0 <= k, k + 1 <= n, P(k)), And(Implies(T(n - k - 1 + 1) == T(n - k - 1) + f(n - k - 1), P(k + 1)))))
    h = z3.Int('h')
    c.prove('lemma: even number', Implies(And(n == 2 * h, P(h)), S(h) == T(n)))
    c.prove('lemma: odd number', Implies(And(n == 2 * h + 1, P(h), h >= 0), S(h) + f(h) == T(n)))


@task('P25', 'second L-moment', [L + '::samlmu3'])
def second(ip):
    """of ascending data it is a sum over pairs of numbers that are not negative"""
    c = ip.ctx
    n, i, h = c.int('n'), c.int('i'), c.int('h')
    a, b = c.real('a'), c.real('b')
    c.assume(And(n >= 3, 0 <= i, Or(n == 2 * h, n == 2 * h + 1), i < h, a <= b))
    w = lambda j: weight(1, n, j)
    c.prove('lemma: weights of a pair', eq(mul(add(w(i), w(n - 1 - i)), toreal(n - 1)), 0))
    c.prove('lemma: weight of the smaller', le(w(i), 0))
    c.prove('lemma: weight of the larger', eq(w(n - 1 - i), neg(w(i))))
    q = c.real('q')
    c.prove('lemma: a pair adds nothing negative', Implies(And(q <= 0), le(0, add(mul(q, a), mul(neg(q), b)))))
    c.prove('lemma: the middle adds nothing', Implies(n == 2 * h + 1, eq(w(h), 0)))


SUMS = ('finite sums: a sum over pairs plus the middle is the sum over all (induction step proved), a sum of numbers not negative is not negative', 'data are in ascending order')


@task('P25', 'specialised estimator', [L + '::samlmu3'], opts={'externals': {'builtins.sum': ssum, 'numpy.sum': ssum}, 'check_div': False}, assumes=SUMS)
def three(ip):
    n, x = data(ip)
    moments(ip, ip.call(ip.func(L + '::samlmu3'), [x]))


def part(m):
    return z3.Function('part%d' % m, IS, RS)


def pairs(m):
    return z3.Function('pairs%d' % m, IS, RS)


def term(ip, m, j):
    return mul(weight(m, ip.st['n'], j), ip.st['x'].at(j))


def facts_all(s):
    """definition of the partial sums at this place"""
    k = z(s.it)
    return And(*[eq(part(m)(k + 1), add(part(m)(k), term(s.ip, m, k))) for m in range(2)])


def facts_pairs(s):
    k, n = z(s.it), s.ip.st['n']
    return And(*[eq(pairs(m)(k + 1), add(pairs(m)(k), add(term(s.ip, m, k), term(s.ip, m, n - 1 - k)))) for m in range(3)])


def all_inv(s):
    k, n = z(s.it), s.ip.st['n']
    return [('sum', eq(s['sum1'], part(0)(k))), ('weighted sum', eq(s['sum2'], mul(toreal(n - 1), part(1)(k)))), ('weight', eq(s['temp'], toreal(2 * k - n + 1)))]


def pair_inv(s):
    k, n = z(s.it), s.ip.st['n']
    x = s['xmom']
    return [('weight', eq(s['temp'], toreal(2 * k - n - 1)))] + [('sum %d' % m, eq(x.at(m), pairs(m)(k))) for m in range(3)]


for _nm in (1, 2, 4, 5):
    @task('P25', 'general estimator, %d moments' % _nm, [L + '::samlmu'], assumes=SUMS + ('as many values as moments at least',), opts={'check_div': False},
          loops={'samlmu': [Loop(all_inv, name='values', facts=facts_all, match=lambda txt, st: 'sum1' in txt), Loop(pair_inv, name='pairs', facts=facts_pairs, match=lambda txt, st: 'xii' in txt)]})
    def general(ip, nm=_nm):
        c = ip.ctx
        n, x = data(ip)
        c.assume(n >= nm)
        t, h = ip.st['total'], half(ip)
        c.assume(*([part(m)(0) == 0 for m in range(3)] + [pairs(m)(0) == 0 for m in range(3)] + [eq(part(m)(z(n)), t[m]) for m in range(3)]))
        c.assume(*[eq(add(pairs(m)(z(h)), middle(ip, m)), t[m]) for m in range(3)])

        def resolve():
            even = c.must(eq(n, mul(2, h)))
            if even or c.must(Not(eq(n, mul(2, h)))):
                c.assume(eq(toreal(h), truediv(n if even else sub(n, 1), 2)))
                c.assume(*[eq(t[m], pairs(m)(z(h)) if even else add(pairs(m)(z(h)), mul(weight(m, n, h), x.at(h)))) for m in range(3)])
        ip.st['resolve'] = resolve
        r = ip.call(ip.func(L + '::samlmu'), [x, nm])
        if r is None:
            c.prove('post: no moments only if all values are the same', eq(t[1], 0))
            return
        moments(ip, r, min(nm, 3))


# -- fits --------------------------------------------------------------------------------------------------------------------
@task('P25', 'generalised Pareto fit', [L + '::pelgpa'])
def gpa(ip):
    c = ip.ctx
    l1, l2, t3 = [c.input(n, c.real(n)) for n in ('l1', 'l2', 't3')]
    p = ip.call(ip.func(L + '::pelgpa'), [PList([l1, l2, t3])])
    ok = And(l2 > 0, t3 > -1, t3 < 1)
    xi, al, k = [p.at(i) for i in range(3)]
    if c.branch(ok):
        c.prove('post: mean', eq(add(xi, truediv(al, add(1, k))), l1))
        c.prove('post: second L-moment', eq(truediv(al, mul(add(1, k), add(2, k))), l2))
        c.prove('post: L-skewness', eq(truediv(sub(1, k), add(3, k)), t3))
    else:
        c.prove('post: no parameters for moments that cannot be', And(*[eq(v, 0) for v in (xi, al, k)]))


@task('P25', 'extreme value fit', [L + '::pelgev'], opts={'externals': {'scipy.special.gamma': lambda ip, a, k: mfun('gamma', a[0])}, 'check_div': False},
      loops={'pelgev': [Loop(lambda s: [], name='iteration', match=lambda txt, st: 'range' in txt or 'while' in txt)]},
      assumes=('the shape that the rational functions or the iteration end with is any number, other than zero for an L-skewness below -0.8; that it gives the L-skewness is checked on examples only',
               'gamma function and powers: uninterpreted, the gamma function of one plus the shape and one less the power of two are not zero'))
def gev(ip):
    c = ip.ctx
    l1, l2, t3 = [c.input(n, c.real(n)) for n in ('l1', 'l2', 't3')]
    p = ip.call(ip.func(L + '::pelgev'), [PList([l1, l2, t3])])
    ok = And(l2 > 0, t3 > -1, t3 < 1)
    xi, al, k = [p.at(i) for i in range(3)]
    if not c.branch(ok):
        c.prove('post: no parameters for moments that cannot be', And(*[eq(v, 0) for v in (xi, al, k)]))
        return
    c.assume(Implies(lt(t3, Fraction(-8, 10)), Not(eq(k, 0))))
    if c.branch(eq(k, 0)):
        # shape zero: l2 = alpha log 2, l1 = xi + alpha * Euler's constant
        near = lambda a, b: And(le(sub(a, b), mul(Fraction(1, 10 ** 7), l2)), le(sub(b, a), mul(Fraction(1, 10 ** 7), l2)))
        c.prove('post: second L-moment for shape zero', near(mul(al, Fraction(6931471805599453, 10 ** 16)), l2))
        c.prove('post: mean for shape zero', near(add(xi, mul(al, Fraction(5772156649015329, 10 ** 16))), l1))
        return
    g = mfun('gamma', add(1, k))
    q = sub(1, pow_(Fraction(2), neg(k)))
    c.assume(Not(eq(g, 0)), Not(eq(q, 0)))
    c.prove('post: second L-moment', eq(truediv(mul(al, mul(q, g)), k), l2))
    c.prove('post: mean', eq(add(xi, truediv(mul(al, sub(1, g)), k)), l1))
